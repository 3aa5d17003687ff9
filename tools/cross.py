"""Run every check against every planted change; writes one line per change: id, property, checks that report it.

usage: cross.py OUT [ids...]   (works on scratch copies under /tmp; not used by any check)
"""
import json, os, subprocess, sys, shutil
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(i):
    w = "/tmp/cross-" + i
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    sh = lambda c, **k: subprocess.run(c, shell=True, capture_output=True, text=True, **k)
    sh("git -C /repo archive HEAD | tar x -C %s" % w)
    d = HERE + "/seeded/" + i
    r = sh("git apply %s/patch.diff" % d, cwd=w)
    prop = json.load(open(d + "/meta.json"))["property"]
    if r.returncode:
        return "%s %s DOES NOT APPLY" % (i, prop)
    sh("%s/build_dump.sh %s %s.json" % (HERE, w, w))
    env = dict(os.environ, MAZTH_REPO=w)
    r = sh("python3 check.py all --prog %s.json" % w, cwd=HERE, env=env)
    hits = sorted({l.split("property=")[1].split()[0] for l in r.stdout.split("\n") if l.startswith("VIOLATION")})
    shutil.rmtree(w, ignore_errors=True)
    os.path.exists(w + ".json") and os.remove(w + ".json")
    return "%s %s %s" % (i, prop, ",".join(hits) or "-")


ids = sys.argv[2:] or sorted(os.listdir(HERE + "/seeded"))
with ThreadPoolExecutor(int(os.environ.get("J", "4"))) as ex, open(sys.argv[1], "w") as f:
    for line in ex.map(one, ids):
        f.write(line + "\n")
        f.flush()
