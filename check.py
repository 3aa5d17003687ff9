#!/usr/bin/env python3
"""Runs the check of one property against the current tree of /repo."""
import glob
import importlib
import ctypes
import json
import os
import shutil
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("MAZTH_REPO", "/repo")
sys.path.insert(0, HERE)


def sh(cmd, env=None, cwd=None):
    return subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def dump(scratch):
    """Builds the MIR exporter and applies it to the library crate of the repository."""
    tool = os.path.join(scratch, "mirdump")
    r = sh(["rustc", "+nightly", "--edition", "2021", "-C", "opt-level=1",
            os.path.join(HERE, "driver", "mirdump.rs"), "-o", tool])
    if r.returncode:
        return None, "exporter does not build:\n" + r.stdout[-3000:]
    sysroot = sh(["rustc", "+nightly", "--print", "sysroot"]).stdout.strip()
    out = os.path.join(scratch, "prog.json")
    env = dict(os.environ, LD_LIBRARY_PATH=sysroot + "/lib", MIRDUMP_OUT=out, RUSTC_WORKSPACE_WRAPPER=tool,
               CARGO_TARGET_DIR=os.path.join(scratch, "target"))
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_BUILD_TARGET"):
        env.pop(k, None)
    lock = os.path.join(REPO, "Cargo.lock")
    had = os.path.exists(lock)
    r = sh(["cargo", "+nightly", "check", "--lib", "--offline"], env=env, cwd=REPO)
    if not had and os.path.exists(lock):
        os.remove(lock)
    if not os.path.exists(out):
        # the library has no used dependencies: compile it directly
        env2 = dict(env)
        env2.pop("RUSTC_WORKSPACE_WRAPPER")
        r2 = sh([tool, "rustc", "--crate-name", "mazth", "--edition=2015", os.path.join(REPO, "lib", "mod.rs"),
                 "--crate-type", "lib", "--emit=metadata", "--out-dir", scratch, "--cap-lints", "allow"], env=env2, cwd=REPO)
        if not os.path.exists(out):
            return None, "the library does not compile:\n" + r.stdout[-3000:] + r2.stdout[-1000:]
    return out, None


def known_findings():
    """Obligation keys listed as known, per property; lines starting with `fixed:` suppress nothing."""
    out = {}
    path = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                w = line.split(None, 3)
                if len(w) >= 3 and w[0] == "known:" and w[1].startswith("property=") and w[2].startswith("key="):
                    out.setdefault(w[1][9:], {})[w[2][4:]] = w[3].strip() if len(w) > 3 else ""
    return out


def write_evidence(pid, tier, seed, coverage, t0, nviol, assumptions):
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "other", "coverage": coverage,
          "assumptions": assumptions, "wall_s": round(time.time() - t0, 2), "violations": nviol}
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


class OutOfTime(BaseException):
    """Raised inside the analysis thread when its time is used up."""


LIMIT = (int(os.environ.get("MAZTH_LIMIT", "800")), 3300)     # seconds: quick, thorough


def run(pids, tier, seed, prog_path=None):
    rc = 0
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="mazth-sa-")
    try:
        err = None
        if prog_path is None:
            prog_path, err = dump(scratch)
        from sa import mir, check, props
        prog = None
        if err is None:
            prog = mir.Program(prog_path)
        for pid in pids:
            t1 = t0 if len(pids) == 1 else time.time()
            ctx = check.Ctx(prog, pid, tier, seed)
            ctx.scratch = scratch
            if err is not None:
                ctx.violation("build", REPO, "the analysed program must compile", {"log": err})
            else:
                try:
                    with check.guard(ctx, "check", pid):
                        props.REGISTRY[pid](ctx)
                except OutOfTime:
                    ctx.notes.append("the analysis was stopped after %d s: only the obligations listed here were decided, "
                                     "the remaining ones of this property were not" % LIMIT[tier == "thorough"])
                    print("INCOMPLETE property=%s decided=%d" % (pid, len(ctx.obls)))
            rc |= report(ctx, t1)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return rc


def report(ctx, t0):
    pid = ctx.pid
    listed = known_findings().get(pid, {})
    new = []
    for v in ctx.viol:
        if v["key"] in listed:
            ctx.known.append(v)
        else:
            new.append(v)
    nfail = len({v["key"] for v in ctx.viol})
    cov = {
        "explanation": ctx.explanation or "Forward dataflow over the compiler's resolved MIR of the current tree: float values are exact "
                       "rational functions of symbolic inputs, joins are decision diagrams over polynomial signs; "
                       "each obligation is a rule instance that must hold in every abstract state.",
        "obligations": len(ctx.obls),
        "obligations_discharged": max(0, len(ctx.obls) - nfail),
        "entry_functions": len(ctx.fns),
        "entry_function_names": sorted(ctx.fns)[:80],
        "functions_analysed": len(ctx.deep),
        "functions_analysed_names": sorted(ctx.deep)[:120],
        "blocks_interpreted": ctx.blocks,
        "call_sites_interpreted": ctx.calls,
        "sign_conditions": ctx.atoms,
        "contradictory_condition_sets": ctx.pruned,
        "instances": ctx.counts,
        "rules": sorted({o[2] for o in ctx.obls})[:60],
        "samples": [{"obligation": o[0], "where": o[1], "rule": o[2]} for o in ctx.obls[:6]],
    }
    if ctx.notes:
        cov["notes"] = ctx.notes
    write_evidence(pid, ctx.tier, ctx.seed, cov, t0, len(new), ctx.assumptions + [
        "floats are read as real numbers: rounding, overflow and underflow are outside the analysis",
        "the compiler's MIR, layouts and instance resolution are what runs; libm functions are their mathematical namesakes"])
    for v in ctx.known:
        print("KNOWN-FINDING: property=%s %s: %s at %s" % (pid, v["key"], listed[v["key"]], v["where"]))
    if not new:
        print("OK property=%s obligations=%d functions=%d" % (pid, len(ctx.obls), len(ctx.deep)))
        return 0
    path = os.path.join(HERE, "evidence", "violation-%s.json" % pid)
    with open(path, "w") as f:
        json.dump(new, f, indent=1)
    print("VIOLATION property=%s replay=%s" % (pid, path))
    for v in new[:6]:
        print("  %s: %s\n    rule: %s\n    %s" % (v["key"], v["where"], v["rule"], json.dumps(v["detail"])[:900]))
    return 1


def main():
    args = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    prog = None
    pids = []
    while args:
        a = args.pop(0)
        if a == "--tier":
            tier = args.pop(0)
        elif a == "--prog":
            prog = args.pop(0)
        else:
            pids.append(a)
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    from sa import props
    if pids == ["all"]:
        pids = sorted(props.REGISTRY)
    for p in pids:
        if p not in props.REGISTRY:
            print("unknown property", p)
            sys.exit(2)
    res = []

    def body():
        try:
            res.append(run(pids, tier, seed, prog))
        except BaseException:
            import traceback
            traceback.print_exc()
            for p in pids:
                print("VIOLATION property=%s replay=%s" % (p, "internal-error"))
            res.append(1)
    threading.stack_size(1024 * 1024 * 1024)
    t = threading.Thread(target=body)
    t.start()
    # A property whose analysis does not finish in time gives an answer for what was decided.
    t.join(LIMIT[tier == "thorough"] if len(pids) == 1 else None)
    while t.is_alive():
        ctypes.pythonapi.PyThreadState_SetAsyncExc(ctypes.c_ulong(t.ident), ctypes.py_object(OutOfTime))
        t.join(20)
    sys.stdout.flush()
    os._exit(res[0] if res else 1)


if __name__ == "__main__":
    main()
