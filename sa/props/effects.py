"""Effects and precision over the whole call graph: C40, C41."""
from ..check import *
from ..check import Missing
from ..mir import norm_name

CHECKS = {}


def check(pid):
    def deco(f):
        CHECKS[pid] = f
        return f
    return deco


# paths whose functions talk to the world, to other threads or to memory that outlives the call
WORLD = ["std::io", "std::env", "std::fs", "std::process", "std::net", "std::time", "core::time", "std::thread", "std::sync",
         "core::sync", "alloc::sync", "std::os", "std::sys",
         "std::hash::random", "std::collections::hash", "hashbrown", "std::random", "core::random", "core::arch",
         "std::arch", "std::backtrace", "std::panic", "std::ffi", "core::ffi", "core::intrinsics",
         "std::intrinsics", "std::panicking", "std::rt"]
# the exceptions: refusing a call, and pure arithmetic; a cell inside a call is harmless, since one that outlives the call is
# in a static or in a type of the library, which are checked on their own
FINE = ["std::sys::cmath", "std::rt::begin_panic", "std::rt::panic_fmt", "std::panicking::begin_panic", "std::time::Duration",
        "core::time::Duration", "std::panic::Location", "core::panic::Location"]
BAD_INTR = ["volatile", "atomic", "black_box_", "breakpoint"]


def head(name):
    n = name
    while n.startswith("<") or n.startswith("&") or n.startswith("impl ") or n.startswith("mut ") or n.startswith("dyn "):
        for p in ("<", "&", "impl ", "mut ", "dyn "):
            if n.startswith(p):
                n = n[len(p):]
    return n


def under(name, roots):
    h = head(name)
    return any(h == r or h.startswith(r + "::") or h.startswith(r + "<") for r in roots)


def self_and_trait(name):
    """The parts of `<T as Trait>::m` that name a module."""
    out = [name]
    if name.startswith("<") and " as " in name:
        out.append(name.split(" as ", 1)[1])
    return out


class Graph:
    """Call edges of the dumped program, including function values, drops and trait-object targets."""

    def __init__(self, p):
        self.p = p
        self.edges = {}
        self.traits = {}
        for (m, t), k in p.virt.items():
            self.traits.setdefault(m, []).append(k)
        for k, i in p.insts.items():
            self.edges[k] = self.callees(i)

    def ty_fns(self, t, out, depth=0):
        ty = self.p.types[t]
        if ty["k"] == "fndef":
            if ty.get("inst"):
                out.append((ty["inst"], None))
        elif ty["k"] == "closure":
            for x in ty.get("insts") or []:
                if x:
                    out.append((x, None))

    def callees(self, i):
        out = []
        if not i["body"]:
            if i["kind"] == "virtual" or i["name"].startswith("<dyn "):
                out += [(k, None) for k in self.traits.get(i["def"], [])]
            return out
        for b in i["body"]["blocks"]:
            for s in b[0]:
                self.scan(s, out)
            t = b[1]
            self.scan(t, out)
            if t[0] == "drop" and isinstance(t[3], str):
                out.append((t[3], None))
        for t in i["body"]["locals"]:
            self.ty_fns(t, out)
        return out

    def scan(self, x, out):
        if isinstance(x, dict):
            if "t" in x:
                self.ty_fns(x["t"], out)
            for pr in x.get("p") or []:
                self.alloc(pr[1], out, 0)
        elif isinstance(x, list):
            for y in x:
                if isinstance(y, (list, dict)):
                    self.scan(y, out)

    def alloc(self, a, out, depth):
        if depth > 8:
            return
        al = self.p.allocs[a]
        if al["k"] == "fn":
            out.append((al["inst"], None))
        elif al["k"] == "static":
            out.append(("static:" + al["n"], None))
        for pr in al.get("p") or []:
            self.alloc(pr[1], out, depth + 1)


def chain(parent, k, p):
    out = []
    while k is not None and len(out) < 12:
        out.append(k if k.startswith("static:") else norm_name(p.insts[k]["name"]))
        k = parent.get(k)
    return list(reversed(out))


def reach(g, roots):
    parent = {}
    todo = []
    for r in roots:
        if r not in parent:
            parent[r] = None
            todo.append(r)
    while todo:
        k = todo.pop()
        for c, _ in g.edges.get(k, ()):
            if c in parent:
                continue
            if not c.startswith("static:") and c not in g.p.insts:
                continue
            parent[c] = k
            todo.append(c)
    return parent


def cellular(p, t, seen, path):
    """Path to a cell, lock or raw mutable pointer inside a type, or None."""
    if t in seen:
        return None
    seen.add(t)
    ty = p.types[t]
    k = ty["k"]
    if k == "adt":
        d = ty["def"]
        if under(d, ["core::cell", "std::cell", "core::sync", "std::sync", "alloc::rc", "std::rc", "alloc::sync"]) and \
                not under(d, ["core::cell::lazy_never"]):
            return path + [ty["n"]]
        if not d.startswith("mazth"):
            subs = [x for x in ty["args"] if isinstance(x, int)]
        else:
            subs = [f[1] for v in ty["v"] for f in v["f"]]
    elif k in ("ref", "array", "slice", "ptr", "pat"):
        if k == "ptr":
            return path + [ty["n"]]
        subs = [ty["e"]]
    elif k == "tuple":
        subs = ty["es"]
    elif k in ("fnptr", "dyn"):
        subs = []
    else:
        subs = []
    for s in subs:
        r = cellular(p, s, seen, path + [ty["n"]])
        if r:
            return r
    return None


ADDRESS = {"addr_eq", "ptr_eq", "addr", "expose_provenance", "expose_addr", "align_offset", "is_aligned", "is_aligned_to", "offset_from",
           "offset_from_unsigned", "sub_ptr", "byte_offset_from", "byte_offset_from_unsigned", "as_ptr_range", "caller", "fn_addr_eq", "new_pointer"}


def looks_at_address(i):
    """A foreign function whose result depends on where a value lies, or on where it was called."""
    d = i["def"]
    last = d.rsplit("::", 1)[-1]
    if last in ADDRESS or d.endswith(("::ptr::eq", "::ptr::hash")):
        return True
    n = i["name"]
    return n.startswith(("<*const ", "<*mut ", "<std::ptr::NonNull<")) and any(
        " as %s::%s" % (a, b) in n for a in ("std", "core") for b in ("cmp::", "hash::", "fmt::"))


def lname(p, i):
    n = norm_name(i["name"])
    return "%s (%s)" % (n, p.loc(i["span"])) if i.get("span") else n


def place_ty(p, body, pl):
    t = body["locals"][pl[0]]
    for e in pl[1]:
        ty = p.types[t]
        if e[0] == "*":
            if ty["k"] not in ("ref", "ptr"):
                return None
            t = ty["e"]
        elif e[0] == "f":
            t = e[2]
        else:
            return None
    return t


def local_sites(p, i):
    """(construct, detail) of each memory-aliasing construct in one local body."""
    body = i["body"]
    out = []
    for b in body["blocks"]:
        for s in b[0]:
            if s[0] != "=":
                continue
            r = s[2]
            at = p.loc(s[3]) if len(s) > 3 and s[3] else ""
            if r[0] == "tls":
                out.append(("thread-local", "access to thread-local memory", at))
            elif r[0] == "cast":
                kind, op, t = r[1], r[2], p.types[r[3]]
                src = place_ty(p, body, op[1]) if op[0] in ("cp", "mv") else op[1].get("t")
                st = p.types[src] if src is not None else {"k": "?", "n": "?"}
                if "Expose" in kind:
                    out.append(("address", "an address is turned into a number", at))
                elif kind in ("PtrToPtr", "Transmute") and t["k"] in ("ptr", "ref") and t["mut"] and st["k"] in ("ref", "ptr") and \
                        not st["mut"]:
                    out.append(("const-to-mut", "%s becomes %s" % (st["n"], t["n"]), at))
                elif kind == "Transmute" and t["k"] in ("int",) and st["k"] in ("ref", "ptr") and st["n"] != "*const ()":
                    out.append(("address", "an address is turned into a number", at))
            elif r[0] == "bin" and r[1] in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
                op = r[2]
                src = place_ty(p, body, op[1]) if op[0] in ("cp", "mv") else None
                if src is not None and p.types[src]["k"] == "ptr":
                    out.append(("address", "addresses are compared", at))
        if b[1][0] == "asm":
            out.append(("asm", "inline assembly", ""))
    return out


@check("C40")
def c40(ctx):
    p = ctx.p
    g = Graph(p)
    roots = [k for k, i in p.insts.items() if i["local"] and i["body"]]
    par = reach(g, roots)
    ctx.explanation = ("Effect analysis over the whole call graph of the resolved MIR: every static, library type, reachable "
                       "foreign function and every memory-aliasing construct of the library's own bodies is classified.")
    ctx.deep |= {norm_name(p.insts[k]["name"]) for k in par if k in p.insts}
    ctx.blocks += sum(len(p.insts[k]["body"]["blocks"]) for k in par if k in p.insts and p.insts[k]["body"])
    mine = {k: i for k, i in p.insts.items() if i["local"] and i["body"]}
    ctx.count("functions", len(mine))
    ctx.count("reachable", len([k for k in par if not k.startswith("static:")]))
    # 1. statics
    for s in p.raw["statics"]:
        name, mutable, freeze, tl, span = s
        ctx.obls.append(("static/" + name, name, "no static can change after it was built"))
        ctx.count("statics")
        if mutable or not freeze or tl:
            ctx.violation("static/" + name, "%s (%s)" % (name, p.loc(span)), "no static can change after it was built",
                          {"mutable": mutable, "interior mutability": not freeze, "thread local": tl})
    # 2. cells in the library's own types
    for n, t in enumerate(p.types):
        if t["k"] != "adt" or not head(t["def"]).startswith("mazth"):
            continue
        ctx.count("types")
        rule = "a value of the library holds no cell, lock or raw pointer"
        ctx.obls.append(("cell/" + t["n"], t["n"], rule))
        r = cellular(p, n, set(), [])
        if r is None and t.get("ak") == "union" and any(p.types[f[1]]["k"] in ("ref", "ptr", "fnptr") for v in t["v"] for f in v["f"]):
            r = ["a pointer shares its memory with another value"]
        if r:
            ctx.violation("cell/" + t["n"], t["n"], rule, {"path": r})
    # 3. calls out of the library
    rule = "no operation reaches input/output, clocks, threads, random state, cells or locks"
    for k in sorted(par, key=str):
        if k.startswith("static:"):
            continue
        i = p.insts[k]
        if i["local"]:
            continue
        ctx.obls.append(("call/" + norm_name(i["name"]), norm_name(i["name"]), rule))
        names = self_and_trait(i["name"]) + [i["def"]]
        bad = any(under(n, WORLD) and not under(n, FINE) for n in names)
        if i["intr"]:
            bad = any(w in i["intr"] for w in BAD_INTR)
        bad = bad or " as std::fmt::Pointer>" in i["name"] or " as core::fmt::Pointer>" in i["name"]
        if bad:
            c = chain(par, k, p)
            where = c[0]
            for kk in [x for x in par if x in mine]:
                if norm_name(p.insts[kk]["name"]) in c:
                    where = lname(p, p.insts[kk])
            ctx.violation("call/" + norm_name(i["name"]), where, rule, {"reached along": c})
    # 4. constructs in the library's own code
    rule2 = "no code of the library writes through a shared reference or looks at addresses"
    for k, i in mine.items():
        if i["kind"] == "shim":
            continue
        key = "alias/" + norm_name(i["name"])
        ctx.obls.append((key, norm_name(i["name"]), rule2))
        for what, det, at in local_sites(p, i):
            ctx.violation(key, "%s at %s" % (lname(p, i), at), rule2, {what: det})
        for c, _ in g.edges[k]:
            if c in p.insts and not p.insts[c]["local"]:
                n = p.insts[c]["name"]
                if n.endswith("cast_mut") or "::cast_mut::" in n or "NonNull" in n and "as_mut" in n:
                    ctx.violation(key, lname(p, i), rule2, {"call": norm_name(n)})
                if looks_at_address(p.insts[c]):
                    ctx.violation(key, lname(p, i), rule2, {"call": norm_name(n)})
    # 5. foreign functions without a body
    for k in par:
        if k.startswith("static:"):
            continue
        i = p.insts[k]
        if i["local"] and not i["body"] and not i["name"].startswith("<dyn ") and i["kind"] not in ("virtual",):
            ctx.violation("foreign/" + norm_name(i["name"]), norm_name(i["name"]), rule, {"kind": i["kind"]})
    ctx.floor("functions", 400)
    ctx.floor("types", 20)


def sig_floats(p, i):
    """Float widths named in the signature of an instance, through references, arrays and library types."""
    out = set()
    b = i["body"]

    def go(t, d, seen):
        if t in seen or d > 8:
            return
        seen.add(t)
        ty = p.types[t]
        if ty["k"] == "float":
            out.add(ty["b"])
        elif ty["k"] in ("ref", "ptr", "array", "slice"):
            go(ty["e"], d + 1, seen)
        elif ty["k"] == "tuple":
            for x in ty["es"]:
                go(x, d + 1, seen)
        elif ty["k"] == "dyn":
            out.add(64)
        elif ty["k"] == "adt":
            for x in ty["args"]:
                if isinstance(x, int):
                    go(x, d + 1, seen)
            for v in ty["v"]:
                for f in v["f"]:
                    go(f[1], d + 1, seen)
    for t in b["locals"][:b["argc"] + 1]:
        go(t, 0, set())
    return out


@check("C41")
def c41(ctx):
    p = ctx.p
    g = Graph(p)
    rule = "no value of a double-precision operation passes through single precision or an integer"
    roots = [k for k, i in p.insts.items() if i["local"] and i["body"] and i["kind"] != "shim" and sig_floats(p, i) == {64}]
    ctx.count("operations", len(roots))
    par = reach(g, roots)
    ctx.explanation = ("Conversion analysis over the call graph below every operation whose signature speaks of double "
                       "precision only: each cast of each reachable body is classified.")
    ctx.deep |= {norm_name(p.insts[k]["name"]) for k in par if k in p.insts}
    ctx.blocks += sum(len(p.insts[k]["body"]["blocks"]) for k in par if k in p.insts and p.insts[k]["body"])
    for k in sorted(par):
        if k.startswith("static:"):
            continue
        i = p.insts[k]
        if not i["body"] or not i["local"]:
            # math functions of the other width
            if i["intr"] and (i["intr"].endswith("f32") or "f32" in norm_name(i["name"])) or i["def"].endswith("f32::<impl f32>") or \
                    i["intr"] == "float_to_int_unchecked" or "dec2flt" in i["name"] or i["name"].startswith("<f64 as std::str::FromStr>"):
                key = "narrow/" + norm_name(i["name"])
                ctx.violation(key, chain(par, k, p)[0], rule, {"reached along": chain(par, k, p)})
            if not i["body"]:
                continue
        key = "narrow/" + norm_name(i["name"])
        ctx.obls.append((key, norm_name(i["name"]), rule))
        ctx.count("bodies")
        for b in i["body"]["blocks"]:
            for s in b[0]:
                if s[0] != "=" or s[2][0] != "cast":
                    continue
                kind, op, t = s[2][1], s[2][2], p.types[s[2][3]]
                bad = None
                if kind == "FloatToInt":
                    bad = "a float becomes the integer %s" % t["n"]
                elif kind == "FloatToFloat":
                    bad = "a float is converted to %s" % t["n"]
                elif kind == "Transmute" and t["k"] == "float":
                    src = place_ty(p, i["body"], op[1]) if op[0] in ("cp", "mv") else op[1].get("t")
                    if src is None or p.types[src]["k"] != "float":
                        bad = "bits become a float"
                if bad:
                    ctx.violation(key, "%s at %s" % (lname(p, i), p.loc(s[3]) if len(s) > 3 and s[3] else ""), rule,
                                  {"construct": bad, "reached along": chain(par, k, p)})
    ctx.floor("operations", 120)
    ctx.floor("bodies", 120)
