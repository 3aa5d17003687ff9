"""Loads the dump of the resolved program and provides control-flow structure."""
import json
import re


class Unsupported(Exception):
    """The analysis met a construct it has no sound transfer function for (fail closed)."""


class Program:
    def __init__(self, path):
        with open(path) as f:
            d = json.load(f)
        self.raw = d
        self.types = d["types"]
        self.alias = {}
        for i, t in enumerate(self.types):
            # pattern types (non-null pointers and the like) are their base type
            if t["k"] == "pat":
                self.alias[i] = t["e"]
        for i, e in self.alias.items():
            while e in self.alias:
                e = self.alias[e]
            self.alias[i] = e
            self.types[i] = self.types[e]
        self.insts = d["insts"]
        self.allocs = d["allocs"]
        self.files = d["files"]
        self.fns = d["fns"]
        self.adts = d["adts"]
        self.impls = d["impls"]
        self.virt = {}
        for m, t, k in d["virt"]:
            self.virt[(m, t)] = k
        self.by_def = {}
        for k, i in self.insts.items():
            i["key"] = k
            self.by_def.setdefault(i["def"], []).append(k)
        self._cfg = {}
        self._transp = {}
        self.ty_by_name = {t.get("n"): i for i, t in enumerate(self.types)}
        self._elemname = {}

    # -------------------------------------------------------------- lookups
    def local_insts(self):
        return [k for k, i in self.insts.items() if i["local"] and i["body"]]

    def find(self, suffix, arg=None):
        """Instance keys whose printed name matches."""
        out = [k for k, i in self.insts.items() if i["local"] and (i["name"] == suffix or i["def"] == suffix)]
        return out

    def fn(self, name):
        """Unique local instance by printed name, e.g. 'mat::Mat3x1::<f64>::dot'."""
        for k, i in self.insts.items():
            if i["local"] and i["body"] is not None and norm_name(i["name"]) == name:
                return k
        return None

    def loc(self, span):
        return "%s:%d" % (self.files[span[0]], span[1])

    def ty(self, name):
        return self.ty_by_name.get(name)

    def adt(self, name):
        """Type index of a non-generic local type, e.g. 'sphere::Sphere'."""
        for i, t in enumerate(self.types):
            if t["k"] == "adt" and t["n"] == name:
                return i
        raise Unsupported("type %s not found" % name)

    # -------------------------------------------------------------- types
    def size(self, t):
        lay = self.types[t].get("lay")
        return lay["size"] if lay else None

    def is_zst(self, t):
        return self.size(t) == 0 and self.types[t]["k"] not in ("slice", "str", "dyn")

    def inhabited(self, t, depth=0):
        """Conservative: False only for types that have no values."""
        ty = self.types[t]
        if ty["k"] == "never":
            return False
        if depth > 6:
            return True
        if ty["k"] == "tuple":
            return all(self.inhabited(x, depth + 1) for x in ty["es"])
        if ty["k"] == "adt" and ty["ak"] != "union":
            return any(all(self.inhabited(f[1], depth + 1) for f in v["f"]) for v in ty["v"])
        return True

    def only_variant(self, t):
        """Index of the only variant of an enum that has values, or None."""
        vs = [i for i, v in enumerate(self.types[t]["v"]) if all(self.inhabited(f[1]) for f in v["f"])]
        return vs[0] if len(vs) == 1 else None

    def transparent(self, t):
        """Index of the only field with a size, for structs/unions/tuples represented by that field."""
        if t in self._transp:
            return self._transp[t]
        self._transp[t] = None
        ty = self.types[t]
        r = None
        fs = None
        if ty["k"] == "adt" and ty["ak"] in ("struct", "union"):
            fs = [f[1] for f in ty["v"][0]["f"]]
        elif ty["k"] == "tuple":
            fs = ty["es"]
        elif ty["k"] == "closure" and ty["up"] is not None:
            fs = self.types[ty["up"]]["es"]
        if fs is not None and ty.get("lay"):
            if ty["k"] == "adt" and ty["ak"] == "union":
                nz = [i for i, f in enumerate(fs) if self.size(f) == ty["lay"]["size"] and ty["lay"]["size"] > 0]
                r = nz[0] if nz else None
            else:
                nz = [i for i, f in enumerate(fs) if not self.is_zst(f)]
                if len(nz) == 1 and self.size(fs[nz[0]]) == ty["lay"]["size"]:
                    r = nz[0]
        self._transp[t] = r
        return r

    def fields(self, t, variant=0):
        ty = self.types[t]
        if ty["k"] == "adt":
            return [f[1] for f in ty["v"][variant]["f"]]
        if ty["k"] == "tuple":
            return ty["es"]
        if ty["k"] == "closure":
            return self.types[ty["up"]]["es"] if ty["up"] is not None else []
        raise Unsupported("fields of %s" % ty.get("n"))

    def field_index(self, t, name, variant=0):
        for i, f in enumerate(self.types[t]["v"][variant]["f"]):
            if f[0] == name:
                return i
        return None

    # -------------------------------------------------------------- control flow
    def cfg(self, key):
        c = self._cfg.get(key)
        if c is None:
            c = CFG(self.insts[key]["body"])
            self._cfg[key] = c
        return c


_NORM = re.compile(r"\s+")


def norm_name(n):
    return _NORM.sub(" ", n)


def successors(t):
    k = t[0]
    if k == "goto":
        return [t[1]]
    if k == "sw":
        return [b for _, b in t[2]] + [t[3]]
    if k == "drop":
        return [t[2]]
    if k == "call":
        return [t[4]] if t[4] is not None else []
    if k == "assert":
        return [t[4]]
    return []


class CFG:
    """Weak topological order: every block gets a position inside its nest of loops."""

    def __init__(self, body):
        self.blocks = body["blocks"]
        n = len(self.blocks)
        self.succ = [successors(b[1]) for b in self.blocks]
        reach = set()
        st = [0]
        while st:
            b = st.pop()
            if b in reach:
                continue
            reach.add(b)
            st.extend(self.succ[b])
        self.reach = reach
        self.chain = {}      # block -> tuple of (component id, pos) from outermost to block pos
        self.headers = {}    # component id -> header block
        self.comps = {}      # block -> tuple of component ids containing it
        self._cid = 0
        self._order(sorted(reach), 0, (), ())

    def _scc(self, nodes, root):
        nodes = set(nodes)
        index = {}
        low = {}
        on = set()
        st = []
        out = []
        cnt = [0]
        starts = [root] + sorted(nodes - {root})
        for s in starts:
            if s in index or s not in nodes:
                continue
            work = [(s, iter(self.succ[s]))]
            index[s] = low[s] = cnt[0]
            cnt[0] += 1
            st.append(s)
            on.add(s)
            while work:
                v, it = work[-1]
                adv = False
                for w in it:
                    if w not in nodes:
                        continue
                    if w not in index:
                        index[w] = low[w] = cnt[0]
                        cnt[0] += 1
                        st.append(w)
                        on.add(w)
                        work.append((w, iter(self.succ[w])))
                        adv = True
                        break
                    elif w in on:
                        low[v] = min(low[v], index[w])
                if adv:
                    continue
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == index[v]:
                    c = []
                    while True:
                        w = st.pop()
                        on.discard(w)
                        c.append(w)
                        if w == v:
                            break
                    out.append((c, v))
        out.reverse()
        return out

    def _order(self, nodes, root, prefix, comps, cut=None):
        # topological order of the strongly connected components
        for pos, (c, first) in enumerate(self._scc(nodes, root)):
            b = c[0]
            loop = len(c) > 1 or b in self.succ[b]
            if not loop:
                self.chain[b] = prefix + ((None, pos),)
                self.comps[b] = comps
            else:
                cid = self._cid
                self._cid += 1
                header = first
                self.headers[cid] = header
                pre = prefix + ((cid, pos),)
                self.chain[header] = pre + ((None, -1),)
                self.comps[header] = comps + (cid,)
                rest = [x for x in c if x != header]
                if rest:
                    sub = [x for x in self.succ[header] if x in rest]
                    self._order_in(rest, sub[0] if sub else rest[0], pre, comps + (cid,))

    def _order_in(self, nodes, root, prefix, comps):
        self._order(nodes, root, prefix, comps)

    def key(self, b, iters):
        out = []
        for cid, pos in self.chain[b]:
            out.append(pos)
            if cid is not None:
                out.append(iters.get(cid, 0))
        return tuple(out)

    def step(self, src, iters, dst):
        """Loop counters after following the edge src -> dst."""
        new = {}
        sc = self.comps[src]
        for cid in self.comps[dst]:
            if cid in sc:
                new[cid] = iters.get(cid, 0) + (1 if self.headers[cid] == dst else 0)
            else:
                new[cid] = 0
        # a back edge to an outer header resets inner counters (they are not in comps[dst])
        return new
