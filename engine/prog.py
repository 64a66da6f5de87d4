"""The analysed program: monomorphic MIR dump, types, per-function CFG facts (loops, liveness)."""
import json
import values
from values import *
from dom import *


class Prog:
    def __init__(self, path):
        d = path if isinstance(path, dict) else json.load(open(path))
        self.types = {t["id"]: t for t in d["types"]} if d["types"] and "id" in d["types"][0] else dict(enumerate(d["types"]))
        self.fns = {f["id"]: f for f in d["fns"]}
        self.entries = d["entries"]
        self.inventory = d["inventory"]
        self.probes = d.get("probes", {})
        self.byname = {}
        for f in self.fns.values():
            self.byname.setdefault(f["name"], f["id"])
        self._cfg = {}
        self._symdom = {}
        values.VNAME = self.vname

    def ty(self, t):
        return self.types[t]

    def vname(self, t, var):
        ty = self.types.get(t)
        if ty and ty["k"] == "adt":
            if ty["adt"] == "enum":
                return ty["variants"][var]["name"]
            return ty["path"].split("::")[-1]
        if ty and ty["k"] == "array":
            return "arr"
        if ty and ty["k"] == "closure":
            return "closure"
        return ""

    def inhabited(self, t, depth=0):
        ty = self.types[t]
        if ty["k"] == "never":
            return False
        if depth > 2:
            return True
        if ty["k"] == "tuple":
            return all(self.inhabited(e, depth + 1) for e in ty["elems"])
        if ty["k"] == "adt" and ty["adt"] == "enum":
            return any(all(self.inhabited(ft, depth + 1) for _, ft in v["fields"]) for v in ty["variants"])
        return True

    def symdom(self, t):
        d = self._symdom.get(t)
        if d is None:
            ty = self.types[t]
            ok = [i for i, v in enumerate(ty["variants"]) if all(self.inhabited(ft) for _, ft in v["fields"])]
            d = ISet.vals(ok) if ok else ISet.rng(0, 0)
            self._symdom[t] = d
        return d

    def variant(self, t, name):
        for i, v in enumerate(self.types[t]["variants"]):
            if v["name"] == name:
                return i
        return None

    def int_range(self, t):
        ty = self.types[t]
        if ty["k"] == "bool":
            return 0, 1
        if ty["k"] == "char":
            return 0, 0x10FFFF
        b = ty["bits"]
        if ty["signed"]:
            return -(1 << (b - 1)), (1 << (b - 1)) - 1
        return 0, (1 << b) - 1

    def is_adt(self, t, suffix):
        ty = self.types.get(t)
        return ty is not None and ty["k"] == "adt" and (ty["path"] == suffix or ty["path"].endswith("::" + suffix))

    # ---------------------------------------------------------------- call graph
    def callees(self, fid):
        """functions mentioned in the body: called, or taken as a value (fn items, closures)"""
        g = self.__dict__.setdefault("_callees", {})
        r = g.get(fid)
        if r is None:
            r = set()
            b = self.fns[fid]["body"]
            if b:
                def ty(t):
                    x = self.types.get(t)
                    if not x:
                        return
                    if x["k"] == "fndef":
                        r.add(x["fn"])
                    elif x["k"] == "closure":
                        r.update(x["insts"].values())

                def walk(x):
                    if isinstance(x, list):
                        if len(x) >= 3 and x[0] == "k" and isinstance(x[1], int):
                            ty(x[1])
                            if isinstance(x[2], list) and x[2] and x[2][0] in ("fn", "fnptr"):
                                r.add(x[2][1])
                        if len(x) >= 3 and x[0] == "agg" and x[1] == "closure":
                            ty(x[2])
                        for y in x:
                            walk(y)
                for blk in b["blocks"]:
                    walk(blk["s"])
                    walk(blk["t"])
            r.discard(None)
            r = frozenset(y for y in r if y in self.fns)
            g[fid] = r
        return r

    def reach(self, roots):
        seen = set(roots)
        work = list(roots)
        while work:
            f = work.pop()
            for c in self.callees(f):
                if c not in seen:
                    seen.add(c)
                    work.append(c)
        return seen

    def recursive(self, fid):
        m = self.__dict__.setdefault("_rec", {})
        if fid not in m:
            m[fid] = fid in self.reach(self.callees(fid))
        return m[fid]

    # ---------------------------------------------------------------- CFG facts
    def cfg(self, fid):
        c = self._cfg.get(fid)
        if c is None:
            c = CFG(self.fns[fid]["body"])
            self._cfg[fid] = c
        return c


def succs(t):
    k = t[0]
    if k == "goto":
        return [t[1]]
    if k == "switch":
        return [b for _, b in t[2]] + [t[3]]
    if k == "drop":
        return [t[2]]
    if k == "call":
        return [t[4]] if t[4] is not None else []
    if k == "assert":
        return [t[4]]
    return []


def _places(x, out):
    """all places in an rvalue/operand/terminator json"""
    if isinstance(x, list):
        if len(x) == 2 and isinstance(x[0], int) and isinstance(x[1], list) and all(isinstance(p, list) and p and isinstance(p[0], str) for p in x[1]):
            out.append(x)
            for p in x[1]:
                if p[0] == "i":
                    out.append([p[1], []])
            return
        for y in x:
            _places(y, out)


class CFG:
    def __init__(self, body):
        self.body = body
        bs = body["blocks"]
        n = len(bs)
        self.succ = [succs(b["t"]) for b in bs]
        self.n = n
        # DFS for back edges / natural loops
        color = [0] * n
        self.headers = {}
        order = []
        stack = [(0, iter(self.succ[0]))]
        color[0] = 1
        backs = []
        while stack:
            b, it = stack[-1]
            for s in it:
                if color[s] == 0:
                    color[s] = 1
                    stack.append((s, iter(self.succ[s])))
                    break
                elif color[s] == 1:
                    backs.append((b, s))
            else:
                color[b] = 2
                order.append(b)
                stack.pop()
        pred = [[] for _ in range(n)]
        for b in range(n):
            if color[b]:
                for s in self.succ[b]:
                    pred[s].append(b)
        for (b, h) in backs:
            L_ = self.headers.setdefault(h, {h})
            work = [b]
            while work:
                x = work.pop()
                if x in L_:
                    continue
                L_.add(x)
                work += pred[x]
        # liveness of locals whose address is never taken
        addr = set()
        use = [set() for _ in range(n)]
        deff = [set() for _ in range(n)]
        for b in range(n):
            if not color[b]:
                continue
            for s in bs[b]["s"]:
                if s[0] == "=":
                    r = s[2]
                    pl = []
                    if r[0] in ("ref", "addr"):
                        p = r[1]
                        if not any(q[0] == "*" for q in p[1]):
                            addr.add(p[0])
                    _places(r, pl)
                    for p in pl:
                        if p[0] not in deff[b]:
                            use[b].add(p[0])
                    lp = s[1]
                    if lp[1]:
                        tmp = []
                        _places(lp, tmp)
                        for p in tmp:
                            if p[0] not in deff[b]:
                                use[b].add(p[0])
                    else:
                        deff[b].add(lp[0])
                else:
                    pl = []
                    _places(s, pl)
                    for p in pl:
                        if p[0] not in deff[b]:
                            use[b].add(p[0])
            t = bs[b]["t"]
            pl = []
            if t[0] == "call":
                _places(t[1], pl)
                _places(t[2], pl)
                if t[3][1]:
                    _places(t[3], pl)
            elif t[0] == "drop":
                pass
            else:
                _places(t[1:], pl)
            for p in pl:
                if p[0] not in deff[b]:
                    use[b].add(p[0])
            if t[0] == "call" and not t[3][1]:
                # defined on the edge: treat as def at the end
                deff[b].add(t[3][0])
            if t[0] == "return":
                use[b].add(0) if 0 not in deff[b] else None
        live_in = [set() for _ in range(n)]
        changed = True
        while changed:
            changed = False
            for b in order:
                o = set()
                for s in self.succ[b]:
                    o |= live_in[s]
                if bs[b]["t"][0] == "return":
                    o.add(0)
                i = use[b] | (o - deff[b])
                if i != live_in[b]:
                    live_in[b] = i
                    changed = True
        self.addr = addr
        self.live_in = [x | addr for x in live_in]
        self.exits = None
