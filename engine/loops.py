"""Loops (bounded trace partitioning, then widening to an inductive invariant) and recursion
(assume/guarantee contracts proved on a fully symbolic activation)."""
import time
from dom import *
from values import *
import interp as I


class GenCtx:
    def __init__(self, lid):
        self.lid = lid
        self.n = atom(("lp", lid, "n"), ISet.rng(0, LENMAX))
        self.memo = {}
        self.level = {}      # path -> demotion level
        self.tmpl = {}       # path -> (template, hole)
        self.fresh = {}      # path -> list of atoms introduced
        self.init = {}       # atom -> initial Lin
        self.cands = []
        self.k = 0

    def atom(self, path, dom, tag=""):
        a = atom(("lp", self.lid, "x", tag) + (path,), dom)
        return a


BIG = ISet.rng(-(1 << 64), 1 << 64)


class LoopMixin:
    # ------------------------------------------------------------------ drivers
    def run_loop_mir(self, fr, header, st):
        cfg = self.p.cfg(fr.fid)
        loop = (header, cfg.headers[header])
        return self.run_loop(st, lambda s: self.exec_blocks(fr, header, s, loop), (fr.f["path"], header))

    def run_loop(self, st, step, ident):
        outs = []
        st0 = st.fork()
        cur = [st]
        hist = []
        k = 0
        while cur:
            if k >= self.K_UNROLL or (k >= self.K_MIN and len(outs) > self.K_EXITS) or len(cur) > self.K_CUR:
                break
            nxt = []
            if self.deadline and time.monotonic() > self.deadline:
                self.incomplete.append((str(ident[0]), "time budget"))
                if outs:
                    return outs
                cur = cur[:1]
            for s in cur:
                for o in step(s):
                    if o[0] == "back":
                        if not o[1].store.bot and not (o[1].store.ineqs and o[1].store.infeasible()):
                            nxt.append(o[1])
                    else:
                        outs.append(o)
            if len(nxt) > 1:
                nxt = [a for a, _ in self.merge([(s, UNIT) for s in nxt])]
            hist.append([s.fork() for s in nxt])
            cur = nxt
            k += 1
        key = ident
        self.loops[key] = max(self.loops.get(key, 0), k)
        if not cur:
            return outs
        self.loop_widened += 1
        try:
            outs += self.widen_loop(st0, hist, step, ident, [s.taint for s in cur if s.taint])
        except I.Unmodelled as x:           # only the exits of the first iterations are covered
            self.incomplete.append((str(ident[0]), x.what))
        return outs

    # ------------------------------------------------------------------ widening
    def widen_loop(self, st0, hist, step, ident, taints):
        self.loopctr += 1
        ctx = GenCtx("%s#%d@%s" % (ident[0], ident[1], self.loop_serial(ident)))
        backs = hist[0]
        if not backs:
            backs = hist[-1]
        step0 = step
        flags = self.loop_flags(st0, backs)

        def step(s):
            return self.rotate(st0, flags, step0(s), step0)
        if flags:
            backs = [o[1] for o in self.rotate(st0, flags, [("back", s.fork()) for s in backs], step0) if o[0] == "back"] or backs
        obs = list(backs)
        for rnd in range(14):
            ctx.memo = {}
            ctx.cands_new = []
            ctx.uniq = {}
            G = self.generalise(st0, obs, ctx)
            # candidate facts: those not yet refuted
            cands = [c for c in self.candidates(st0, obs, ctx) if c not in ctx_refuted(ctx)]
            G.store.assume_ge(L(ctx.n))
            ok = True
            for c in cands:
                if c[0] == "ge":
                    G.store.assume_ge(c[1])
                elif c[0] == "allin":
                    G.store.add_allin(*c[1:])
            G.taint = G.taint or "widened loop"
            self.mute += 1
            try:
                res = step(G.fork())
            finally:
                self.mute -= 1
            changed = False
            for o in res:
                if o[0] != "back":
                    continue
                B = o[1]
                if B.store.bot or (B.store.ineqs and B.store.infeasible()):
                    continue
                if self.check_back(G, B, ctx, cands):
                    changed = True
                    if B not in obs and len(obs) < 6:
                        pass
            if self.learn(G, res, ctx):
                changed = True
            if not changed:
                outs = []
                for o in step(G.fork()):
                    if o[0] != "back":
                        s = o[-1]
                        s.taint = s.taint or "widened loop"
                        outs.append(o)
                return outs
        raise I.Unmodelled("no loop invariant for %s" % (ident[0],))

    # a flag that is constant on entry and set by the body to make the loop end: the iteration that sets it is continued
    # to the exit, so that at the loop head the flag keeps its value (and what goes with it is not joined away)
    def loop_flags(self, st0, backs):
        out = []
        for d, fr in enumerate(st0.fr):
            for k, v in fr.items():
                if isinstance(v, BoolV) and v.c[0] in ("true", "false"):
                    if any(d < len(o.fr) and isinstance(o.fr[d].get(k), BoolV) and I.norm_val(o.store, o.fr[d][k]) != v for o in backs):
                        out.append((d, k, v.c[0] == "true"))
        return out[:3]

    def rotate(self, st0, flags, outs, step):
        if not flags:
            return outs
        res = []
        for o in outs:
            if o[0] != "back":
                res.append(o)
                continue
            todo = [(o[1], 0, False)]
            while todo:
                s, i, moved = todo.pop()
                if s.store.bot:
                    continue
                if i < len(flags):
                    d, k, b = flags[i]
                    v = s.fr[d].get(k) if d < len(s.fr) else None
                    if not isinstance(v, BoolV):
                        todo.append((s, i + 1, True))
                        continue
                    try:
                        c = s.store.decide(v.c)
                        if c is None:
                            for w in (True, False):
                                t = s.fork()
                                if t.store.assume(v.c if w else simp_not(v.c)) and not t.store.infeasible():
                                    t.put(("L", d, k), TRUE if w else FALSE)
                                    todo.append((t, i + 1, moved or w != b))
                            continue
                    except Split:
                        todo.append((s, i + 1, True))
                        continue
                    todo.append((s, i + 1, moved or c != b))
                    continue
                if moved:
                    r = step(s.fork())
                    if all(x[0] != "back" for x in r):
                        res += r
                        continue
                res.append(("back", s))
        return res

    def loop_serial(self, ident):
        d = self.__dict__.setdefault("_lserial", {})
        d[ident] = d.get(ident, 0) + 1
        return d[ident]

    def generalise(self, st0, obs, ctx):
        G = st0.fork()
        G.nheap = st0.nheap + 64
        for d, fr in enumerate(st0.fr):
            for k, v in list(fr.items()):
                vs = [o.fr[d].get(k, UNINIT) if d < len(o.fr) else UNINIT for o in obs]
                if all(x is v for x in vs):
                    continue
                g = self.gen(v, vs, st0, obs, ctx, ("f", d, k))
                if g is not v:
                    G.put(("L", d, k), g)
        for k, v in list(st0.heap.items()):
            vs = [o.heap.get(k, v) for o in obs]
            if all(x is v for x in vs):
                continue
            g = self.gen(v, vs, st0, obs, ctx, ("h", k))
            if g is not v:
                G.put(k, g)
        # ghosts / heap cells created lazily inside the loop (symbolic cells written first there)
        for o in obs:
            for k in o.heap:
                if k not in st0.heap and k[0] in ("H", "G"):
                    if k[0] == "H":
                        v = self.mk_sym(k[2], k[1])
                    else:
                        v = self.ghost_default(k[1])
                    vs = [p.heap.get(k, v) for p in obs]
                    G.put(k, self.gen(v, vs, st0, obs, ctx, ("h", k)))
        return G

    def ghost_default(self, name):
        if name in ("count",):
            return IntV(0)
        return VecV((), None)

    # one leaf
    def gen(self, v0, vs, st0, obs, ctx, path):
        if all(x == v0 for x in vs):
            lev = ctx.level.get(path, 0)
            if lev == 0:
                return v0
        lev = ctx.level.get(path, 0)
        n0 = I.norm_val(st0.store, v0)
        nv = [I.norm_val(o.store, x) for x, o in zip(vs, obs)]
        if lev == 0 and all(I.norm_val(o.store, v0) == x for x, o in zip(nv, obs)):
            return v0
        mk = (n0, tuple(nv)) if lev == 0 else ("own", path)
        if lev < 2 and mk in ctx.memo:
            return ctx.memo[mk]
        r = self.gen1(n0, nv, st0, obs, ctx, path, lev)
        if lev < 2:
            ctx.memo[mk] = r
        return r

    def gen_lin(self, l0, ls, obs, ctx, path, lev):
        if lev == 0:
            ds = [o.store.norm(x - l0) for x, o in zip(ls, obs)]
            if ds and all(d.isc() for d in ds) and len({d.c for d in ds}) == 1:
                d = ds[0].c
                return l0 + Lin(0, ((ctx.n, d),)) if d else l0
        a = ctx.atom(path, BIG)
        ctx.fresh[a] = (l0, ls)
        return L(a)

    def gen1(self, v0, vs, st0, obs, ctx, path, lev):
        if lev >= 3:
            return OpaqueV(("lp", ctx.lid, path), unk=True)
        if isinstance(v0, IntV) and all(isinstance(x, IntV) for x in vs):
            return IntV(self.gen_lin(v0.l, [x.l for x in vs], obs, ctx, path, lev))
        if isinstance(v0, BoolV) and all(isinstance(x, BoolV) for x in vs):
            return BoolV(("eq", L(ctx.atom(path, BOOL, "b")) - 1))
        if isinstance(v0, SliceV) and all(isinstance(x, SliceV) and x.base == v0.base for x in vs):
            if lev == 0:
                od = [o.store.norm(x.off - v0.off) for x, o in zip(vs, obs)]
                ld = [o.store.norm(x.len - v0.len) for x, o in zip(vs, obs)]
                if all(d.isc() for d in od + ld) and len({d.c for d in od}) == 1 and len({d.c for d in ld}) == 1:
                    return SliceV(v0.base, v0.off + Lin(0, ((ctx.n, od[0].c),) if od[0].c else ()),
                                  v0.len + Lin(0, ((ctx.n, ld[0].c),) if ld[0].c else ()), v0.ety)
            if lev <= 1:
                if all(o.store.entails_eq(x.off + x.len - v0.off - v0.len) for x, o in zip(vs, obs)):
                    a = ctx.atom(path, BIG, "off")
                    ctx.fresh[a] = (v0.off, [x.off for x in vs])
                    end = v0.off + v0.len
                    ctx.cands_new.append(("ge", end - L(a)))
                    ctx.cands_new.append(("ge", L(a) - v0.off))
                    return SliceV(v0.base, L(a), end - L(a), v0.ety)
            a = ctx.atom(path, BIG, "off2")
            b = ctx.atom(path, ISet.rng(0, LENMAX), "len2")
            ctx.fresh[a] = (v0.off, [x.off for x in vs])
            ctx.fresh[b] = (v0.len, [x.len for x in vs])
            end = v0.off + v0.len
            ctx.cands_new.append(("ge", end - L(a) - L(b)))
            ctx.cands_new.append(("ge", L(a) - v0.off))
            return SliceV(v0.base, L(a), L(b), v0.ety)
        if isinstance(v0, SliceV) and all(isinstance(x, SliceV) for x in vs):
            return SliceV(("S", "unk", "lp", ctx.lid, path), ZERO, L(ctx.atom(path, ISet.rng(0, LENMAX), "ulen")), v0.ety)
        if isinstance(v0, AggV) and all(isinstance(x, AggV) and x.var == v0.var and len(x.f) == len(v0.f) for x in vs):
            return AggV(v0.ty, v0.var, [self.gen(f, [x.f[i] for x in vs], st0, obs, ctx, path + (i,)) for i, f in enumerate(v0.f)])
        if isinstance(v0, (AggV, SymV)) and v0.ty in self.p.types and self.p.types[v0.ty]["k"] == "adt" and self.p.types[v0.ty]["adt"] == "enum":
            return SymV(("lp", ctx.lid, path), v0.ty, self.p.symdom(v0.ty))
        if isinstance(v0, RefV) and all(isinstance(x, RefV) for x in vs):
            if isinstance(v0.cell, SliceV) and all(isinstance(x.cell, SliceV) for x in vs) and all(len(x.path) == len(v0.path) for x in vs):
                c = self.gen(v0.cell, [x.cell for x in vs], st0, obs, ctx, path + ("cell",))
                p = self.gen_path(v0.path, [x.path for x in vs], obs, ctx, path, lev)
                if p is not None:
                    return RefV(c, p)
            if all(x.cell == v0.cell and len(x.path) == len(v0.path) for x in vs):
                p = self.gen_path(v0.path, [x.path for x in vs], obs, ctx, path, lev)
                if p is not None:
                    return RefV(v0.cell, p)
            return OpaqueV(("lp", ctx.lid, path), unk=True)
        if isinstance(v0, VecV) and all(isinstance(x, VecV) for x in vs):
            return self.gen_vec(v0, vs, st0, obs, ctx, path, lev)
        return OpaqueV(("lp", ctx.lid, path), unk=True)

    def gen_path(self, p0, ps, obs, ctx, path, lev):
        out = []
        for i, e in enumerate(p0):
            if e[0] == "e" and all(p[i][0] == "e" for p in ps):
                l0 = e[1] if isinstance(e[1], Lin) else K(e[1])
                if all(p[i][1] == e[1] for p in ps):
                    out.append(e)
                else:
                    out.append(("e", self.gen_lin(l0, [p[i][1] for p in ps], obs, ctx, path + ("e", i), lev)))
            elif all(p[i] == e for p in ps):
                out.append(e)
            else:
                return None
        return tuple(out)

    def gen_vec(self, v0, vs, st0, obs, ctx, path, lev):
        if len(v0.segs) == 1 and v0.segs[0][0] == "sub" and all(len(x.segs) <= 1 and all(s[0] == "sub" for s in x.segs) for x in vs):
            sl = [x.segs[0][1] if x.segs else SliceV(v0.segs[0][1].base, v0.segs[0][1].off + v0.segs[0][1].len, ZERO, v0.segs[0][1].ety) for x in vs]
            g = self.gen(v0.segs[0][1], sl, st0, obs, ctx, path + ("sub",))
            return VecV((("sub", g),), v0.ety)
        m = len(v0.segs)
        pre = all(x.segs[:m] == v0.segs for x in vs)
        base = v0.segs if pre else ()
        ctx.uniq.setdefault(path, None)
        key = ("lp", ctx.lid, path)
        if lev == 0 and pre and path in ctx.tmpl:
            t, h = ctx.tmpl[path]
            if isinstance(t, OpaqueV) and t.key and t.key[0] == "encof":
                a = ctx.atom(path, ISet.rng(0, LENMAX), "glen")
                ctx.fresh[a] = (ZERO, [sum_len(x.segs[m:]) for x in vs])
                return VecV(base + (("genc", t, h, L(ctx.n), L(a)),), v0.ety)
            return VecV(base + (("gen", t, h, L(ctx.n)),), v0.ety)
        if pre and lev <= 1:
            ds = []
            for x, o in zip(vs, obs):
                n = ZERO
                for s in x.segs[m:]:
                    n = n + seg_len(s)
                ds.append(o.store.norm(n))
            if all(d.isc() for d in ds) and len({d.c for d in ds}) == 1:
                return VecV(base + (("opq", key, Lin(0, ((ctx.n, ds[0].c),) if ds[0].c else ())),), v0.ety)
        a = ctx.atom(path, ISet.rng(0, LENMAX), "vlen")
        ctx.fresh[a] = (v0.length(), [x.length() for x in vs])
        return VecV((("opq", key + (pre,), L(a)),), v0.ety) if not pre else VecV(base + (("opq", key, L(a)),), v0.ety)

    # ------------------------------------------------------------------ candidates
    def candidates(self, st0, obs, ctx):
        out = list(ctx.cands_new)
        for a, (l0, ls) in ctx.fresh.items():
            x = L(a)
            if all(o.store.entails_ge(l - l0) for l, o in zip(ls, obs)):
                out.append(("ge", x - l0))
            if all(o.store.entails_ge(l0 - l) for l, o in zip(ls, obs)):
                out.append(("ge", l0 - x))
            lo, hi = st0.store.bounds(st0.store.norm(l0))
            for l, o in zip(ls, obs):
                p, q = o.store.bounds(o.store.norm(l))
                lo, hi = min(lo, p), max(hi, q)
            for b in {lo, 0}:
                out.append(("ge", x - b))
            for b in {hi, 255, (1 << 32) - 1, LENMAX, (1 << 64) - 1}:
                out.append(("ge", K(b) - x))
        out += ctx.__dict__.get("extra", [])
        ref = ctx_refuted(ctx)
        seen = set()
        res = []
        for c in out:
            if c in seen or c in ref:
                continue
            seen.add(c)
            # must hold initially
            c0 = self.subst_cand(c, ctx, lambda a: ctx.fresh[a][0] if a in ctx.fresh else (ZERO if a is ctx.n else None))
            if self.cand_holds(st0.store, c0):
                res.append(c)
            else:
                ref.add(c)
        return res

    def subst_cand(self, c, ctx, f):
        if c[0] == "ge":
            return ("ge", I.map_lin(c[1], f))
        return ("allin", I.map_any(c[1], f), I.map_lin(c[2], f), I.map_lin(c[3], f), c[4])

    def cand_holds(self, store, c):
        if c[0] == "ge":
            return store.entails_ge(c[1])
        _, base, lo, hi, v = c
        lo, hi = store.norm(lo), store.norm(hi)
        if store.entails_ge(lo - hi):
            return True
        # extends an existing fact by at most a few known bytes
        for (b, l2, h2, v2) in store.allin:
            if b == base and v2.subset(v) and store.entails_ge(lo - l2):
                d = store.norm(hi - h2)
                if d.isc() and d.c <= 4:
                    if all(store.dom_of(L(atom(("byte", base, store.norm(h2 + j)), BYTE))).subset(v) for j in range(max(0, d.c))):
                        return True
        d = store.norm(hi - lo)
        if d.isc() and d.c <= 8:
            return all(store.dom_of(L(atom(("byte", base, store.norm(lo + j)), BYTE))).subset(v) for j in range(d.c))
        return False

    # ------------------------------------------------------------------ inductive check
    def check_back(self, G, B, ctx, cands):
        """compare the back-edge state with the generalised one; returns True if anything was demoted"""
        sigma = {}
        pairs = []
        changed = False

        def walk(g, b, path):
            """collect bindings; returns False on structural mismatch (path demoted)"""
            nonlocal changed
            if isinstance(g, OpaqueV):
                if g == b or (len(g.key) > 2 and g.key[0] == "lp" and g.key[1] == ctx.lid):
                    return
                demote(path)
                return
            if isinstance(g, IntV):
                if isinstance(b, IntV):
                    bind(g.l, b.l, path)
                    return
            elif isinstance(g, BoolV):
                if isinstance(b, BoolV):
                    if g.c[0] == "eq" and len(g.c[1].t) == 1 and g.c[1].t[0][0].key[:2] == ("lp", ctx.lid):
                        return
                    if B.store.decide(g.c) is not None and B.store.decide(g.c) == B.store.decide(b.c):
                        return
                    if I.norm_val(B.store, g) == I.norm_val(B.store, b):
                        return
                    return demote(path)
            elif isinstance(g, SliceV):
                if isinstance(b, SliceV):
                    if g.base[:4] == ("S", "unk", "lp", ctx.lid):
                        return
                    if norm_base(B.store, g.base) == norm_base(B.store, b.base):
                        bind(g.off, b.off, path)
                        bind(g.len, b.len, path)
                        return
            elif isinstance(g, AggV):
                if isinstance(b, AggV) and b.var == g.var and len(b.f) == len(g.f):
                    for i, (x, y) in enumerate(zip(g.f, b.f)):
                        if x is not y:
                            walk(x, y, path + (i,))
                    return
            elif isinstance(g, SymV):
                if g.key[:2] == ("lp", ctx.lid):
                    return
                if g == b:
                    return
            elif isinstance(g, RefV):
                if isinstance(b, RefV) and len(b.path) == len(g.path):
                    if isinstance(g.cell, SliceV) and isinstance(b.cell, SliceV):
                        walk(g.cell, b.cell, path + ("cell",))
                    elif g.cell != b.cell:
                        return demote(path)
                    for i, (x, y) in enumerate(zip(g.path, b.path)):
                        if x[0] == "e" and y[0] == "e":
                            bind(x[1] if isinstance(x[1], Lin) else K(x[1]), y[1] if isinstance(y[1], Lin) else K(y[1]), path + ("e", i))
                        elif x != y:
                            return demote(path)
                    return
            elif isinstance(g, VecV):
                if isinstance(b, VecV):
                    return walk_vec(g, b, path)
            elif g == b:
                return
            demote(path)

        def demote(path):
            nonlocal changed
            ctx.level[path] = ctx.level.get(path, 0) + 1
            # a nested path whose parent is an aggregate that changed shape: demote the parent as well
            if ctx.level[path] > 3 and len(path) > 3:
                ctx.level[path[:-1]] = 3
            changed = True

        def bind(gl, bl, path):
            if len(gl.t) == 1 and gl.t[0][1] == 1 and gl.c == 0 and gl.t[0][0] in ctx.fresh:
                a = gl.t[0][0]
                if a in sigma:
                    pairs.append((gl, bl, path))
                else:
                    sigma[a] = bl
            else:
                pairs.append((gl, bl, path))

        def walk_vec(g, b, path):
            if g.segs and g.segs[-1][0] in ("opq", "gen", "genc") and (g.segs[-1][0] in ("gen", "genc") or g.segs[-1][1][:2] == ("lp", ctx.lid)):
                m = len(g.segs)
                last = g.segs[-1]
                if last[0] == "opq":
                    bind(last[2], ZERO if False else b.length() - sum_len(g.segs[:-1]), path)
                    if b.segs[:m] == g.segs or (len(last[1]) > 3 and last[1][3] is False):
                        return
                    # extending is fine; anything else replaces the content
                    return demote(path)
                # gen template
                if b.segs[:m] == g.segs:
                    rest = b.segs[m:]
                    if last[0] == "genc":
                        e = self.enc_of(rest[0], B.store) if len(rest) == 1 else None
                        want = I.map_val(last[1], lambda a: L(ctx.n) if a is last[2] else None)
                        if e is not None and I.norm_val(B.store, want) == e:
                            bind(last[4], b.length() - sum_len(g.segs[:-1]), path)
                            return
                    elif len(rest) == 1 and rest[0][0] == "el":
                        want = I.map_val(last[1], lambda a: L(ctx.n) if a is last[2] else None)
                        if I.norm_val(B.store, want) == I.norm_val(B.store, rest[0][1]):
                            return
                ctx.tmpl.pop(path, None)
                ctx.__dict__.setdefault("notmpl", set()).add(path)
                nonlocal_changed()
                return
            if len(g.segs) == 1 and g.segs[0][0] == "sub" and len(b.segs) <= 1:
                s = g.segs[0][1]
                t = b.segs[0][1] if b.segs and b.segs[0][0] == "sub" else None
                if not b.segs:
                    t = SliceV(s.base, s.off + s.len, ZERO, s.ety)
                if t is not None:
                    return walk(s, t, path + ("sub",))
            if I.norm_val(B.store, g) == I.norm_val(B.store, b):
                return
            demote(path)

        def nonlocal_changed():
            nonlocal changed
            changed = True

        for d, fr in enumerate(G.fr):
            for k, g in fr.items():
                b = B.fr[d].get(k, UNINIT)
                if b is not g:
                    walk(g, b, ("f", d, k))
        for k, g in G.heap.items():
            b = B.heap.get(k, g)
            if b is not g:
                walk(g, b, ("h", k))
        for k, b in B.heap.items():
            if k not in G.heap and k[0] in ("H", "G"):
                v = self.mk_sym(k[2], k[1]) if k[0] == "H" else self.ghost_default(k[1])
                if v != b:
                    demote(("h", k))
        if changed:
            return True

        def f(a):
            if a is ctx.n:
                return L(ctx.n) + 1
            return sigma.get(a)
        for a in ctx.fresh:
            sigma.setdefault(a, L(a))
        for gl, bl, path in pairs:
            if not B.store.entails_eq(I.map_lin(gl, f) - bl):
                demote(path)
        if changed:
            return True
        # type-range facts must be preserved by the new values too
        ref = ctx_refuted(ctx)
        for c in cands:
            if not self.cand_holds(B.store, self.subst_cand(c, ctx, f)):
                ref.add(c)
                changed = True
        return changed

    def learn(self, G, res, ctx):
        """propose more candidates from the back-edge states: shifted guards, byte-range facts, templates"""
        ext = ctx.__dict__.setdefault("extra", [])
        new = False
        for o in res:
            if o[0] != "back":
                continue
            B = o[1]
            for l in B.store.ineqs:
                if l in G.store.ineqs:
                    continue
                if any(a is ctx.n for a, _ in l.t):
                    c = ("ge", I.map_lin(l, lambda a: L(ctx.n) - 1 if a is ctx.n else None))
                    if c not in ext and c not in ctx_refuted(ctx):
                        ext.append(c)
                        new = True
            d = B.store.vs.get(ctx.n)
            if d is not None and d != G.store.vs.get(ctx.n, ctx.n.dom):
                c = ("ge", K(d.hi + 1) - L(ctx.n))
                if c not in ext and c not in ctx_refuted(ctx):
                    ext.append(c)
                    new = True
            for a, v in list(B.store.vs.items()) + [(a, ISet.rng(r.c, r.c)) for a, r in B.store.subst.items() if r.isc()]:
                if a.key[0] != "byte" or v == BYTE:
                    continue
                idx = a.key[2]
                if G.store.dom(a) == v:
                    continue
                for x, k in idx.t:
                    if k == 1 and (x is ctx.n or x in ctx.fresh):
                        i0 = I.map_lin(idx, lambda y: (ZERO if x is ctx.n else ctx.fresh[x][0]) if y is x else None)
                        c = ("allin", a.key[1], i0, idx, v)
                        if c not in ext and c not in ctx_refuted(ctx):
                            ext.append(c)
                            new = True
            # vector templates
            for path in list(ctx.uniq):
                if path in ctx.tmpl or path in ctx.__dict__.get("notmpl", ()):
                    continue
                g = self.at_path(G, path)
                b = self.at_path(B, path)
                if isinstance(g, VecV) and isinstance(b, VecV) and g.segs and g.segs[-1][0] == "opq" and b.segs[:-1] == g.segs and b.segs[-1][0] in ("el", "enc"):
                    e = I.norm_val(B.store, b.segs[-1][1]) if b.segs[-1][0] == "el" else self.enc_of(b.segs[-1], B.store)
                    if e is None:
                        continue
                    bad = [False]

                    def scan(a):
                        if a is not ctx.n and (a.key[:2] == ("lp", ctx.lid) or a in ctx.fresh):
                            bad[0] = True
                        return None
                    I.map_val(e, scan)
                    h = atom(("hole", ctx.lid, path), ISet.rng(0, LENMAX))
                    tm = I.map_val(e, lambda a: L(h) if a is ctx.n else None)
                    if not bad[0] and ("lp", ctx.lid) not in key_pairs(tm):
                        ctx.tmpl[path] = (tm, h)
                        new = True
                    else:
                        ctx.__dict__.setdefault("notmpl", set()).add(path)
        return new

    def enc_of(self, seg, store):
        """what a nested encoding encodes: (function, inside which object, which object)"""
        ent = self.ledger.get(seg[1]) if seg[0] == "enc" else None
        if not ent or not ent["what"] or ent["what"][0] is None:
            return None
        return I.norm_val(store, OpaqueV(("encof", ent["fid"], ent["full"], tuple(ent["inside"]), tuple(ent["what"]))))

    def at_path(self, S, path):
        v = S.fr[path[1]].get(path[2]) if path[0] == "f" else S.heap.get(path[1])
        for p in path[3:] if path[0] == "f" else path[2:]:
            if isinstance(v, AggV) and isinstance(p, int) and p < len(v.f):
                v = v.f[p]
            else:
                return None
        return v

    # ------------------------------------------------------------------ recursion
    def recursive_call(self, fid, f, args, st, ent, caller, site):
        body = f["body"]
        args = self.adapt_args(f, body, args)
        wi = self.writer_arg(st, args)
        if wi is not None:
            self.note_rec(fid, f, args, st, ent, caller)
            return self.write_call(fid, f, args, wi, st)
        vi = self.visitor_arg(body)
        if vi is not None:
            self.note_rec(fid, f, args, st, ent, caller)
            return self.visit_call(f, args, vi, st, ent)
        con = self.contract(fid, f)
        self.note_rec(fid, f, args, st, ent, caller)
        return self.apply_contract(fid, f, con, args, st)

    def note_rec(self, fid, f, args, st, ent, caller):
        if self.mute and not self.proving:
            return
        verdict = None
        why = ""
        for i, (x, y) in enumerate(zip(args, ent[1])):
            for a, e in self.int_pairs(st, x, y):
                if st.store.entails_ge(e.l - a.l - 1) and st.store.entails_ge(a.l):
                    verdict = "budget"
                    why = "argument %d decreases from %r to %r" % (i, e.l, a.l)
        if verdict is None:
            for i, (a, e) in enumerate(zip(args, ent[1])):
                if self.is_child(st, a, e):
                    verdict = "structural"
                    why = "argument %d is a component of the caller's argument" % i
        if verdict is None:
            for i, (a, e) in enumerate(zip(args, ent[1])):
                if isinstance(a, SliceV) and isinstance(e, SliceV) and a.base == e.base and st.store.entails_ge(e.len - a.len - 1):
                    verdict = "slice"
                    why = "only the input slice shrinks (argument %d)" % i
        if verdict is None:
            # a verdict against the call needs arguments that can be compared: the same input, or the same object again
            verdict = "unknown"
            for a, e in zip(args, ent[1]):
                if self.bases(st, a) & self.bases(st, e):
                    verdict = "none"
                ka, ke = self.obj_key(st, a), self.obj_key(st, e)
                if ka is not None and ke is not None and plain(ka) == plain(ke) and not isinstance(a, IntV):
                    verdict = "none"
        self.rec_calls.append(dict(fn=f["path"], krate=f["krate"], caller=caller.f["path"] if caller else "?", verdict=verdict,
                                   why=why, state=st.fork(), args=args, fid=fid, taint=st.taint, chain=[self.p.fns[s[0]]["path"] for s in self.stack]))

    def bases(self, st, v, depth=0):
        """byte buffers an argument refers to"""
        if isinstance(v, SliceV):
            return {v.base}
        if isinstance(v, AggV) and depth < 5:
            return set().union(*[self.bases(st, x, depth + 1) for x in v.f]) if v.f else set()
        if isinstance(v, RefV) and depth < 5:
            try:
                return self.bases(st, self.read(st, v.cell, v.path), depth + 1)
            except (I.Unmodelled, I.Infeasible, Split):
                return set()
        return set()

    def int_pairs(self, st, a, e, depth=0):
        """corresponding integers of two arguments: the arguments themselves, or captured in closures, tuples and plain structs of integers"""
        if isinstance(a, IntV) and isinstance(e, IntV):
            return [(a, e)]
        if depth < 4 and isinstance(a, RefV) and isinstance(e, RefV):
            try:
                return self.int_pairs(st, self.read(st, a.cell, a.path), self.read(st, e.cell, e.path), depth + 1) if a != e else []
            except (I.Unmodelled, I.Infeasible, Split):
                return []
        if depth < 4 and isinstance(a, AggV) and isinstance(e, AggV) and a.var == e.var and len(a.f) == len(e.f):
            t = self.p.types.get(a.ty)
            if a.ty < 0 or t and (t["k"] != "adt" or t["adt"] == "struct" and t.get("krate", "der_parser") == "der_parser" and not t["path"].startswith("der_parser::asn1_rs")):
                return [p for x, y in zip(a.f, e.f) for p in self.int_pairs(st, x, y, depth + 1)]
        return []

    def is_child(self, st, a, e):
        """does reference/box a point strictly inside the object e points to"""
        ka, ke = self.obj_key(st, a), self.obj_key(st, e)
        if ka is None or ke is None:
            return False
        ka, ke = plain(ka), plain(ke)
        return ka != ke and key_contains(ka, ke)

    def obj_key(self, st, v):
        for _ in range(4):
            if isinstance(v, RefV):
                if isinstance(v.cell, SliceV):
                    if v.path and v.path[0][0] == "e" and isinstance(v.path[0][1], Lin):
                        return ("el", v.cell.base, st.store.norm(v.cell.off + v.path[0][1])) + tuple(v.path[1:])
                    return ("el", v.cell.base, st.store.norm(v.cell.off)) + tuple(v.path)
                if v.cell[0] == "H":
                    return v.cell[1] + tuple(x for p in v.path for x in p[:2])
                try:
                    v = self.read(st, v.cell, v.path)
                except (I.Unmodelled, I.Infeasible, Split):
                    return None
            elif isinstance(v, AggV) and len(v.f) >= 1:
                v = v.f[0]
            elif isinstance(v, SymV):
                return v.key
            elif isinstance(v, SliceV):
                return ("el", v.base)
            else:
                return None
        return None

    # modular use of recursive skippers: a function that calls itself and returns only slices / flags is replaced,
    # for indefinite-length headers, by its proved contract (the definite case is not recursive and is inlined)
    def modular(self, fid, f):
        m = self.p.__dict__.setdefault("_modular", {})
        r = m.get(fid)
        if r is None:
            r = False
            if f["krate"] == "der_parser" and f["body"] and self.p.recursive(fid):
                ok = self.ok_type(f["body"]["locals"][0])
                if ok is not None:
                    t = self.p.types[ok]
                    parts = t["elems"] if t["k"] == "tuple" else [ok]
                    r = bool(parts) and all(self.simple_type(x) for x in parts)
            m[fid] = r
        return r

    def ok_type(self, t):
        if not self.p.is_adt(t, "Result"):
            return None
        fs = self.p.types[t]["variants"][0]["fields"]
        return fs[0][1] if fs else None

    def simple_type(self, t):
        ty = self.p.types[t]
        if ty["k"] in ("int", "bool"):
            return True
        if ty["k"] == "ref":
            e = self.p.types[ty["elem"]]
            return e["k"] == "slice" and self.is_u8(e["elem"])
        return False

    def length_leaf(self, st, args):
        """the header-length value (enum Length) among the arguments"""
        def go(v, depth):
            if isinstance(v, (AggV, SymV)) and self.p.is_adt(v.ty, "Length"):
                return v
            if isinstance(v, RefV) and depth < 4:
                try:
                    return go(self.read(st, v.cell, v.path), depth + 1)
                except (I.Unmodelled, I.Infeasible):
                    return None
            if isinstance(v, AggV) and (self.is_tuple(v) or self.p.types.get(v.ty, {}).get("k") == "adt") and depth < 4:
                for x in v.f:
                    r = go(x, depth + 1)
                    if r is not None:
                        return r
            return None
        for a in args:
            r = go(a, 0)
            if r is not None:
                return r
        return None

    def modular_call(self, fid, f, args, st):
        leaf = self.length_leaf(st, args)
        if leaf is None:
            return None
        ind = self.p.variant(leaf.ty, "Indefinite")
        v = self.variant_of(st, leaf)
        if v is None:
            n = st.store.norm(L(leaf.datom()))
            raise Split([("eq", n - k) for k in leaf.dom])
        if v != ind:
            return None
        con = self.contract(fid, f, ind=True)
        args = self.adapt_args(f, f["body"], args)
        return self.apply_contract(fid, f, con, args, st)

    def contract(self, fid, f, ind=False):
        c = self.contracts.get((fid, ind))
        if c is not None:
            return c
        c = dict(suffix=True, facts=[], min=0, proved=False, alarms=[], fname=f["path"], fid=fid, errs={}, dep=set())
        self.contracts[(fid, ind)] = c
        body = f["body"]
        formals = [self.formal(body["locals"][1 + i], (("F", fid), i)) for i in range(body["argc"])]
        c["formals"] = formals
        sv = (self.stack, self.alarms, self.proving, self.mute, self.obls, self.rec_calls, self.no_modular)
        for attempt in range(9):
            self.stack, self.alarms, self.proving = [], [], self.proving + 1
            self.mute = 0
            self.no_modular = fid
            st = I.State()
            if ind:
                leaf = self.length_leaf(st, formals)
                st.store.assume_eq(L(leaf.datom()) - self.p.variant(leaf.ty, "Indefinite"))
            try:
                res = c["res"] = self.exec_fn(fid, formals, st, None)
            finally:
                al = self.alarms
                (self.stack, self.alarms, self.proving, self.mute, self.obls, _, self.no_modular) = sv
            bad = False
            facts = None
            mins = []
            for s, v in res:
                ok, fs = self.post_check(s, v, formals, mins)
                if not ok:
                    bad = True
                if fs is not None:
                    facts = fs if facts is None else [x for x in facts if x in fs]
            if bad and c["suffix"]:
                c["suffix"] = False
                continue
            facts = facts or []
            if facts != c["facts"]:
                c["facts"] = facts
                continue
            # error kinds: least fixpoint, starting from "a nested call reports no error"
            if c["errs"] is not None:
                errs = {}
                for s, v in res:
                    self.err_kinds(s, v, errs)
                new = {k: c["errs"].get(k, frozenset()) | x for k, x in errs.items()}
                if self.dep_open(c):
                    new = None
                if new != c["errs"]:
                    c["errs"] = new if attempt < 6 else None
                    continue
            c["min"] = min(mins) if mins and c["suffix"] else 0
            self.ok_domains(c, res, formals, ind)
            break
        c["alarms"] = al
        c["proved"] = True
        self.contract_alarms += [(fid, a) for a in al]
        return c

    def ok_domains(self, c, res, formals, ind):
        """per leaf of the formal arguments, the values for which the function can succeed (when not all)"""
        st = I.State()
        base = dict(self.leaves(st, formals))
        acc = {}
        for s, v in res:
            if isinstance(v, AggV) and self.p.is_adt(v.ty, "Result") and v.var == 1:
                continue
            lv = dict(self.leaves(s, formals))
            for k, l in base.items():
                d = s.store.dom_of(lv.get(k, l))
                acc[k] = acc[k].join(d) if k in acc else d
        c["okdom"] = {k: d for k, d in acc.items() if k in base and d != st.store.dom_of(base[k]) and d.count() > 0}

    def dep_open(self, c):
        """does the computation of c use a contract that is itself still being computed (other than c)"""
        return any(o is not c and not o["proved"] for o in self.contracts.values() if id(o) in c["dep"])

    def err_kinds(self, s, v, errs):
        """record the possible error variants of a Result value"""
        def go(v, path):
            if len(path) > 3:
                return
            if isinstance(v, SymV) and v.dom is not None:
                d = s.store.dom_of(L(v.datom()))
                if d.count() > 64:
                    return
                for k in d:
                    errs[path] = errs.get(path, frozenset()) | {k}
                    for i, x in enumerate(self.sym_variant(v, k).f):
                        go(x, path + ((k, i),))
            elif isinstance(v, AggV) and v.ty >= 0 and self.p.types[v.ty]["k"] == "adt" and self.p.types[v.ty]["adt"] == "enum":
                errs[path] = errs.get(path, frozenset()) | {v.var}
                for i, x in enumerate(v.f):
                    go(x, path + ((v.var, i),))
        if isinstance(v, AggV) and self.p.is_adt(v.ty, "Result"):
            if v.var == 1:
                go(v.f[0], ())
        elif isinstance(v, SymV) and self.p.is_adt(v.ty, "Result"):
            if s.store.dom_of(L(v.datom())).has(1):
                go(self.sym_variant(v, 1).f[0], ())

    def limit_errs(self, s, v, errs):
        """assume the error kinds of a contract for the Err value v; False if none is possible"""
        def go(v, path):
            if len(path) > 3 or not isinstance(v, SymV) or v.dom is None or v.dom.count() > 64:
                return True
            al = errs.get(path)
            if not al:
                return path != ()
            if not s.store.assume(("in", L(v.datom()), ISet.vals(sorted(al)))):
                return False
            for k in al:
                if v.dom.has(k):
                    for i, x in enumerate(self.sym_variant(v, k).f):
                        go(x, path + ((k, i),))
            return True
        return go(v.f[0], ())

    def formal(self, t, key):
        ty = self.p.types[t]
        if ty["k"] in ("ref", "ptr"):
            e = self.p.types[ty["elem"]]
            if e["k"] in ("slice", "str"):
                ety = e["elem"] if e["k"] == "slice" else "u8"
                return SliceV(("S",) + key, L(atom(("foff",) + key, ISet.rng(0, LENMAX))), L(atom(("len",) + key, ISet.rng(0, LENMAX))), ety)
        v = self.mk_sym(t, key)
        return self.formal_slices(v)

    def formal_slices(self, v):
        if isinstance(v, AggV):
            return AggV(v.ty, v.var, [self.formal_slices(x) for x in v.f])
        if isinstance(v, SliceV) and v.off == ZERO:
            return SliceV(v.base, L(atom(("foff",) + v.base[1:], ISet.rng(0, LENMAX))), v.len, v.ety)
        return v

    def first_slice(self, args):
        for a in args:
            if isinstance(a, SliceV) and self.is_u8(a.ety):
                return a
        return None

    def is_u8(self, ety):
        if ety == "u8":
            return True
        t = self.p.types.get(ety)
        return bool(t and t["k"] == "int" and t["bits"] == 8)

    def is_tuple(self, v):
        return v.ty == -1 or self.p.types.get(v.ty, {}).get("k") == "tuple"

    def ok_payload(self, v):
        """payload of Ok(..) if v is a Result::Ok"""
        if isinstance(v, AggV) and self.p.is_adt(v.ty, "Result") and v.var == 0:
            return v.f[0]
        return None

    def post_check(self, s, v, formals, mins=None):
        """(suffix property holds, facts implied when the boolean component is true)"""
        p = self.ok_payload(v)
        if p is None:
            if isinstance(v, SymV):
                return False, None
            return True, None
        sl = self.first_slice(formals)
        rem = None
        flag = None
        if isinstance(p, SliceV):
            rem = p
        elif isinstance(p, AggV) and self.is_tuple(p) and len(p.f) == 2:
            if isinstance(p.f[0], SliceV):
                rem = p.f[0]
            if isinstance(p.f[1], BoolV):
                flag = p.f[1]
        ok = True
        if rem is not None and sl is not None and self.is_u8(rem.ety):
            ok = rem.base == sl.base and s.store.entails_eq(rem.off + rem.len - sl.off - sl.len) and s.store.entails_ge(rem.off - sl.off) and s.store.entails_ge(rem.len)
        if mins is not None:
            m = 0
            if ok and rem is not None and sl is not None and rem.base == sl.base:
                for k in (8, 4, 2, 1):
                    if s.store.entails_ge(rem.off - sl.off - k):
                        m = k
                        break
            mins.append(m)
        facts = None
        if flag is not None:
            d = s.store.decide(flag.c)
            if d is not False:
                facts = []
                if d is None:
                    s = s.fork()
                    if not s.store.assume(flag.c):
                        return ok, None
                if rem is not None and sl is not None and rem.base == sl.base and s.store.entails_eq(rem.off - sl.off):
                    facts.append(("same",))
                for path, leaf in self.leaves(s, formals):
                    n = s.store.norm(leaf)
                    if n.isc():
                        facts.append(("leaf", path, n.c))
        return ok, facts

    def leaves(self, st, args):
        out = []

        def go(v, path, depth=0):
            if isinstance(v, IntV):
                out.append((path, v.l))
            elif isinstance(v, AggV):
                t = self.p.types.get(v.ty)
                if t and t["k"] == "adt" and t["adt"] == "enum":
                    out.append((path + ("d",), K(v.var)))
                for i, x in enumerate(v.f):
                    go(x, path + ((v.var, i),), depth)
            elif isinstance(v, SymV):
                out.append((path + ("d",), L(v.datom())))
                for var in v.dom:
                    if v.dom.count() <= 3:
                        for i, x in enumerate(self.sym_variant(v, var).f):
                            go(x, path + ((var, i),), depth)
            elif isinstance(v, BoolV):
                if v.c[0] == "eq" and len(v.c[1].t) == 1:
                    out.append((path + ("b",), v.c[1] + 1))
                elif v.c[0] in ("true", "false"):
                    out.append((path + ("b",), K(int(v.c[0] == "true"))))
            elif isinstance(v, RefV) and depth < 2:
                try:
                    go(self.read(st, v.cell, v.path), path + ("*",), depth + 1)
                except (I.Unmodelled, I.Infeasible, Split):
                    pass
        for i, a in enumerate(args):
            go(a, (i,))
        return out

    def apply_contract(self, fid, f, con, args, st):
        rty = f["body"]["locals"][0]
        for o in self.contracts.values():
            if not o["proved"] and o is not con:
                o["dep"].add(id(con))
        key = ("rec", f["path"])
        nargs = [I.norm_val(st.store, a) for a in args]
        for a in nargs:
            key += I.flat(a, st, self)
        if key_size(key) > 300:
            key = ("rec", f["path"], "#%d" % self.recids.setdefault(key, len(self.recids)))
        # visitors: recursion on a child is one event
        if self.on_rec(fid, f, args, st):
            return [(st, self.zst(rty))]
        wc = self.rec_write(fid, f, args, st, key, rty)
        if wc is not None:
            return wc
        ty = self.p.types[rty]
        if not self.p.is_adt(rty, "Result"):
            if ty["k"] == "tuple" and not ty["elems"]:
                return [(st, UNIT)]
            return [(st, self.mk_sym(rty, key))]
        out = []
        sym = SymV(key, rty, self.p.symdom(rty))
        sl = self.first_slice(args)
        for var in sym.dom:
            s = st.fork()
            if not s.store.assume_eq(L(sym.datom()) - var):
                continue
            v = self.sym_variant(sym, var)
            if var == 1 and con["errs"] is not None and not self.limit_errs(s, v, con["errs"]):
                continue
            if var == 0 and con.get("okdom"):
                lv0 = dict(self.leaves(s, args))
                if not all(s.store.assume(("in", lv0[k], d)) for k, d in con["okdom"].items() if k in lv0):
                    continue
            if var == 0 and sl is not None and con["suffix"]:
                p = v.f[0]
                k = L(atom(("i",) + key + ("consumed",), ISet.rng(0, LENMAX)))

                def suf(x):
                    return SliceV(sl.base, sl.off + k, sl.len - k, sl.ety)
                done = False
                if isinstance(p, SliceV) and self.is_u8(p.ety):
                    p = suf(p)
                    done = True
                elif isinstance(p, AggV) and self.is_tuple(p) and p.f and isinstance(p.f[0], SliceV) and self.is_u8(p.f[0].ety):
                    p = AggV(p.ty, 0, (suf(p.f[0]),) + p.f[1:])
                    done = True
                if done:
                    s.store.assume_ge(k - con["min"])
                    s.store.assume_ge(sl.len - k)
                    v = AggV(v.ty, 0, [p])
                    if con["facts"] and isinstance(p, AggV) and len(p.f) == 2 and isinstance(p.f[1], BoolV):
                        # split on the flag
                        t = s.fork()
                        if t.store.assume(simp_not(p.f[1].c)):
                            out.append((t, AggV(v.ty, 0, [AggV(p.ty, 0, (p.f[0], FALSE))])))
                        if not s.store.assume(p.f[1].c):
                            continue
                        ok = True
                        lv = dict(self.leaves(s, args))
                        for fc in con["facts"]:
                            if fc[0] == "same":
                                ok = ok and s.store.assume_eq(k)
                            elif fc[1] in lv:
                                ok = ok and s.store.assume_eq(lv[fc[1]] - fc[2])
                            elif fc[1][-1] in ("d", "b") or True:
                                # argument of a different static shape (e.g. other enum variant): contradiction
                                # only when the enclosing variant itself is fixed differently, which the
                                # discriminant fact already reports
                                pass
                        if not ok or s.store.bot:
                            continue
                        v = AggV(v.ty, 0, [AggV(p.ty, 0, (p.f[0], TRUE))])
            if not s.store.bot:
                out.append((s, v))
        self.ledger[key] = dict(fid=fid, path=f["path"], args=nargs, st=st, ent=self.stack_entry(fid))
        return out

    # recursive encoders: a closure that is already active and is applied to a writer again, for another captured
    # object, appends the encoding of that object (induction on the object; the active call is the base of the induction)
    def writer_arg(self, st, args):
        for i, a in enumerate(args):
            v = a
            if isinstance(v, RefV):
                continue
            if isinstance(v, AggV) and v.ty >= 0:
                t = self.p.types.get(v.ty)
                if t and t["k"] == "adt" and t["path"].endswith("WriteContext"):
                    return i
        return None

    def write_call(self, fid, f, args, wi, st):
        wc = args[wi]
        nargs = [I.norm_val(st.store, a) for i, a in enumerate(args) if i != wi]
        key = ("enc", f["path"])
        for a in nargs:
            key += I.flat(a, st, self)
        if key_size(key) > 300:
            key = ("enc", f["path"], "#%d" % self.recids.setdefault(key, len(self.recids)))
        ln = L(atom(("len",) + key, ISet.rng(0, LENMAX)))
        names = [n for n, _ in self.p.types[wc.ty]["variants"][0]["fields"]]
        fs = list(wc.f)
        w = fs[names.index("write")]
        if not isinstance(w, VecV):
            raise I.Unmodelled("writer %r" % (w,))
        fs[names.index("write")] = VecV(w.segs + (("enc", key, ln),), w.ety)
        pos = fs[names.index("position")]
        fs[names.index("position")] = IntV(pos.l + ln)
        ent = self.stack_entry(fid)
        self.ledger[key] = dict(fid=fid, path=f["path"], args=nargs, st=st, ent=ent, full=fid in self.enc_full, what=[self.obj_key(st, a) for i, a in enumerate(args) if i != wi],
                                inside=[self.obj_key(st, a) for i, a in enumerate(ent) if i != wi] if ent else [])
        rty = f["body"]["locals"][0]
        return [(st, AggV(rty, 0, (AggV(wc.ty, 0, fs),)))]

    # recursive traversals: a function that is already active and is applied to the harness' visitor again records the
    # nested traversal as one event, together with the arguments of the activation it is nested in
    def visitor_arg(self, body):
        for i in range(body["argc"]):
            t = self.p.types.get(body["locals"][1 + i])
            if t and t["k"] == "ref":
                t = self.p.types.get(t["elem"])
                if t and t["k"] == "adt" and t["path"] in ("harness::V", "harness::M", "V", "M"):
                    r = self.p.types.get(body["locals"][0])
                    if r and r["k"] == "tuple" and not r["elems"]:
                        return i
        return None

    def visit_call(self, f, args, vi, st, ent):
        ev = st.ghost("ev", VecV((), None))
        a = [x for i, x in enumerate(args) if i != vi]
        b = [x for i, x in enumerate(ent[1]) if i != vi]
        item = AggV(-1, 0, [OpaqueV(("rec", f["path"].rsplit("::", 1)[-1])), AggV(-1, 0, a), AggV(-1, 0, b)])
        st.setghost("ev", VecV(ev.segs + (("el", item),), None))
        return [(st, UNIT)]

    def stack_entry(self, fid):
        for s in self.stack:
            if s[0] == fid:
                return s[1]
        return None


def key_size(k):
    n = 0
    for x in k:
        if isinstance(x, Lin):
            for a, _ in x.t:
                n += atom_size(a)
        elif isinstance(x, tuple):
            n += key_size(x)
        else:
            n += 1
    return n


_asz = {}


def atom_size(a):
    r = _asz.get(a)
    if r is None:
        r = _asz[a] = 1 + key_size(a.key)
    return r


def sum_len(segs):
    n = ZERO
    for s in segs:
        n = n + seg_len(s)
    return n


def ctx_refuted(ctx):
    return ctx.__dict__.setdefault("refuted", set())


def norm_base(store, b):
    def f(a):
        n = store.natom(a)
        return None if n == L(a) else n
    return I.map_any(b, f)


def plain(k):
    """object key without the markers that tell a projected place from a symbolic component"""
    return tuple(plain(x) if isinstance(x, tuple) else x for x in k if not (isinstance(x, str) and x in ("f", "d")))


def key_contains(k, sub):
    """does structured key k contain key sub as a contiguous part, at any depth"""
    if k == sub:
        return True
    if isinstance(k, tuple):
        n = len(sub)
        for i in range(len(k) - n + 1):
            if k[i:i + n] == sub:
                return True
        return any(key_contains(x, sub) for x in k if isinstance(x, tuple))
    return False


def key_pairs(v):
    """all ('lp', id) prefixes occurring in keys of a value"""
    out = set()

    def go(k):
        if isinstance(k, tuple):
            if len(k) >= 2 and k[0] == "lp":
                out.add((k[0], k[1]))
            for x in k:
                go(x)
        elif isinstance(k, Lin):
            for a, _ in k.t:
                go(a.key)
        elif isinstance(k, SymV) or isinstance(k, OpaqueV):
            go(k.key)
        elif isinstance(k, AggV):
            for x in k.f:
                go(x)
        elif isinstance(k, IntV):
            go(k.l)
        elif isinstance(k, BoolV):
            go(k.c)
        elif isinstance(k, SliceV):
            go(k.base)
            go(k.off)
            go(k.len)
        elif isinstance(k, RefV):
            go(k.cell)
            go(k.path)
        elif isinstance(k, VecV):
            go(k.segs)
    go(v)
    return out
