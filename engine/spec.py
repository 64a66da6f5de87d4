"""Specification checking on top of the abstract interpreter's final states.

A rule is a Python function evaluated on one final abstract state. It asks questions about the state (`ck.d(cond)`);
a question the state does not answer raises Split, and the state is partitioned on it (both halves are examined).
A rule raises Mismatch when the state contradicts the specification. A mismatch is reported as a violation only if a
concrete assignment of the state's atoms satisfying every fact of the state is exhibited (find_model) and the state
does not depend on any unmodelled or widened value; otherwise it is counted as undecided."""
import time
from dom import *
from values import *
import interp as I
from interp import Infeasible, Unmodelled, has_unk


class Mismatch(Exception):
    def __init__(self, msg, soft=False):
        self.msg = msg
        self.soft = soft


class Undecided(Exception):
    pass


# ------------------------------------------------------------------ model finder
def store_atoms(s):
    out = set()

    def lin(l):
        for a, _ in l.t:
            add(a)

    def key(k):
        for x in k:
            if isinstance(x, Lin):
                lin(x)
            elif isinstance(x, tuple):
                key(x)

    def add(a):
        if a in out:
            return
        out.add(a)
        key(a.key)

    for a in s.vs:
        add(a)
    for a, r in s.subst.items():
        add(a)
        lin(r)
    for l in s.ineqs:
        lin(l)
    for f in s.facts:
        key(f)
    for (b, lo, hi, v) in s.allin:
        lin(lo)
        lin(hi)
    return out


MODEL_SECS = 20


def find_model(store, extra=(), budget=400):
    """a concrete assignment of all atoms satisfying the store, or None"""
    base = store_atoms(store)
    for l in extra:
        for a in l.atoms():
            base.add(a)
    cnt = [budget]
    end = time.monotonic() + MODEL_SECS

    def pend(s):
        best = None
        bk = None
        for a in base:
            n = s.natom(a)
            if n.isc():
                continue
            for b in n.atoms():
                if b.key[0] == "op" and support(b) != frozenset([b]):
                    continue
                d = s.dom(b)
                if d.empty():
                    return False
                k = (0 if b.key[0] in ("discr", "b") else 1, d.count(), b.id)
                if bk is None or k < bk:
                    best, bk = b, k
        return best

    def cands(s, a):
        d = s.dom(a)
        iv = d.iv
        c = []
        lo, hi = s.bounds(L(a))
        for v in (d.lo, d.hi) if d.count() < 300 else (d.lo, d.lo + 1, d.lo + 2, d.lo + 5, d.lo + 8, d.lo + 16, d.lo + 130, d.hi):
            if d.has(v) and v not in c:
                c.append(v)
        for x, y in iv[:6]:
            for v in (x, y, (x + y) // 2):
                if v not in c:
                    c.append(v)
        if d.count() <= 300:
            for v in d:
                if v not in c:
                    c.append(v)
                if len(c) > 40:
                    break
        return c

    def rec(s, depth):
        if cnt[0] <= 0:
            return None
        cnt[0] -= 1
        if time.monotonic() > end:
            cnt[0] = 0
            return None
        if s.bot or s.infeasible():
            return None
        a = pend(s)
        if a is False:
            return None
        if a is None:
            return verify(s)
        for v in cands(s, a):
            t = s.copy()
            try:
                if not t.assume_eq(L(a) - v):
                    continue
            except Split:
                continue
            r = rec(t, depth + 1)
            if r is not None:
                return r
            if cnt[0] <= 0:
                return None
        return None

    def verify(s):
        env = {}
        for a in sorted(base, key=lambda a: a.id):
            n = s.natom(a)
            if not n.isc():
                return None
            if not (a.key[0] == "op" and support(a) != frozenset([a])):
                env[a] = n.c
        try:
            for a in base:
                v = eval_atom(a, env) if a not in env else env[a]
                if not a.dom.has(v):
                    return None
                if s.natom(a).c != v:
                    return None
            for a, d in store.vs.items():
                if not d.has(eval_atom(a, env) if a not in env else env[a]):
                    return None
            for a, r in store.subst.items():
                if (env[a] if a in env else eval_atom(a, env)) != eval_lin(r, env):
                    return None
            for l in store.ineqs:
                if eval_lin(l, env) < 0:
                    return None
            for f in store.facts:
                if f[0] not in ("ge", "eq", "ne", "in") or not test_cond(f, env):
                    return None
        except (KeyError, AssertionError):
            return None
        # atoms that denote the same input byte must agree
        seen = {}
        for a, v in env.items():
            if a.key[0] == "byte":
                k = (a.key[1], s.norm(a.key[2]))
                if seen.setdefault(k, v) != v:
                    return None
        return env

    return rec(store.copy(), 0)


# ------------------------------------------------------------------ rule context
class Ck:
    def __init__(self, eng, st, val, args):
        self.e = eng
        self.p = eng.p
        self.st = st
        self.s = st.store
        self.val = val
        self.args = args

    # questions
    def d(self, c):
        r = self.s.decide(c)
        if r is None:
            if c[0] in ("and", "or"):
                # ask the parts first
                a = self.d(c[1])
                if c[0] == "and":
                    return a and self.d(c[2])
                return a or self.d(c[2])
            if c[0] == "not":
                return not self.d(c[1])
            raise Split([c, simp_not(c)])
        return r

    def b(self, v):
        if isinstance(v, BoolV):
            return self.d(v.c)
        raise Undecided("bool expected: %r" % (v,))

    def eq(self, x, y):
        return self.d(("eq", lin(x) - lin(y)))

    def ge(self, x, y):
        return self.d(("ge", lin(x) - lin(y)))

    def isin(self, x, s):
        return self.d(("in", lin(x), s))

    # structure
    def deref(self, v):
        n = 0
        while isinstance(v, RefV):
            v = self.e.read(self.st, v.cell, v.path)
            n += 1
            if n > 8:
                break
        return v

    def var(self, v):
        """(variant name, fields) of an enum value"""
        v = self.deref(v)
        if isinstance(v, SymV):
            d = self.e.variant_of(self.st, v)
            if d is None:
                a = L(v.datom())
                dom = self.s.dom_of(a)
                raise Split([("eq", a - x) for x in dom])
            v = self.e.sym_variant(v, d)
        if isinstance(v, AggV) and v.ty >= 0:
            ty = self.p.types[v.ty]
            if ty["k"] == "adt":
                return ty["variants"][v.var]["name"], v.f
        raise Undecided("enum expected: %r" % (v,))

    def f(self, v, name):
        v = self.deref(v)
        if isinstance(v, AggV) and v.ty >= 0:
            ty = self.p.types[v.ty]
            for i, (n, _) in enumerate(ty["variants"][v.var]["fields"]):
                if n == name:
                    return v.f[i]
        raise Undecided("no field %s in %r" % (name, v))

    def tup(self, v):
        v = self.deref(v)
        if isinstance(v, AggV):
            return v.f
        raise Undecided("tuple expected: %r" % (v,))

    def opt(self, v):
        n, f = self.var(v)
        return f[0] if n == "Some" else None

    # ---- equality of values; returns True, or raises Mismatch / Split / Undecided
    def same(self, a, b, what="value"):
        a = self.deref(a)
        b = self.deref(b)
        if a is b or a == b:
            return True
        if isinstance(a, SymV) and isinstance(b, AggV) or isinstance(b, SymV) and isinstance(a, AggV) or \
           (isinstance(a, SymV) and isinstance(b, SymV)):
            # same symbolic origin?
            na, fa = self.var(a)
            nb, fb = self.var(b)
            if na != nb:
                raise Mismatch("%s is %s, expected %s" % (what, na, nb))
            for i, (x, y) in enumerate(zip(fa, fb)):
                self.same(x, y, "%s.%s" % (what, i))
            return True
        if isinstance(a, IntV) and isinstance(b, IntV):
            if self.eq(a, b):
                return True
            raise Mismatch("%s is %r, expected %r" % (what, a, b))
        if isinstance(a, BoolV) and isinstance(b, BoolV):
            if self.b(a) == self.b(b):
                return True
            raise Mismatch("%s is %r, expected %r" % (what, a, b))
        if isinstance(a, AggV) and isinstance(b, AggV):
            if a.ty >= 0 and b.ty >= 0 and a.var != b.var:
                raise Mismatch("%s is %r, expected %r" % (what, self.var(a)[0], self.var(b)[0]))
            if len(a.f) != len(b.f):
                raise Undecided("shape")
            names = [str(i) for i in range(len(a.f))]
            if a.ty >= 0 and self.p.types[a.ty]["k"] == "adt":
                names = [n for n, _ in self.p.types[a.ty]["variants"][a.var]["fields"]]
            for n, x, y in zip(names, a.f, b.f):
                self.same(x, y, what + "." + n)
            return True
        if isinstance(a, SliceV) and isinstance(b, SliceV):
            if not self.eq(a.len, b.len):
                raise Mismatch("%s has length %r, expected %r" % (what, a.len, b.len))
            if self.eq(a.len, 0):
                return True
            if a.base == b.base:
                if not self.eq(a.off, b.off):
                    raise Mismatch("%s starts at %r, expected %r" % (what, a.off, b.off))
                return True
            raise Undecided("%s: slices of different bases %r %r" % (what, a, b))
        if isinstance(a, SliceV) and isinstance(b, VecV):
            a = VecV((("sub", a),), b.ety)
        if isinstance(b, SliceV) and isinstance(a, VecV):
            b = VecV((("sub", b),), a.ety)
        if isinstance(a, VecV) and isinstance(b, VecV):
            x, y = norm_segs(self.s, a.segs), norm_segs(self.s, b.segs)
            if x == y:
                return True
            if len(x) == len(y):
                for s1, s2 in zip(x, y):
                    if s1[0] != s2[0]:
                        raise Undecided("vec segs")
                    if s1[0] == "el":
                        self.same(s1[1], s2[1], what + "[]")
                    elif s1[0] == "sub":
                        self.same(s1[1], s2[1], what + "[..]")
                    elif s1 != s2:
                        raise Undecided("vec segs")
                return True
            raise Undecided("%s: %r vs %r" % (what, a, b))
        if isinstance(a, (OpaqueV, SymV)) and isinstance(b, (OpaqueV, SymV)) and a.key == b.key:
            return True
        raise Undecided("%s: cannot compare %r with %r" % (what, a, b))

    def fail(self, msg):
        raise Mismatch(msg)


def norm_segs(s, segs):
    out = []
    for g in segs:
        if g[0] == "sub":
            v = g[1]
            n = s.norm(v.len)
            if n.isc() and n.c == 0:
                continue
            out.append(("sub", SliceV(v.base, s.norm(v.off), n, v.ety)))
        else:
            out.append(g)
    return tuple(out)


def lin(x):
    if isinstance(x, IntV):
        return x.l
    if isinstance(x, Lin):
        return x
    return K(x)


# ------------------------------------------------------------------ driver
class Result:
    def __init__(self):
        self.states = 0          # final states examined
        self.cases = 0           # leaf cases decided
        self.viol = []
        self.undec = []
        self.widened = 0
        self.suspects = []       # models of contradictions found only in widened states

    def absorb(self, o):
        self.states += o.states
        self.cases += o.cases
        self.viol += o.viol
        self.undec += o.undec
        self.widened += o.widened


MAXCASES = 6000
MAXDEPTH = 80


def assume_all(st, c, depth=0):
    """the sub-states of st in which c holds"""
    u = st.fork()
    try:
        if has_unk(c) and u.store.decide(c) is None:
            u.taint = u.taint or "unmodelled value"
        if u.store.assume(c) and not u.store.infeasible():
            return [u]
        return []
    except Split as y:
        if depth > 6:
            raise Undecided("nested split")
        out = []
        for c2 in y.conds:
            for v in assume_all(st, c2, depth + 1):
                out += assume_all(v, c, depth + 1)
        return out


def check(eng, outs, args, rule, name, aspects=None, res=None, cls=None, opts=None):
    """evaluate rule on every final state; aspects: the findings that count (None: all)"""
    res = res or Result()
    for st, val in outs:
        res.states += 1
        if st.taint:
            res.widened += 1
        if eng.deadline and time.monotonic() > eng.deadline + 120:
            res.undec.append((name, "*", "time budget"))
            break
        check_one(eng, st, val, args, rule, name, aspects, res, cls, opts)
        if len(res.viol) > 8:
            break
    return res


def check_one(eng, st, val, args, rule, name, aspects, res, cls, opts):
    work = [(st, 0)]
    n = 0
    while work:
        s, depth = work.pop()
        n += 1
        if n > (MAXCASES if not st.taint else min(MAXCASES, 300)):
            res.undec.append((name, "*", "case budget"))
            return
        t = s.fork()
        ck = cls(eng, t, val, args, opts)
        try:
            rule(ck)
            res.cases += 1
        except Split as x:
            if depth > MAXDEPTH:
                res.undec.append((name, "*", "split depth: %r" % (x.conds[:2],)))
                continue
            for c in x.conds:
                try:
                    for u in assume_all(s, c):
                        work.append((u, depth + 1))
                except (Undecided, RecursionError) as y:
                    res.undec.append((name, "*", "undecided: %s" % y))
            continue
        except Infeasible:
            res.cases += 1
            continue
        except RecursionError:
            res.undec.append((name, "*", "undecided: cyclic facts"))
            continue
        except (Undecided, Unmodelled) as x:
            if not t.store.infeasible():
                ck.und.append(("*", str(x)))
        except Mismatch as m:
            ck.found.append(("*", m.msg))
        if not (ck.found or ck.und):
            continue
        if t.store.infeasible():
            continue
        for a, m in ck.und:
            if aspects is None or a == "*" or a in aspects:
                res.undec.append((name, a, "undecided: %s" % m[:300]))
        mod = False
        for a, m in ck.found:
            if not (aspects is None or a == "*" or a in aspects):
                continue
            if t.taint:
                res.undec.append((name, a, "widened: %s [%s]" % (m[:300], str(t.taint)[:80])))
                if len(res.suspects) < 4:
                    sm = find_model(t.store, budget=150)
                    if sm is not None:
                        res.suspects.append(sm)
                continue
            if mod is False:
                mod = find_model(t.store)
            if mod is None:
                res.undec.append((name, a, "no model: %s" % m[:300]))
                continue
            res.viol.append(dict(rule=name, aspect=a, msg=m, facts=t.store.describe(60), value=repr(val)[:2000],
                                 model={repr(k): v for k, v in sorted(mod.items(), key=lambda x: x[0].id)}))
            if len(res.viol) > 8:
                return
