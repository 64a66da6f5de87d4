"""Abstract domains: linear expressions over atoms, interval sets, and the constraint store.

A Store is a conjunction of facts about immutable *atoms* (input bytes, lengths, header fields, ...):
  * subst   solved equalities   atom := Lin
  * vs      value set (union of intervals) per atom
  * ineqs   linear inequalities  Lin >= 0
  * allin   range facts          forall j in [lo,hi): byte(base,j) in VS
  * facts   opaque conditions assumed true (syntactic)
Entailment is decided by interval evaluation, exact enumeration of small finite domains, and
Fourier-Motzkin elimination with integer tightening (the polyhedra domain's emptiness test).
No SMT/SAT solver is involved.
"""
from math import gcd

INF = None
U64 = 2**64 - 1
LENMAX = 2**47       # no allocation exceeds the 47-bit user address space


# ------------------------------------------------------------------ interval sets
class ISet:
    __slots__ = ("iv",)

    def __init__(self, iv):
        self.iv = tuple(iv)

    @staticmethod
    def rng(lo, hi):
        return ISet(((lo, hi),)) if lo <= hi else EMPTY

    @staticmethod
    def vals(vs):
        vs = sorted(set(vs))
        out = []
        for v in vs:
            if out and out[-1][1] == v - 1:
                out[-1] = (out[-1][0], v)
            else:
                out.append((v, v))
        return ISet(out)

    def __eq__(self, o):
        return isinstance(o, ISet) and self.iv == o.iv

    def __hash__(self):
        return hash(self.iv)

    def empty(self):
        return not self.iv

    @property
    def lo(self):
        return self.iv[0][0]

    @property
    def hi(self):
        return self.iv[-1][1]

    def count(self):
        return sum(b - a + 1 for a, b in self.iv)

    def __iter__(self):
        for a, b in self.iv:
            yield from range(a, b + 1)

    def has(self, v):
        return any(a <= v <= b for a, b in self.iv)

    def meet(self, o):
        out = []
        i = j = 0
        A, B = self.iv, o.iv
        while i < len(A) and j < len(B):
            lo = max(A[i][0], B[j][0])
            hi = min(A[i][1], B[j][1])
            if lo <= hi:
                out.append((lo, hi))
            if A[i][1] < B[j][1]:
                i += 1
            else:
                j += 1
        return ISet(out)

    def join(self, o):
        xs = sorted(self.iv + o.iv)
        out = []
        for a, b in xs:
            if out and a <= out[-1][1] + 1:
                out[-1] = (out[-1][0], max(out[-1][1], b))
            else:
                out.append((a, b))
        return ISet(out)

    def minus_val(self, v):
        out = []
        for a, b in self.iv:
            if a <= v <= b:
                if a < v:
                    out.append((a, v - 1))
                if v < b:
                    out.append((v + 1, b))
            else:
                out.append((a, b))
        return ISet(out)

    def sub(self, o):
        """set difference"""
        out = list(self.iv)
        for (c, d) in o.iv:
            nxt = []
            for a, b in out:
                if d < a or c > b:
                    nxt.append((a, b))
                else:
                    if a < c:
                        nxt.append((a, c - 1))
                    if d < b:
                        nxt.append((d + 1, b))
            out = nxt
        return ISet(out)

    def subset(self, o):
        return self.sub(o).empty()

    def __repr__(self):
        return "{" + ",".join(("%d" % a if a == b else "%d..%d" % (a, b)) for a, b in self.iv) + "}"


EMPTY = ISet(())
BYTE = ISet.rng(0, 255)
BOOL = ISet.rng(0, 1)


# ------------------------------------------------------------------ atoms
class Atom:
    __slots__ = ("key", "dom", "id", "_supp", "_hasl", "struct")
    _tab = {}
    _n = 0

    def __repr__(self):
        return fmt_key(self.key)

    def __lt__(self, o):
        return self.id < o.id


def atom(key, dom):
    a = Atom._tab.get(key)
    if a is None:
        a = Atom()
        a.key = key
        a.dom = dom
        Atom._n += 1
        a.id = Atom._n
        a._supp = None
        a.struct = any(isinstance(x, Lin) for x in key)   # key embeds linear expressions
        Atom._tab[key] = a
    return a


def fmt_key(k):
    if isinstance(k, tuple):
        if k and k[0] == "byte":
            return "%s[%s]" % (fmt_key(k[1]), k[2])
        if k and k[0] == "op":
            return "%s(%s)" % (k[1], ",".join(str(x) for x in k[2:]))
        if k and k[0] == "len":
            return "len(%s)" % fmt_key(k[1])
        return ".".join(fmt_key(x) for x in k)
    return str(k)


# ------------------------------------------------------------------ linear expressions
class Lin:
    __slots__ = ("c", "t", "_h")

    def __init__(self, c, t=()):
        self.c = c
        self.t = t          # tuple of (Atom, coef) sorted by atom id, coef != 0
        self._h = hash((c, t))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, Lin) and self._h == o._h and self.c == o.c and self.t == o.t

    def isc(self):
        return not self.t

    def __add__(self, o):
        if isinstance(o, int):
            return Lin(self.c + o, self.t)
        if not o.t:
            return Lin(self.c + o.c, self.t)
        if not self.t:
            return Lin(self.c + o.c, o.t)
        d = dict(self.t)
        for a, k in o.t:
            n = d.get(a, 0) + k
            if n:
                d[a] = n
            else:
                del d[a]
        return Lin(self.c + o.c, tuple(sorted(d.items(), key=lambda x: x[0].id)))

    def __neg__(self):
        return Lin(-self.c, tuple((a, -k) for a, k in self.t))

    def __sub__(self, o):
        if isinstance(o, int):
            return Lin(self.c - o, self.t)
        return self + (-o)

    def scale(self, n):
        if n == 0:
            return Lin(0)
        return Lin(self.c * n, tuple((a, k * n) for a, k in self.t))

    def atoms(self):
        return [a for a, _ in self.t]

    def single(self):
        """(atom, coef) if exactly one atom"""
        return self.t[0] if len(self.t) == 1 else None

    def __repr__(self):
        if not self.t:
            return str(self.c)
        s = ""
        for a, k in self.t:
            s += ("+" if k > 0 else "-") + ("" if abs(k) == 1 else "%d*" % abs(k)) + repr(a)
        if self.c:
            s += "%+d" % self.c
        return s.lstrip("+")


def K(n):
    return Lin(n)


def L(a):
    return Lin(0, ((a, 1),))


ZERO = K(0)
ONE = K(1)


def support(a):
    """base atoms an op-atom is computed from (None if not computable)"""
    if a._supp is None:
        if a.key[0] == "op":
            s = set()
            for x in a.key[2:]:
                if isinstance(x, Lin):
                    for b in x.atoms():
                        s |= support(b)
            a._supp = frozenset(s)
        else:
            a._supp = frozenset([a])
    return a._supp


def eval_atom(a, env):
    if a in env:
        return env[a]
    k = a.key
    assert k[0] == "op", k
    op = k[1]
    x = [eval_lin(y, env) if isinstance(y, Lin) else y for y in k[2:]]
    if op == "and":
        return x[0] & x[1]
    if op == "or":
        return x[0] | x[1]
    if op == "xor":
        return x[0] ^ x[1]
    if op == "div":
        return x[0] // x[1]
    if op == "mod":
        return x[0] % x[1]
    if op == "digit":
        return (x[0] >> (8 * x[1])) & 255
    if op == "wrap":       # wrap(x, bits)
        return x[0] & ((1 << x[1]) - 1)
    if op == "shl":
        return (x[0] << x[1]) & ((1 << x[2]) - 1)
    if op == "shr":
        return x[0] >> x[1]
    raise KeyError(op)


def eval_lin(l, env):
    v = l.c
    for a, k in l.t:
        v += k * eval_atom(a, env)
    return v


def lin_support(l):
    s = set()
    for a, _ in l.t:
        s |= support(a)
    return s


COMPUTABLE = {"and", "or", "xor", "div", "mod", "digit", "wrap", "shl", "shr"}


# ------------------------------------------------------------------ the store
class Store:
    __slots__ = ("subst", "vs", "ineqs", "allin", "facts", "bot", "_fm")

    def __init__(self):
        self.subst = {}
        self.vs = {}
        self.ineqs = frozenset()
        self.allin = ()
        self.facts = frozenset()
        self.bot = False
        self._fm = {}

    def copy(self):
        s = Store.__new__(Store)
        s.subst = dict(self.subst)
        s.vs = dict(self.vs)
        s.ineqs = self.ineqs
        s.allin = self.allin
        s.facts = self.facts
        s.bot = self.bot
        s._fm = dict(self._fm)
        return s

    # ---------------- normalisation
    def natom(self, a):
        """normalised Lin of an atom"""
        r = self.subst.get(a)
        if r is not None:
            return self.norm(r)
        if a.struct:
            nk = tuple(self.norm(x) if isinstance(x, Lin) else x for x in a.key)
            if nk != a.key:
                k = nk
                if k[0] == "op":
                    if all(not isinstance(x, Lin) or x.isc() for x in k[2:]):
                        tmp = Atom()
                        tmp.key = k
                        return K(eval_atom(tmp, {}))
                if k[0] == "byte" and k[1][0] == "const" and k[2].isc() and 0 <= k[2].c < len(k[1][1]):
                    return K(k[1][1][k[2].c])
                b = atom(nk, a.dom)
                r = self.subst.get(b)
                if r is not None:
                    return self.norm(r)
                return L(b)
        return L(a)

    def norm(self, l):
        if not l.t:
            return l
        changed = False
        for a, k in l.t:
            if a in self.subst or a.struct:
                changed = True
                break
        if not changed:
            return l
        r = K(l.c)
        for a, k in l.t:
            n = self.natom(a)
            r = r + (n if k == 1 else n.scale(k))
        return r

    # ---------------- bounds
    def dom(self, a):
        d = self.vs.get(a)
        if d is None:
            d = a.dom
            if a.key[0] == "byte" and self.allin:
                for (base, lo, hi, v) in self.allin:
                    if base == a.key[1]:
                        o = a.key[2]
                        if self.entails_ge(o - lo, nofm=False) and self.entails_ge(hi - o - 1, nofm=False):
                            d = d.meet(v)
        return d

    def dom_of(self, l):
        """value set of a linear expression (exact for at most one atom)"""
        l = self.norm(l)
        if l.isc():
            return ISet.rng(l.c, l.c)
        sg = l.single()
        if sg and sg[1] == 1:
            d = self.dom(sg[0])
            return ISet(tuple((x + l.c, y + l.c) for x, y in d.iv))
        lo, hi = self.bounds(l)
        return ISet.rng(lo, hi)

    def bounds(self, l):
        lo = hi = l.c
        for a, k in l.t:
            d = self.dom(a)
            if d.empty():
                return (1, 0)
            if k > 0:
                lo += k * d.lo
                hi += k * d.hi
            else:
                lo += k * d.hi
                hi += k * d.lo
        return lo, hi

    # ---------------- assumptions
    def assume_ge(self, l):
        """assume l >= 0; returns False if the store becomes empty"""
        if self.bot:
            return False
        l = self.norm(l)
        if l.isc():
            if l.c < 0:
                self.bot = True
            return not self.bot
        g = 0
        for _, k in l.t:
            g = gcd(g, k)
        if g > 1:
            l = Lin(l.c // g, tuple((a, k // g) for a, k in l.t))
        lo, hi = self.bounds(l)
        if lo >= 0:
            return True
        if hi < 0:
            self.bot = True
            return False
        sg = l.single()
        if sg:
            a, k = sg
            d = self.dom(a)
            if k > 0:          # a >= -c/k
                v = -(l.c // k)
                nd = d.meet(ISet.rng(v, d.hi)) if v > d.lo else d
            else:              # a <= c/(-k)
                v = l.c // (-k)
                nd = d.meet(ISet.rng(d.lo, v)) if v < d.hi else d
            return self.set_dom(a, nd)
        if l in self.ineqs:
            return True
        self.ineqs = self.ineqs | {l}
        self._fm = {}
        if not self.finite_filter(("ge", l)):
            return False
        return self.propagate([l])

    def assume_eq(self, l):
        if self.bot:
            return False
        l = self.norm(l)
        if l.isc():
            if l.c != 0:
                self.bot = True
            return not self.bot
        g = 0
        for _, k in l.t:
            g = gcd(g, k)
        if g > 1:
            if l.c % g:
                self.bot = True
                return False
            l = Lin(l.c // g, tuple((a, k // g) for a, k in l.t))
        lo, hi = self.bounds(l)
        if lo > 0 or hi < 0:
            self.bot = True
            return False
        # solve for a unit-coefficient atom (prefer the youngest, non computed one)
        best = None
        for a, k in l.t:
            if k in (1, -1):
                rank = (a.key[0] == "op", a.key[0] == "byte", -a.id)
                if best is None or rank < best[0]:
                    # avoid self-reference inside structured atoms
                    if any(b is not a and self._mentions(b, a) for b, _ in l.t):
                        continue
                    best = (rank, a, k)
        if best is None:
            sg = l.single()
            if sg:
                a, k = sg
                if l.c % k:
                    self.bot = True
                    return False
                return self.set_dom(a, ISet.rng(-l.c // k, -l.c // k))
            ok = self.finite_filter(("eq", l))
            return ok and self.assume_ge(l) and self.assume_ge(-l)
        _, a, k = best
        rest = l - Lin(0, ((a, k),))
        rhs = rest.scale(-k)
        return self.add_subst(a, rhs)

    def _mentions(self, b, a):
        if b is a:
            return True
        if b.struct:
            return any(isinstance(x, Lin) and any(self._mentions(c, a) for c in x.atoms()) for x in b.key)
        return False

    def add_subst(self, a, rhs):
        d = self.dom(a)
        self.subst[a] = rhs
        self._fm = {}
        opdef = a if a.key[0] == "op" else None
        # re-normalise everything mentioning a
        old = self.vs
        self.vs = {}
        pend = []
        for b, s in old.items():
            if b is a:
                continue
            n = self.natom(b)
            if n == L(b):
                self.vs[b] = s
            else:
                pend.append((n, s))
        # substituted atoms whose key mentions a denote the same quantity as the re-keyed atom
        rek = []
        for b, r in self.subst.items():
            if b.struct and b is not a and b.key[0] != "op" and self._mentions(b, a):
                nk = tuple(self.norm(x) if isinstance(x, Lin) else x for x in b.key)
                if nk != b.key and not (nk[0] == "byte" and nk[1][0] == "const" and nk[2].isc()):
                    b2 = atom(nk, b.dom)
                    if b2 not in self.subst:
                        rek.append((b2, r))
        oldi = self.ineqs
        self.ineqs = frozenset()
        pend.append((self.norm(rhs), d))
        for n, s in pend:
            if not self.assume_in(n, s):
                return False
        if self.facts:
            ff = self.facts
            self.facts = frozenset()
            for f in ff:
                if f[0] in ("ne", "ge", "eq"):
                    if not self.assume((f[0], f[1])):
                        return False
                else:
                    self.facts = self.facts | {f}
        for l in oldi:
            if not self.assume_ge(l):
                return False
        for b2, r in rek:
            if not self.assume_eq(L(b2) - r):
                return False
        if self.allin:
            self.allin = tuple((b, self.norm(lo), self.norm(hi), v) for b, lo, hi, v in self.allin)
        if opdef is not None:
            if not self.finite_filter(("eq", L_raw(opdef) - rhs)):
                return False
        return not self.bot

    def assume_in(self, l, s):
        l = self.norm(l)
        if l.isc():
            if not s.has(l.c):
                self.bot = True
            return not self.bot
        if s.empty():
            self.bot = True
            return False
        sg = l.single()
        if sg and sg[1] in (1, -1):
            a, k = sg
            if k == 1:
                t = ISet(tuple((x - l.c, y - l.c) for x, y in s.iv))
            else:
                t = ISet(tuple(sorted((l.c - y, l.c - x) for x, y in s.iv)))
            return self.set_dom(a, self.dom(a).meet(t))
        if not self.assume_ge(l - s.lo):
            return False
        if not self.assume_ge(K(s.hi) - l):
            return False
        for i in range(len(s.iv) - 1):
            # holes
            gap = (s.iv[i][1] + 1, s.iv[i + 1][0] - 1)
            if gap[1] - gap[0] < 4:
                for v in range(gap[0], gap[1] + 1):
                    if not self.assume_ne(l - v):
                        return False
        return True

    def set_dom(self, a, d):
        if d.empty():
            self.bot = True
            return False
        cur = self.vs.get(a)
        if cur == d:
            return True
        if d == a.dom and cur is None:
            return True
        self.vs[a] = d
        self._fm = {}
        if a.key[0] == "op" and not self.back_filter(a):
            return False
        if d.iv[0][0] == d.iv[-1][1]:
            if a not in self.subst:
                v = d.iv[0][0]
                return self.add_subst(a, K(v))
        aff = [l for l in self.ineqs if any(b is a for b, _ in l.t)]
        if not self.propagate(aff):
            return False
        if not self.opaque_recheck(a):
            return False
        return True

    def opaque_recheck(self, a):
        for f in self.facts:
            if f[0] in ("ne", "eq", "ge"):
                if any(b is a for b in f[1].atoms()):
                    v = self.decide(f)
                    if v is False:
                        self.bot = True
                        return False
        return True

    def back_filter(self, a):
        """an op-atom got a restricted value set: filter the base atom it is computed from"""
        return self.finite_filter(("in", L_raw(a), self.vs[a]))

    def finite_filter(self, cond):
        """exact filtering of a condition over one small finite-domain base atom"""
        l = cond[1]
        if not l.t:
            return True
        sup = lin_support(l)
        if len(sup) == 0 or len(sup) > 2:
            return True
        if not any(a.key[0] == "op" for a, _ in l.t) and len(sup) > 1:
            return True
        sup = sorted(sup, key=lambda x: x.id)
        if any(b in self.subst for b in sup):
            return True
        doms = [self.dom(b) for b in sup]
        n = 1
        for d in doms:
            n *= d.count()
        if n > 70000 or n == 0:
            return n != 0
        # only ops we can evaluate
        try:
            if len(sup) == 1:
                b = sup[0]
                keep = fast_filter(cond, b, doms[0]) if n > 48 else [v for v in doms[0] if test_cond(cond, {b: v})]
                if len(keep) == doms[0].count():
                    return True
                return self.set_dom(b, ISet.vals(keep))
            b, c = sup
            kb, kc = set(), set()
            if n > 48:
                t = compiled(l, (b, c))
                test = tester(cond)
                for v in doms[0]:
                    for w in doms[1]:
                        if test(t(v, w)):
                            kb.add(v)
                            kc.add(w)
            for v in (doms[0] if n <= 48 else ()):
                for w in doms[1]:
                    if test_cond(cond, {b: v, c: w}):
                        kb.add(v)
                        kc.add(w)
            if not kb:
                self.bot = True
                return False
            if len(kb) < doms[0].count() and not self.set_dom(b, ISet.vals(kb)):
                return False
            if c in self.subst:
                return not self.bot
            if len(kc) < self.dom(c).count() and not self.set_dom(c, self.dom(c).meet(ISet.vals(kc))):
                return False
            return True
        except (KeyError, AssertionError):
            return True

    def assume_ne(self, l):
        if self.bot:
            return False
        l = self.norm(l)
        if l.isc():
            if l.c == 0:
                self.bot = True
            return not self.bot
        sg = l.single()
        if sg:
            a, k = sg
            if l.c % k == 0:
                return self.set_dom(a, self.dom(a).minus_val(-l.c // k))
            return True
        lo, hi = self.bounds(l)
        if lo > 0 or hi < 0:
            return True
        if lo == 0:
            return self.assume_ge(l - 1)
        if hi == 0:
            return self.assume_ge(-l - 1)
        if not self.finite_filter(("ne", l)):
            return False
        if self.entails_ge(l):
            return self.assume_ge(l - 1)
        if self.entails_ge(-l):
            return self.assume_ge(-l - 1)
        self.facts = self.facts | {("ne", l)}
        return not self.bot

    def propagate(self, work):
        n = 0
        work = list(work)
        while work:
            n += 1
            if n > 60:
                break
            l = work.pop()
            if l not in self.ineqs:
                continue
            lo, hi = self.bounds(l)
            if hi < 0:
                self.bot = True
                return False
            if lo >= 0:
                self.ineqs = self.ineqs - {l}
                continue
            for a, k in l.t:
                d = self.dom(a)
                if k > 0:
                    # k*a >= -(hi - k*d.hi)
                    rest = hi - k * d.hi
                    v = -(rest // k)
                    if v > d.lo:
                        if not self._narrow(a, ISet.rng(v, d.hi), work):
                            return False
                        if self.bot:
                            return False
                        if a in self.subst:
                            break
                else:
                    kk = -k
                    rest = hi - k * d.lo
                    v = rest // kk
                    if v < d.hi:
                        if not self._narrow(a, ISet.rng(d.lo, v), work):
                            return False
                        if a in self.subst:
                            break
        return True

    def _narrow(self, a, r, work):
        d = self.dom(a).meet(r)
        if d.empty():
            self.bot = True
            return False
        if d.iv[0][0] == d.iv[-1][1]:
            return self.set_dom(a, d)
        self.vs[a] = d
        self._fm = {}
        if a.key[0] == "op" and not self.back_filter(a):
            return False
        for l in self.ineqs:
            if any(b is a for b, _ in l.t):
                work.append(l)
        return True

    # ---------------- queries
    def entails_ge(self, l, nofm=False):
        l = self.norm(l)
        lo, hi = self.bounds(l) if l.t else (l.c, l.c)
        if lo >= 0:
            return True
        if hi < 0 or nofm:
            return False
        if l in self._fm:
            return self._fm[l]
        r = self.fm_infeasible(-l - 1)
        if not r and len(lin_support(l)) <= 2 and any(a.key[0] == "op" for a, _ in l.t):
            t = self.copy()
            r = not t.assume_ge(-l - 1)
        self._fm[l] = r
        return r

    def entails_eq(self, l):
        l = self.norm(l)
        if l.isc():
            return l.c == 0
        return self.entails_ge(l) and self.entails_ge(-l)

    def fm_infeasible(self, extra=None):
        """True if ineqs (+ domain bounds) + extra >= 0 has no integer solution (by FM, sound)."""
        rows = []
        if extra is not None:
            rel = set(extra.atoms())
            pool = list(self.ineqs)
            grow = True
            sel = []
            while grow:
                grow = False
                for l in list(pool):
                    if any(a in rel for a in l.atoms()):
                        sel.append(l)
                        pool.remove(l)
                        for a in l.atoms():
                            if a not in rel:
                                rel.add(a)
                                grow = True
            rows = sel + [extra]
        else:
            rows = list(self.ineqs)
        ats = set()
        for l in rows:
            ats |= set(l.atoms())
        if not ats:
            return any(l.c < 0 for l in rows)
        # defining inequalities of op-atoms (div)
        for a in list(ats):
            d = self.dom(a)
            rows.append(L(a) - d.lo)
            rows.append(K(d.hi) - L(a))
        cur = set()
        for l in rows:
            r = _tight(l)
            if r is False:
                return True
            if r is not None:
                cur.add(r)
        while True:
            ats = {}
            for l in cur:
                for a, k in l.t:
                    p = ats.setdefault(a, [0, 0])
                    p[0 if k > 0 else 1] += 1
            if not ats:
                return False
            a = min(ats, key=lambda x: (ats[x][0] * ats[x][1] - sum(ats[x]), x.id))
            pos, neg, nxt = [], [], set()
            for l in cur:
                k = dict(l.t).get(a, 0)
                if k > 0:
                    pos.append((l, k))
                elif k < 0:
                    neg.append((l, -k))
                else:
                    nxt.add(l)
            for p, kp in pos:
                for q, kq in neg:
                    r = _tight(p.scale(kq) + q.scale(kp))
                    if r is False:
                        return True
                    if r is not None:
                        nxt.add(r)
            if len(nxt) > 600:
                return False
            cur = nxt

    def infeasible(self):
        if self.bot:
            return True
        if self.fm_infeasible():
            self.bot = True
            return True
        return False

    # ---------------- conditions
    # ('ge',l) ('eq',l) ('ne',l) ('true',) ('false',) ('not',c) ('and',c,d) ('or',c,d) ('in', l, ISet)
    def decide(self, c):
        k = c[0]
        if k == "true":
            return True
        if k == "false":
            return False
        if k == "ge":
            l = self.norm(c[1])
            if self.entails_ge(l):
                return True
            if self.entails_ge(-l - 1):
                return False
            return None
        if k in ("eq", "ne"):
            l = self.norm(c[1])
            if l.isc():
                r = l.c == 0
            else:
                g = 0
                for _, kk in l.t:
                    g = gcd(g, kk)
                sg = l.single()
                r = None
                if g > 1:
                    if l.c % g:
                        r = False
                    elif not sg:
                        l = Lin(l.c // g, tuple((a, kk // g) for a, kk in l.t))
            if not l.isc() and r is None:
                if sg:
                    a, kk = sg
                    if l.c % kk:
                        r = False
                    elif not self.dom(a).has(-l.c // kk):
                        r = False
                if r is None:
                    if self.entails_ge(l - 1) or self.entails_ge(-l - 1):
                        r = False
                    elif self.entails_ge(l) and self.entails_ge(-l):
                        r = True
                    elif ("ne", l) in self.facts or ("ne", -l) in self.facts:
                        r = False
                    else:
                        r = self._enum_decide_eq(l)
            if r is None:
                return None
            return r if k == "eq" else not r
        if k == "in":
            l = self.norm(c[1])
            if l.isc():
                return c[2].has(l.c)
            sg = l.single()
            if sg and sg[1] == 1:
                d = self.dom(sg[0])
                t = ISet(tuple((x + l.c, y + l.c) for x, y in d.iv))
                if t.subset(c[2]):
                    return True
                if t.meet(c[2]).empty():
                    return False
            return None
        if k == "not":
            r = self.decide(c[1])
            return None if r is None else (not r)
        if k == "and":
            a, b = self.decide(c[1]), self.decide(c[2])
            if a is False or b is False:
                return False
            if a and b:
                return True
            return None
        if k == "or":
            a, b = self.decide(c[1]), self.decide(c[2])
            if a or b:
                return True
            if a is False and b is False:
                return False
            return None
        raise ValueError(c)

    def _enum_decide_eq(self, l):
        sup = lin_support(l)
        if not (1 <= len(sup) <= 2) or not any(a.key[0] == "op" for a, _ in l.t):
            return None
        sup = list(sup)
        if any(b in self.subst for b in sup):
            return None
        n = 1
        for b in sup:
            n *= self.dom(b).count()
        if n > 70000:
            return None
        seen = set()
        try:
            if len(sup) == 1:
                for v in self.dom(sup[0]):
                    seen.add(eval_lin(l, {sup[0]: v}) == 0)
                    if len(seen) == 2:
                        return None
            else:
                for v in self.dom(sup[0]):
                    for w in self.dom(sup[1]):
                        seen.add(eval_lin(l, {sup[0]: v, sup[1]: w}) == 0)
                        if len(seen) == 2:
                            return None
        except (KeyError, AssertionError):
            return None
        return seen.pop() if len(seen) == 1 else None

    def assume(self, c, sense=True):
        """assume condition; may raise SplitNeeded for disjunctions"""
        k = c[0]
        if k == "true":
            if not sense:
                self.bot = True
            return not self.bot
        if k == "false":
            if sense:
                self.bot = True
            return not self.bot
        if k == "not":
            return self.assume(c[1], not sense)
        if k == "ge":
            return self.assume_ge(c[1]) if sense else self.assume_ge(-c[1] - 1)
        if k == "eq":
            return self.assume_eq(c[1]) if sense else self.assume_ne(c[1])
        if k == "ne":
            return self.assume_ne(c[1]) if sense else self.assume_eq(c[1])
        if k == "in":
            if sense:
                return self.assume_in(c[1], c[2])
            l = self.norm(c[1])
            lo, hi = self.bounds(l)
            return self.assume_in(l, ISet.rng(lo, hi).sub(c[2]))
        if k == "and":
            if sense:
                return self.assume(c[1]) and self.assume(c[2])
            a, b = self.decide(c[1]), self.decide(c[2])
            if a is False or b is False:
                return True
            if a is True:
                return self.assume(c[2], False)
            if b is True:
                return self.assume(c[1], False)
            raise Split([("not", c[1]), ("and", c[1], ("not", c[2]))])
        if k == "or":
            return self.assume(("and", ("not", c[1]), ("not", c[2])), not sense)
        raise ValueError(c)

    def add_allin(self, base, lo, hi, v):
        self.allin = self.allin + ((base, self.norm(lo), self.norm(hi), v),)
        # refine already known byte atoms
        for a in list(self.vs):
            if a.key[0] == "byte" and a.key[1] == base:
                o = a.key[2]
                if self.entails_ge(o - lo) and self.entails_ge(hi - o - 1):
                    if not self.set_dom(a, self.vs[a].meet(v)):
                        return False
        return True

    def conj(self, o):
        """conjoin the facts of another store (same atoms); False if contradictory"""
        for a, r in o.subst.items():
            if not self.assume_eq(L(a) - r):
                return False
        for a, d in o.vs.items():
            if not self.assume_in(L(a), d):
                return False
        for l in o.ineqs:
            if not self.assume_ge(l):
                return False
        for f in o.facts:
            if f[0] in ("ne", "eq", "ge"):
                if not self.assume(f):
                    return False
        for (b, lo, hi, v) in o.allin:
            if not self.add_allin(b, lo, hi, v):
                return False
        return not self.infeasible()

    def describe(self, limit=40):
        out = []
        for a, d in self.vs.items():
            if a not in self.subst and d != a.dom:
                out.append("%r in %r" % (a, d))
        for a, r in self.subst.items():
            out.append("%r = %r" % (a, r))
        out += ["%r >= 0" % l for l in self.ineqs]
        out += ["%s" % (f,) for f in self.facts]
        out += ["all %s[%s..%s] in %r" % (fmt_key(b), lo, hi, v) for b, lo, hi, v in self.allin]
        return sorted(out)[:limit]


def L_raw(a):
    return Lin(0, ((a, 1),))


_COMPILED = {}


def source_atom(a, names):
    n = names.get(a)
    if n is not None:
        return n
    k = a.key
    if k[0] != "op":
        raise AssertionError(k)
    x = [source(y, names) if isinstance(y, Lin) else "%d" % y for y in k[2:]]
    op = k[1]
    f = {"and": "(%s & %s)", "or": "(%s | %s)", "xor": "(%s ^ %s)", "div": "(%s // %s)", "mod": "(%s %% %s)", "shr": "(%s >> %s)",
         "digit": "((%s >> (8 * %s)) & 255)", "wrap": "(%s & ((1 << %s) - 1))", "shl": "((%s << %s) & ((1 << %s) - 1))"}[op]
    return f % tuple(x)


def source(l, names):
    return "(%s)" % " + ".join(["%d" % l.c] + ["%d * %s" % (k, source_atom(a, names)) if k != 1 else source_atom(a, names) for a, k in l.t])


def compiled(l, atoms):
    """the linear form as a Python function of its base atoms"""
    k = (l.c, tuple((a.id, c) for a, c in l.t), tuple(a.id for a in atoms))
    f = _COMPILED.get(k)
    if f is None:
        names = {a: "v%d" % i for i, a in enumerate(atoms)}
        f = _COMPILED[k] = eval("lambda %s: %s" % (", ".join(names.values()), source(l, names)))
    return f


def tester(c):
    if c[0] == "ge":
        return lambda v: v >= 0
    if c[0] == "eq":
        return lambda v: v == 0
    if c[0] == "ne":
        return lambda v: v != 0
    if c[0] == "in":
        return c[2].has
    raise KeyError(c[0])


def fast_filter(cond, b, dom):
    f = compiled(cond[1], (b,))
    k = cond[0]
    if k == "ge":
        return [v for v in dom if f(v) >= 0]
    if k == "eq":
        return [v for v in dom if f(v) == 0]
    if k == "ne":
        return [v for v in dom if f(v) != 0]
    has = tester(cond)
    return [v for v in dom if has(f(v))]


def test_cond(c, env):
    v = eval_lin(c[1], env)
    if c[0] == "ge":
        return v >= 0
    if c[0] == "eq":
        return v == 0
    if c[0] == "ne":
        return v != 0
    if c[0] == "in":
        return c[2].has(v)
    raise KeyError(c[0])


class Split(Exception):
    """the current step needs a case split; conds is a covering, disjoint list of conditions"""

    def __init__(self, conds):
        self.conds = conds


def _tight(l):
    """normalise l>=0: None if trivially true, False if trivially false"""
    if not l.t:
        return None if l.c >= 0 else False
    g = 0
    for _, k in l.t:
        g = gcd(g, k)
    if g > 1:
        l = Lin(l.c // g, tuple((a, k // g) for a, k in l.t))
    return l


def simp_not(c):
    if c[0] == "not":
        return c[1]
    if c[0] == "true":
        return ("false",)
    if c[0] == "false":
        return ("true",)
    if c[0] == "eq":
        return ("ne", c[1])
    if c[0] == "ne":
        return ("eq", c[1])
    if c[0] == "ge":
        return ("ge", -c[1] - 1)
    return ("not", c)
