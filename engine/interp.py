"""Abstract interpreter over monomorphic MIR.

Every function is executed on *sets of abstract states* (trace-partitioned): a State is a constraint
Store over immutable atoms plus an abstract memory. Branches refine the store, infeasible branches are
dropped by the domain, calls are inlined, recursive re-entries are summarised, loops are first
partitioned by iteration number up to a bound and then widened to an inductive invariant."""
import math
import re
import sys
import time
from dom import *
from values import *

sys.setrecursionlimit(20000)


class Infeasible(Exception):
    pass


class Unmodelled(Exception):
    def __init__(self, what):
        self.what = what


class Budget(Exception):
    pass


class State:
    __slots__ = ("store", "fr", "own", "heap", "heapown", "taint", "trace", "nheap")

    def __init__(self):
        self.store = Store()
        self.fr = []
        self.own = set()
        self.heap = {}
        self.heapown = True
        self.taint = None
        self.trace = None
        self.nheap = 0

    def fork(self):
        s = State.__new__(State)
        s.store = self.store.copy()
        s.fr = list(self.fr)
        self.own = set()
        s.own = set()
        s.heap = self.heap
        self.heapown = s.heapown = False
        s.taint = self.taint
        s.trace = self.trace
        s.nheap = self.nheap
        return s

    def get(self, cell):
        if cell[0] == "L":
            return self.fr[cell[1]].get(cell[2])
        return self.heap.get(cell)

    def put(self, cell, v):
        if cell[0] == "L":
            d = cell[1]
            if d not in self.own:
                self.fr[d] = dict(self.fr[d])
                self.own.add(d)
            self.fr[d][cell[2]] = v
        else:
            if not self.heapown:
                self.heap = dict(self.heap)
                self.heapown = True
            self.heap[cell] = v

    def push(self):
        self.fr.append({})
        self.own.add(len(self.fr) - 1)
        return len(self.fr) - 1

    def pop(self):
        self.own.discard(len(self.fr) - 1)
        self.fr.pop()

    def trace_list(self):
        out = []
        t = self.trace
        while t is not None:
            out.append(t[0])
            t = t[1]
        return out[::-1]

    # ghosts
    def ghost(self, name, default=None):
        return self.heap.get(("G", name), default)

    def setghost(self, name, v):
        self.put(("G", name), v)


def has_unk(x):
    """does a Lin / cond / value / key mention an imprecise atom"""
    if isinstance(x, Lin):
        return any(atom_unk(a) for a, _ in x.t)
    if isinstance(x, tuple):
        return any(has_unk(y) for y in x)
    if isinstance(x, IntV):
        return has_unk(x.l)
    if isinstance(x, BoolV):
        return has_unk(x.c)
    if isinstance(x, AggV):
        return any(has_unk(y) for y in x.f)
    if isinstance(x, SymV):
        return "unk" in x.key or has_unk(x.key)
    if isinstance(x, SliceV):
        return "unk" in x.base or has_unk(x.off) or has_unk(x.len) or has_unk(x.base)
    if isinstance(x, OpaqueV):
        return x.unk or "unk" in x.key
    if isinstance(x, VecV):
        return any(has_unk(s) for s in x.segs)
    return False


_unkc = {}


def atom_unk(a):
    r = _unkc.get(a)
    if r is None:
        r = "unk" in a.key or any(has_unk(y) for y in a.key)
        _unkc[a] = r
    return r


# ------------------------------------------------------------------ generic mapping of Lins in values
def map_lin(l, f):
    """substitute atoms: f(atom) -> Lin or None"""
    r = K(l.c)
    ch = False
    for a, k in l.t:
        n = f(a)
        if n is None and a.struct:
            nk = tuple(map_any(x, f) for x in a.key)
            if nk != a.key:
                n = mk_atom_lin(nk, a.dom)
        if n is not None:
            ch = True
            r = r + n.scale(k)
        else:
            r = r + Lin(0, ((a, k),))
    return r if ch else l


WIDE = ISet.rng(-(1 << 130), 1 << 130)
NAT = ISet.rng(0, 1 << 130)


def mk_atom_lin(key, dom):
    if key[0] == "op" and all(not isinstance(x, Lin) or x.isc() for x in key[2:]):
        t = Atom()
        t.key = key
        return K(eval_atom(t, {}))
    if key[0] == "byte" and key[1][0] == "const" and key[2].isc() and 0 <= key[2].c < len(key[1][1]):
        return K(key[1][1][key[2].c])
    return L(atom(key, dom))


def map_any(x, f):
    if isinstance(x, Lin):
        return map_lin(x, f)
    if isinstance(x, V):
        return map_val(x, f)
    if isinstance(x, tuple):
        n = tuple(map_any(y, f) for y in x)
        return n if n != x else x
    return x


def map_val(v, f):
    if isinstance(v, IntV):
        n = map_lin(v.l, f)
        return v if n is v.l else IntV(n)
    if isinstance(v, BoolV):
        n = map_any(v.c, f)
        return v if n is v.c else BoolV(n)
    if isinstance(v, AggV):
        n = tuple(map_val(y, f) for y in v.f)
        return v if all(a is b for a, b in zip(n, v.f)) else AggV(v.ty, v.var, n)
    if isinstance(v, SymV):
        n = map_any(v.key, f)
        return v if n is v.key else SymV(n, v.ty, v.dom)
    if isinstance(v, SliceV):
        b, o, l = map_any(v.base, f), map_lin(v.off, f), map_lin(v.len, f)
        return v if (b is v.base and o is v.off and l is v.len) else SliceV(b, o, l, v.ety)
    if isinstance(v, RefV):
        c, p = map_any(v.cell, f), map_any(v.path, f)
        return v if (c is v.cell and p is v.path) else RefV(c, p)
    if isinstance(v, VecV):
        n = map_any(v.segs, f)
        return v if n is v.segs else VecV(n, v.ety)
    if isinstance(v, OpaqueV):
        n = map_any(v.key, f)
        return v if n is v.key else OpaqueV(n, v.unk)
    return v


def norm_val(store, v):
    def f(a):
        n = store.natom(a)
        return None if n == L(a) else n
    return map_val(v, f)


def flat(v, st=None, eng=None, depth=0):
    """flatten a value to a key (Lins and strings), dereferencing pointers"""
    if isinstance(v, IntV):
        return (v.l,)
    if isinstance(v, BoolV):
        return ("b",) + tuple(_flatc(v.c))
    if isinstance(v, AggV):
        out = ("(", v.var)
        for x in v.f:
            out += flat(x, st, eng, depth)
        return out + (")",)
    if isinstance(v, SymV):
        return ("sym",) + v.key
    if isinstance(v, SliceV):
        return ("slice", v.base, v.off, v.len)
    if isinstance(v, RefV) and st is not None and depth < 6:
        try:
            return ("&",) + flat(eng.read(st, v.cell, v.path), st, eng, depth + 1)
        except (Infeasible, Unmodelled, KeyError):
            return ("&?",)
    if isinstance(v, RefV):
        return ("&", v.cell, v.path)
    if isinstance(v, FnV):
        return ("fn", v.fid)
    if isinstance(v, VecV):
        return ("vec", v.segs)
    if isinstance(v, OpaqueV):
        return ("opq",) + v.key
    return (str(v),)


def _flatc(c):
    for x in c:
        if isinstance(x, tuple):
            yield from _flatc(x)
        else:
            yield x


class Frame:
    __slots__ = ("fid", "f", "body", "depth", "args")

    def __init__(self, fid, f, depth):
        self.fid = fid
        self.f = f
        self.body = f["body"]
        self.depth = depth


def bitform(st, l):
    """{position: 1 | atom | ("not", atom)} if l is a sum of distinct powers of two times single-bit atoms and constant bits"""
    if l.c < 0:
        return None
    out = {}
    c = l.c
    for a, k in l.t:
        neg = k < 0
        m = -k if neg else k
        if m & (m - 1) or a.key[0] != "bit":
            return None
        p = m.bit_length() - 1
        if p in out:
            return None
        if neg:
            # 1 - bit at this position
            if not c >> p & 1:
                return None
            c -= m
            out[p] = ("not", a)
        else:
            out[p] = a
    p = 0
    while c:
        if c & 1:
            if p in out:
                return None
            out[p] = 1
        c >>= 1
        p += 1
    return out


def bit_lin(d):
    r = ZERO
    for p, v in d.items():
        if v == 1:
            r = r + (1 << p)
        elif isinstance(v, tuple):
            r = r + (K(1) - L(v[1])).scale(1 << p)
        else:
            r = r + L(v).scale(1 << p)
    return r


def bit_or(a, b):
    out = dict(a)
    for p, v in b.items():
        w = out.get(p)
        if w is None or w == v:
            out[p] = v
        elif w == 1 or v == 1:
            out[p] = 1
        else:
            return None
    return bit_lin(out)


def bit_xor(a, b):
    out = dict(a)
    for p, v in b.items():
        w = out.get(p)
        if w is None:
            out[p] = v
        elif w == v:
            del out[p]
        elif w == 1 or v == 1:
            o = v if w == 1 else w
            out[p] = o[1] if isinstance(o, tuple) else ("not", o)
        else:
            return None
    return bit_lin(out)


class EngineCore:
    K_UNROLL = 10
    K_MIN = 3
    K_EXITS = 24
    K_CUR = 60
    MAX_STATES = 6000
    MAX_STEPS = 3000000
    DEBUG = False

    def __init__(self, prog, natives):
        self.p = prog
        self.natives = natives
        self.alarms = []            # panic obligations not discharged
        self.obls = {}              # (fn, kind, line) -> discharged?
        self.mute = 0
        self.stack = []             # (fid, args, State at entry)
        self.rec_calls = []
        self.contracts = {}
        self.no_modular = None      # recursive skipper being proved (or True: inline all of them)
        self.proving = 0
        self.contract_alarms = []
        self.recids = {}
        self.enc_full = set()       # encoder functions known to write the full element of the object they capture
        self.ledger = {}            # result key of a summarised call -> the call
        self.incomplete = []
        self.deadline = None
        self.unmodelled = {}
        self.reached = set()
        self.called_ext = set()
        self.loops = {}
        self.steps = 0
        self.const_cache = {}
        self.loopctr = 0
        self.entry_name = None
        self.loop_widened = 0

    # ------------------------------------------------------------ symbolic values
    def mk_sym(self, t, key):
        ty = self.p.types[t]
        k = ty["k"]
        if k == "bool":
            return BoolV(("eq", L(atom(("b",) + key, BOOL)) - 1))
        if k in ("int", "char"):
            lo, hi = self.p.int_range(t)
            return IntV(L(atom(("i",) + key, ISet.rng(lo, hi))))
        if k in ("ref", "ptr"):
            e = self.p.types[ty["elem"]]
            if e["k"] in ("slice", "str"):
                ety = e["elem"] if e["k"] == "slice" else "u8"
                return SliceV(("S",) + key, ZERO, L(atom(("len",) + key, ISet.rng(0, LENMAX))), ety)
            if e["k"] == "dyn":
                return OpaqueV(key)
            return RefV(("H", key, ty["elem"]), ())
        if k == "tuple":
            return AggV(t, 0, [self.mk_sym(e, key + (i,)) for i, e in enumerate(ty["elems"])])
        if k == "array":
            return AggV(t, 0, [self.mk_sym(ty["elem"], key + (i,)) for i in range(ty["len"])])
        if k == "fndef":
            return FnV(ty["fn"])
        if k == "closure":
            up = self.p.types[ty["upvars"]]
            return AggV(t, 0, [self.mk_sym(e, key + (i,)) for i, e in enumerate(up["elems"])])
        if k == "adt":
            if ty["path"].endswith("boxed::Box"):
                e = self.p.types[ty["args"][0]]
                if e["k"] not in ("slice", "str", "dyn"):
                    return RefV(("H", key, ty["args"][0]), ())
            if ty["path"].endswith("vec::Vec"):
                a = ty["args"][0]
                s = SliceV(("S",) + key, ZERO, L(atom(("len",) + key, ISet.rng(0, LENMAX))), a)
                return VecV((("sub", s),), a)
            if ty["adt"] == "struct":
                return AggV(t, 0, [self.mk_sym(ft, key + (i,)) for i, (_, ft) in enumerate(ty["variants"][0]["fields"])])
            if ty["adt"] == "enum":
                d = self.p.symdom(t)
                if d.count() == 1:
                    return self.sym_variant(SymV(key, t, d), d.lo)
                return SymV(key, t, d)
        return OpaqueV(key, unk="unk" in key)

    def sym_variant(self, s, var):
        v = self.p.types[s.ty]["variants"][var]
        return AggV(s.ty, var, [self.mk_sym(ft, s.key + (v["name"], i)) for i, (_, ft) in enumerate(v["fields"])])

    def fresh_unk(self, t, why, st):
        self.loopctr += 1
        return self.mk_sym(t, ("unk", why, self.loopctr))

    # ------------------------------------------------------------ memory
    def cell_value(self, st, cell):
        if isinstance(cell, SliceV):
            raise Unmodelled("read unsized")
        v = st.get(cell)
        if v is None:
            if cell[0] == "K":
                return cell[1]
            if cell[0] == "H":
                return self.mk_sym(cell[2], cell[1])
            if cell[0] == "L":
                return UNINIT
            raise Unmodelled("unknown cell %s" % (cell,))
        return v

    def read(self, st, cell, path):
        if isinstance(cell, SliceV):
            if not path:
                raise Unmodelled("read of unsized place")
            v = self.slice_elem(st, cell, path[0][1])
            path = path[1:]
        else:
            v = self.cell_value(st, cell)
        for p in path:
            v = self.proj(st, v, p)
        return v

    def proj(self, st, v, p):
        k = p[0]
        if k == "f":
            if isinstance(v, AggV):
                if p[1] < len(v.f):
                    return v.f[p[1]]
                raise Unmodelled("field index")
            if isinstance(v, VecV):
                raise Unmodelled("raw field of Vec")
            if isinstance(v, OpaqueV):
                if v is UNINIT:
                    return UNINIT
                return self.mk_sym(p[2], v.key + ("f", p[1]))
            if isinstance(v, (RefV, FnV)):
                return v        # newtype pointers (NonNull/Unique) are kept as the pointer itself
            if isinstance(v, SymV):
                d = self.variant_of(st, v)
                if d is not None:
                    return self.sym_variant(v, d).f[p[1]]
            raise Unmodelled("field of %r" % (v,))
        if k == "v":
            if isinstance(v, AggV):
                if v.var != p[1]:
                    raise Infeasible()
                return v
            if isinstance(v, SymV):
                return self.sym_variant(v, p[1])
            if isinstance(v, OpaqueV):
                return v
            raise Unmodelled("downcast of %r" % (v,))
        if k == "e":
            return self.elem(st, v, p[1])
        raise Unmodelled("proj %s" % (p,))

    def variant_of(self, st, v):
        if isinstance(v, AggV):
            return v.var
        n = st.store.norm(L(v.datom()))
        if n.isc():
            return n.c
        return None

    def const_index(self, st, l, lo, hi):
        """concrete value of a Lin in [lo,hi], splitting if necessary"""
        n = st.store.norm(l)
        if n.isc():
            return n.c
        a, b = st.store.bounds(n)
        a = max(a, lo)
        b = min(b, hi)
        if b - a > 70:
            raise Unmodelled("symbolic index range")
        if a > b:
            raise Infeasible()
        cs = []
        for v in range(a, b + 1):
            cs.append(("eq", n - v))
        raise Split(cs)

    def elem(self, st, v, idx):
        if isinstance(v, AggV):
            i = self.const_index(st, idx, 0, len(v.f) - 1)
            if not 0 <= i < len(v.f):
                raise Infeasible()
            return v.f[i]
        if isinstance(v, VecV):
            return self.vec_get(st, v, idx)
        if isinstance(v, OpaqueV):
            raise Unmodelled("index of opaque")
        raise Unmodelled("index of %r" % (v,))

    def vec_get(self, st, v, idx):
        off = ZERO
        for s in v.segs:
            n = seg_len(s)
            nxt = off + n
            inside = st.store.decide(("ge", nxt - idx - 1))
            if inside is None:
                raise Split([("ge", nxt - idx - 1), ("ge", idx - nxt)])
            if inside:
                return self.seg_get(st, s, idx - off, v.ety)
            off = nxt
        raise Infeasible()

    def seg_get(self, st, s, i, ety):
        if s[0] == "el":
            return s[1]
        if s[0] == "sub":
            return self.slice_elem(st, s[1], i)
        if s[0] == "gen":
            h = s[2]
            return map_val(s[1], lambda a: i if a is h else None)
        t = ety if isinstance(ety, int) else None
        if t is None or self.p.types[t]["k"] == "int":
            return IntV(L(atom(("byte", (s[0],) + tuple(s[1:2]), i), BYTE)))
        return self.mk_sym(t, (s[0], s[1], i))

    def slice_elem(self, st, s, idx):
        b = s.base
        pos = s.off + idx
        if b[0] == "mem":
            return self.elem(st, self.read(st, b[1], b[2]), pos)
        if b[0] == "const":
            n = st.store.norm(pos)
            if n.isc():
                if 0 <= n.c < len(b[1]):
                    return IntV(K(b[1][n.c]))
                raise Infeasible()
            return IntV(L(atom(("byte", b, n), ISet.vals(b[1]))))
        if b[0] == "vals":
            n = self.const_index(st, pos, 0, len(b[1]) - 1)
            return b[1][n]
        if b[0] == "cat":
            return self.vec_get(st, VecV(b[1], s.ety), pos)
        if s.ety == "u8":
            return IntV(L(atom(("byte", b, st.store.norm(pos)), BYTE)))
        ty = self.p.types[s.ety]
        if ty["k"] == "int" and ty["bits"] == 8 and not ty["signed"]:
            return IntV(L(atom(("byte", b, st.store.norm(pos)), BYTE)))
        return self.mk_sym(s.ety, ("el", b, st.store.norm(pos)))

    def write(self, st, cell, path, val):
        if isinstance(cell, SliceV):
            if cell.base[0] == "mem" and path:
                b = cell.base
                return self.write(st, b[1], b[2] + (("e", cell.off + path[0][1]),) + path[1:], val)
            raise Unmodelled("write into shared slice")
        if not path:
            st.put(cell, val)
            return
        st.put(cell, self.upd(st, self.cell_value(st, cell), path, val))

    def upd(self, st, v, path, val):
        if not path:
            return val
        p = path[0]
        if p[0] == "f":
            if isinstance(v, AggV) and v.ty != -9:
                if p[1] >= len(v.f):
                    raise Unmodelled("write field")
                f = list(v.f)
                f[p[1]] = self.upd(st, f[p[1]], path[1:], val)
                return AggV(v.ty, v.var, f)
            if v is UNINIT:
                # field-wise initialisation (through MaybeUninit or a fresh place)
                return AggV(-9, 0, [UNINIT] * p[1] + [self.upd(st, UNINIT, path[1:], val)])
            if isinstance(v, AggV) and v.ty == -9:
                f = list(v.f) + [UNINIT] * (p[1] + 1 - len(v.f))
                f[p[1]] = self.upd(st, f[p[1]], path[1:], val)
                return AggV(-9, 0, f)
            if isinstance(v, SymV):
                d = self.variant_of(st, v)
                if d is not None:
                    return self.upd(st, self.sym_variant(v, d), path, val)
            raise Unmodelled("write field of %r" % (v,))
        if p[0] == "v":
            if isinstance(v, SymV):
                v = self.sym_variant(v, p[1])
            if isinstance(v, AggV):
                if v.var != p[1]:
                    raise Infeasible()
                return self.upd(st, v, path[1:], val)
            raise Unmodelled("write variant of %r" % (v,))
        if p[0] == "e":
            if isinstance(v, AggV):
                i = self.const_index(st, p[1], 0, len(v.f) - 1)
                f = list(v.f)
                f[i] = self.upd(st, f[i], path[1:], val)
                return AggV(v.ty, v.var, f)
            if isinstance(v, VecV):
                return self.vec_set(st, v, p[1], path[1:], val)
        raise Unmodelled("write %s" % (p,))

    def vec_set(self, st, v, idx, path, val):
        out = []
        off = ZERO
        done = False
        for s in v.segs:
            nxt = off + seg_len(s)
            if done:
                out.append(s)
                continue
            inside = st.store.decide(("ge", nxt - idx - 1))
            if inside is None:
                raise Split([("ge", nxt - idx - 1), ("ge", idx - nxt)])
            if not inside:
                out.append(s)
                off = nxt
                continue
            cur = self.seg_get(st, s, idx - off, v.ety)
            new = self.upd(st, cur, path, val)
            done = True
            if s[0] == "el":
                out.append(("el", new))
            elif s[0] == "sub":
                sl = s[1]
                i = idx - off
                a = SliceV(sl.base, sl.off, i, sl.ety)
                b = SliceV(sl.base, sl.off + i + 1, sl.len - i - 1, sl.ety)
                if new == cur:
                    out.append(s)
                else:
                    out += [("sub", a), ("el", new), ("sub", b)]
            else:
                raise Unmodelled("write into %s segment" % s[0])
        if not done:
            raise Infeasible()
        return VecV(out, v.ety)

    # ------------------------------------------------------------ places and operands
    def loc(self, st, fr, place):
        cell = ("L", fr.depth, place[0])
        path = ()
        for p in place[1]:
            k = p[0]
            if k == "*":
                v = self.read(st, cell, path)
                cell, path = self.deref(st, v)
            elif k == ".":
                path = path + (("f", p[1], p[2]),)
            elif k == "v":
                path = path + (("v", p[1]),)
            elif k == "i":
                iv = self.read(st, ("L", fr.depth, p[1]), ())
                path = path + (("e", self.as_lin(st, iv)),)
            elif k == "ci":
                off, mn, fe = p[1], p[2], p[3]
                if fe:
                    n = self.place_len(st, cell, path)
                    path = path + (("e", n - off),)
                else:
                    path = path + (("e", K(off)),)
            elif k == "ss":
                frm, to, fe = p[1], p[2], p[3]
                n = self.place_len(st, cell, path)
                end = n - to if fe else K(to)
                if isinstance(cell, SliceV) and not path:
                    cell = SliceV(cell.base, cell.off + frm, end - frm, cell.ety)
                else:
                    cell = SliceV(("mem", cell, path), K(frm), end - frm, None)
                    path = ()
            elif k == "oc":
                pass
            else:
                raise Unmodelled("projection %s" % k)
        return cell, path

    def place_len(self, st, cell, path):
        if isinstance(cell, SliceV) and not path:
            return cell.len
        v = self.read(st, cell, path)
        if isinstance(v, AggV):
            return K(len(v.f))
        raise Unmodelled("len of %r" % (v,))

    def deref(self, st, v):
        if isinstance(v, RefV):
            return v.cell, v.path
        if isinstance(v, SliceV):
            return v, ()
        if isinstance(v, AggV) and len(v.f) >= 1:      # Box / Unique / NonNull wrapper
            return self.deref(st, v.f[0])
        if isinstance(v, OpaqueV):
            raise Unmodelled("deref of opaque %s" % (v.key,))
        raise Unmodelled("deref of %r" % (v,))

    def as_lin(self, st, v):
        if isinstance(v, IntV):
            return v.l
        if isinstance(v, BoolV):
            d = st.store.decide(v.c)
            if d is None:
                raise Split([v.c, simp_not(v.c)])
            return K(1 if d else 0)
        raise Unmodelled("int expected, got %r" % (v,))

    def as_cond(self, st, v):
        if isinstance(v, BoolV):
            return v.c
        if isinstance(v, IntV):
            return ("ne", v.l)
        if isinstance(v, OpaqueV):
            self.loopctr += 1
            return ("eq", L(atom(("unk", "cond", self.loopctr), BOOL)) - 1)
        raise Unmodelled("bool expected, got %r" % (v,))

    def const(self, t, val):
        k = val[0]
        ty = self.p.types[t]
        if k == "int":
            n = int(val[1])
            if ty["k"] == "bool":
                return TRUE if n else FALSE
            return IntV(K(n))
        if k == "fn":
            return FnV(val[1])
        if k == "fnptr":
            return FnV(val[1])
        if k == "zst":
            return self.zst(t)
        if k == "agg":
            if ty["k"] == "adt":
                if ty["path"].endswith("vec::Vec"):
                    return VecV((), ty["args"][0])
                fts = [ft for _, ft in ty["variants"][val[1]]["fields"]]
            elif ty["k"] == "tuple":
                fts = ty["elems"]
            else:
                fts = [None] * len(val[2])
            return AggV(t, val[1], [self.const(ft, x) if ft is not None else self.constx(x) for ft, x in zip(fts, val[2])])
        if k == "array":
            return AggV(t, 0, [self.const(ty["elem"], x) for x in val[1]])
        if k == "bytes":
            e = self.p.types[ty["elem"]] if ty["k"] in ("ref", "ptr") else None
            return SliceV(("const", tuple(val[1])), ZERO, K(len(val[1])), e["elem"] if e and e["k"] == "slice" else "u8")
        if k == "ref":
            inner = self.const(val[2], val[1])
            return RefV(("K", inner), ())
        if k == "slice":
            e = self.p.types[self.p.types[ty["elem"]]["elem"]]
            et = self.p.types[ty["elem"]]["elem"]
            vs = tuple(self.const(et, x) for x in val[1])
            return SliceV(("vals", vs), ZERO, K(len(vs)), et)
        if k == "static" and len(val) > 3 and val[3] is not None:
            return RefV(("K", self.const(val[4], val[3])), ())
        if k == "danglingref":
            return RefV(("K", AggV(t, 0, ())), ())
        return OpaqueV(("const", str(val)[:60], t), unk=True)

    def constx(self, x):
        return OpaqueV(("const", str(x)[:60]), unk=True)

    def zst(self, t):
        ty = self.p.types[t]
        k = ty["k"]
        if k == "fndef":
            return FnV(ty["fn"])
        if k == "array":
            return AggV(t, 0, ())
        if k == "adt":
            if ty["adt"] == "struct":
                return AggV(t, 0, [self.zst(ft) for _, ft in ty["variants"][0]["fields"]])
            return AggV(t, 0, ())
        if k == "tuple":
            return AggV(t, 0, [self.zst(e) for e in ty["elems"]])
        if k == "closure":
            return AggV(t, 0, [self.zst(e) for e in self.p.types[ty["upvars"]]["elems"]])
        return AggV(t, 0, ())

    def operand(self, st, fr, op):
        k = op[0]
        if k == "c" or k == "m":
            pl = op[1]
            if not pl[1]:
                v = st.fr[fr.depth].get(pl[0])
                if v is None:
                    v = UNINIT
                return v
            c, p = self.loc(st, fr, pl)
            return self.read(st, c, p)
        if k == "k":
            key = id(op)
            v = self.const_cache.get(key)
            if v is None:
                v = self.const(op[1], op[2])
                self.const_cache[key] = v
            return v
        if k == "rc":
            return FALSE        # runtime checks (ub_checks, overflow checks): disabled
        raise Unmodelled("operand %s" % k)

    def op_type(self, fr, op):
        if op[0] == "k":
            return op[1]
        pl = op[1]
        return self.place_type(fr, pl)

    def place_type(self, fr, pl):
        t = fr.body["locals"][pl[0]]
        for p in pl[1]:
            if p[0] == ".":
                t = p[2]
            elif p[0] == "*":
                ty = self.p.types[t]
                if ty["k"] == "adt":     # Box
                    t = ty["args"][0]
                else:
                    t = ty["elem"]
            elif p[0] in ("i", "ci"):
                t = self.p.types[t]["elem"]
            elif p[0] == "oc":
                t = p[1]
        return t

    # ------------------------------------------------------------ arithmetic
    def range_of(self, t):
        return self.p.int_range(t)

    def wrap(self, st, l, t):
        """value of l reduced into type t"""
        lo, hi = self.range_of(t)
        a, b = st.store.bounds(st.store.norm(l))
        if a >= lo and b <= hi:
            return IntV(l)
        in_lo = st.store.entails_ge(l - lo)
        in_hi = st.store.entails_ge(K(hi) - l)
        if in_lo and in_hi:
            return IntV(l)
        m = hi - lo + 1
        # number of wrap-around regions reachable
        ka, kb = (a - lo) // m, (b - lo) // m
        if kb - ka <= 3:
            cs = []
            for k in range(ka, kb + 1):
                c = ("and", ("ge", l - (lo + k * m)), ("ge", K(hi + k * m) - l))
                d = st.store.decide(c)
                if d is True:
                    return IntV(l - k * m)
                if d is None:
                    cs.append(c)
            if len(cs) == 1:
                raise Split(cs)
            raise Split(cs)
        # low part of a sum of scaled terms
        r = K(l.c % m) if lo == 0 else None
        if r is not None:
            for at, k in l.t:
                if k % m:
                    r = r + Lin(0, ((at, k % m if k > 0 else -((-k) % m)),))
            a, b = st.store.bounds(st.store.norm(r))
            if a >= lo and b <= hi:
                return IntV(r)
            return IntV(L(atom(("op", "wrap", l, (m - 1).bit_length()), ISet.rng(lo, hi))))
        self.loopctr += 1
        return IntV(L(atom(("unk", "wrap", self.loopctr), ISet.rng(lo, hi))))

    def binop(self, st, op, a, b, t, t2=None):
        """a, b values; t operand type"""
        p = self.p.types[t]
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            return self.compare(st, op, a, b, t)
        if op == "Cmp":
            raise Unmodelled("Cmp")
        if isinstance(a, BoolV) and isinstance(b, BoolV):
            if op == "BitAnd":
                return BoolV(mk_and(a.c, b.c))
            if op == "BitOr":
                return BoolV(mk_or(a.c, b.c))
            if op == "BitXor":
                return self.compare(st, "Ne", a, b, t)
        if op == "Offset":
            raise Unmodelled("pointer offset")
        if op == "BitAnd" and isinstance(a, (RefV, SliceV)):
            return IntV(K(0))           # compiler-inserted alignment check of a reference: always aligned
        if isinstance(a, OpaqueV) or isinstance(b, OpaqueV):
            if p["k"] == "int":
                return self.fresh_unk(t, "arith", st)
            raise Unmodelled("arith on opaque")
        x, y = self.as_lin(st, a), self.as_lin(st, b)
        x, y = st.store.norm(x), st.store.norm(y)
        if op in ("Add", "AddUnchecked"):
            return self.wrap(st, x + y, t)
        if op in ("Sub", "SubUnchecked"):
            return self.wrap(st, x - y, t)
        if op in ("Mul", "MulUnchecked"):
            return self.wrap(st, self.mul(st, x, y), t)
        if op == "Div":
            return self.div(st, x, y, t)
        if op == "Rem":
            return self.rem(st, x, y, t)
        if op in ("Shl", "ShlUnchecked"):
            n = self.const_index(st, y, 0, p["bits"] - 1)
            return self.shl(st, x, n % p["bits"], t)
        if op in ("Shr", "ShrUnchecked"):
            n = self.const_index(st, y, 0, p["bits"] - 1)
            return self.shr(st, x, n % p["bits"], t)
        if op == "BitAnd":
            return self.band(st, x, y, t)
        if op == "BitOr":
            return self.bor(st, x, y, t)
        if op == "BitXor":
            return self.bxor(st, x, y, t)
        raise Unmodelled("binop " + op)

    def bounded(self, st, key, dom, lo, hi):
        """the atom of an operation: its own domain is independent of the state, the bounds known here are facts of the state"""
        a = L(atom(key, dom))
        n = st.store.norm(a)
        if not n.isc():
            st.store.assume_in(n, ISet.rng(lo, hi))
        return a

    def mul(self, st, x, y):
        if x.isc():
            return y.scale(x.c)
        if y.isc():
            return x.scale(y.c)
        (a, b), (c, d) = st.store.bounds(x), st.store.bounds(y)
        if d - c <= 16:
            raise Split([("eq", y - v) for v in range(c, d + 1)])
        if b - a <= 16:
            raise Split([("eq", x - v) for v in range(a, b + 1)])
        ps = [a * c, a * d, b * c, b * d]
        return self.bounded(st, ("unk", "mul", x, y), WIDE, min(ps), max(ps))

    def div(self, st, x, y, t):
        if not y.isc():
            a, b = st.store.bounds(y)
            if b - a <= 64:
                raise Split([("eq", y - v) for v in range(a, b + 1) if v != 0])
            lo, hi = self.range_of(t)
            return IntV(self.bounded(st, ("unk", "div", x, y), WIDE, lo, hi))
        n = y.c
        if n == 0:
            raise Infeasible()
        if x.isc():
            q = abs(x.c) // abs(n)
            return IntV(K(q if (x.c < 0) == (n < 0) else -q))
        a, b = st.store.bounds(x)
        if (a < 0 and self.p.types[t].get("signed")) or n < 0:
            return self.fresh_unk(t, "sdiv", st)
        if n == 1:
            return IntV(x)
        # split off terms divisible by n
        q, r = self.split_mod(st, x, n)
        if r is None:
            return IntV(q)
        ra, rb = st.store.bounds(r)
        if 0 <= ra and rb < n:
            return IntV(q)
        if self.redigit(st, r, n):
            return self.div(st, st.store.norm(x), y, t)
        qa = self.divatom(st, r, n)
        return IntV(q + qa)

    def redigit(self, st, r, n):
        """a digit of another base whose weight shares a factor with n is itself split there: k*a = n*h + k*l with a = (n/g)*h + l"""
        if len(r.t) < 2:
            return False
        for a, k in r.t:
            g = math.gcd(k, n)
            if k > 0 and 1 < g and a.key[0] in ("quo", "rest") and not a.struct and a not in st.store.subst:
                lo, hi = st.store.bounds(L(a))
                m = n // g
                if lo >= 0 and hi >= m:
                    q, l = atom(("quo", a.key, 1, 0, m), WIDE), atom(("rest", a.key, 1, 0, m), ISet.rng(0, m - 1))
                    st.store.assume_in(L(q), ISet.rng(lo // m, hi // m))
                    st.store.add_subst(a, L(q).scale(m) + L(l))
                    return True
        return False

    def divatom(self, st, r, n):
        ra, rb = st.store.bounds(r)
        if ra < 0 or (len(r.t) == 1 and r.t[0][1] == 1 and not r.t[0][0].struct and rb >= 70000):
            # Euclidean decomposition r = n*q + m with fresh q, m
            q = atom(("quo", r, n), WIDE)
            m = atom(("rest", r, n), ISet.rng(0, n - 1))
            x = r.t[0][0]
            if len(r.t) == 1 and abs(r.t[0][1]) == 1 and not x.struct:
                q = atom(("quo", x.key, r.t[0][1], r.c, n), WIDE)
                m = atom(("rest", x.key, r.t[0][1], r.c, n), ISet.rng(0, n - 1))
                if x not in st.store.subst and st.store.natom(x) == L(x):
                    st.store.assume_in(L(q), ISet.rng(ra // n, rb // n))
                    st.store.add_subst(x, (L(q).scale(n) + L(m) - r.c).scale(r.t[0][1]))
                    return st.store.norm(L(q))
            st.store.assume_in(L(q), ISet.rng(ra // n, rb // n))
            st.store.assume_eq(r - L(q).scale(n) - L(m))
            return st.store.norm(L(q))
        qa = atom(("op", "div", r, n), NAT)
        st.store.assume_in(L(qa), ISet.rng(max(ra, 0) // n, rb // n))
        ma = atom(("op", "mod", r, n), ISet.rng(0, n - 1))
        # r = n*q + m
        st.store.assume_ge(r - L(qa).scale(n))
        st.store.assume_ge(L(qa).scale(n) + (n - 1) - r)
        return st.store.norm(L(qa))

    def split_mod(self, st, x, n):
        """x = n*q + r with the terms of x divisible by n in q (needs r >= 0)"""
        qt = tuple((a, k // n) for a, k in x.t if k % n == 0)
        rt = tuple((a, k) for a, k in x.t if k % n)
        qc, rc = divmod(x.c, n)
        q, r = Lin(qc, qt), Lin(rc, rt)
        if not rt:
            return (q, None) if rc == 0 else (q, r)
        return q, r

    def rem(self, st, x, y, t):
        if not y.isc():
            a, b = st.store.bounds(y)
            if b - a <= 64:
                raise Split([("eq", y - v) for v in range(a, b + 1) if v != 0])
            return self.fresh_unk(t, "rem", st)
        n = y.c
        if n == 0:
            raise Infeasible()
        if x.isc() and x.c >= 0:
            return IntV(K(x.c % abs(n)))
        a, b = st.store.bounds(x)
        if (a < 0 and self.p.types[t].get("signed")) or n < 0:
            return self.fresh_unk(t, "srem", st)
        q, r = self.split_mod(st, x, n)
        if r is None:
            return IntV(K(0))
        ra, rb = st.store.bounds(r)
        if 0 <= ra and rb < n:
            return IntV(r)
        if self.redigit(st, r, n):
            return self.rem(st, st.store.norm(x), y, t)
        qa = self.divatom(st, r, n)
        if len(lin_support(r)) == 1 and st.store.bounds(r)[1] < 70000:
            return IntV(L(atom(("op", "mod", r, n), ISet.rng(0, n - 1))))
        return IntV(st.store.norm(r - qa.scale(n)))

    def shl(self, st, x, n, t):
        ty = self.p.types[t]
        if n == 0:
            return IntV(x)
        m = 1 << ty["bits"]
        y = x.scale(1 << n)
        if ty["signed"]:
            return self.wrap(st, y, t)
        y = Lin(y.c % m, tuple((a, k) for a, k in y.t if k % m))
        return self.wrap(st, y, t)

    def shr(self, st, x, n, t):
        if n == 0:
            return IntV(x)
        ty = self.p.types[t]
        if ty["signed"]:
            a, _ = st.store.bounds(x)
            if a < 0:
                return self.fresh_unk(t, "sar", st)
        return self.div(st, x, K(1 << n), t)

    def band(self, st, x, y, t):
        if x.isc() and not y.isc():
            x, y = y, x
        if x.isc() and y.isc():
            return IntV(K(x.c & y.c))
        ax, bx = st.store.bounds(x)
        if y.isc() and ax >= 0:
            m = y.c
            if m < 0:
                return self.fresh_unk(t, "band", st)
            if m == 0:
                return IntV(K(0))
            if m & (m + 1) == 0:
                return self.rem(st, x, K(m + 1), t)
            if len(lin_support(x)) == 1 and bx < 70000:
                return IntV(self.bounded(st, ("op", "and", x, y), ISet.rng(0, m), 0, min(bx, m)))
            # single bit or shifted mask of a scaled sum: try to isolate
            low = (m & -m).bit_length() - 1
            if (m >> low) & ((m >> low) + 1) == 0 and low:
                q = self.div(st, x, K(1 << low), t)
                r = self.rem(st, q.l, K((m >> low) + 1), t)
                return IntV(r.l.scale(1 << low))
            return IntV(self.bounded(st, ("op", "and", x, y), ISet.rng(0, m), 0, min(bx, m)))
        ay, by = st.store.bounds(y)
        if ax >= 0 and ay >= 0:
            if by - ay <= 16:
                raise Split([("eq", y - v) for v in range(ay, by + 1)])
            if len(lin_support(y)) == 1 and st.store.dom(list(lin_support(y))[0]).count() <= 16:
                b = list(lin_support(y))[0]
                raise Split([("eq", L(b) - v) for v in st.store.dom(b)])
            return IntV(self.bounded(st, ("op", "and", x, y), NAT, 0, min(bx, by)))
        return self.fresh_unk(t, "band", st)

    def bor(self, st, x, y, t):
        if x.isc() and y.isc():
            return IntV(K(x.c | y.c))
        if x.isc() and x.c == 0:
            return IntV(y)
        if y.isc() and y.c == 0:
            return IntV(x)
        for a, b in ((x, y), (y, x)):
            lo, hi = st.store.bounds(b)
            if lo >= 0:
                k = 1 << hi.bit_length()
                la, _ = st.store.bounds(a)
                if la >= 0 and a.c % k == 0 and all(c % k == 0 for _, c in a.t):
                    return IntV(a + b)
        bx_, by_ = bitform(st, x), bitform(st, y)
        if bx_ is not None and by_ is not None:
            r = bit_or(bx_, by_)
            if r is not None:
                return IntV(r)
        # non-zero op-atoms (and-masks) are multiples of their lowest mask bit
        for a, b in ((x, y), (y, x)):
            lo, hi = st.store.bounds(b)
            if lo >= 0 and a.t and all(self.term_multiple(at, c, 1 << hi.bit_length()) for at, c in a.t) and a.c % (1 << hi.bit_length()) == 0:
                return IntV(a + b)
        (ax, bx), (ay, by) = st.store.bounds(x), st.store.bounds(y)
        for z, (lo, hi) in ((x, (ax, bx)), (y, (ay, by))):
            if not z.isc() and hi - lo <= 8:
                raise Split([("eq", z - v) for v in range(lo, hi + 1)])
            ds = [st.store.dom(a) for a in z.atoms()]
            if len(ds) == 1 and ds[0].count() <= 8:
                raise Split([("eq", L(z.atoms()[0]) - v) for v in ds[0]])
        if ax >= 0 and ay >= 0:
            hi = (1 << max(bx.bit_length(), by.bit_length())) - 1
            return IntV(self.bounded(st, ("op", "or", x, y), NAT, max(ax, ay), hi))
        return self.fresh_unk(t, "bor", st)

    def term_multiple(self, a, c, k):
        if c % k == 0:
            return True
        if a.key[0] == "op" and a.key[1] == "and" and isinstance(a.key[3], Lin) and a.key[3].isc():
            m = a.key[3].c
            return (c * (m & -m)) % k == 0
        return False

    def bxor(self, st, x, y, t):
        if x.isc() and y.isc():
            return IntV(K(x.c ^ y.c))
        if y.isc() and y.c == 0:
            return IntV(x)
        if x.isc() and x.c == 0:
            return IntV(y)
        bx_, by_ = bitform(st, x), bitform(st, y)
        if bx_ is not None and by_ is not None:
            r = bit_xor(bx_, by_)
            if r is not None:
                return IntV(r)
        (ax, bx), (ay, by) = st.store.bounds(x), st.store.bounds(y)
        if ax >= 0 and ay >= 0:
            hi = (1 << max(bx.bit_length(), by.bit_length())) - 1
            return IntV(self.bounded(st, ("op", "xor", x, y), NAT, 0, hi))
        return self.fresh_unk(t, "bxor", st)

    def compare(self, st, op, a, b, t=None):
        if isinstance(a, BoolV) and isinstance(b, BoolV):
            da, db = st.store.decide(a.c), st.store.decide(b.c)
            if op in ("Eq", "Ne"):
                eq = op == "Eq"
                if db is not None:
                    return BoolV(a.c if db == eq else simp_not(a.c))
                if da is not None:
                    return BoolV(b.c if da == eq else simp_not(b.c))
                raise Split([b.c, simp_not(b.c)])
        if isinstance(a, (RefV, SliceV, FnV)) or isinstance(b, (RefV, SliceV, FnV)):
            if op in ("Eq", "Ne") and a == b:
                return TRUE if op == "Eq" else FALSE
            if op in ("Eq", "Ne") and isinstance(b, IntV) and b.l == ZERO:
                return FALSE if op == "Eq" else TRUE      # compiler-inserted null check
            raise Unmodelled("pointer comparison")
        if isinstance(a, OpaqueV) or isinstance(b, OpaqueV):
            self.loopctr += 1
            return BoolV(("eq", L(atom(("unk", "cmp", self.loopctr), BOOL)) - 1))
        x, y = self.as_lin(st, a), self.as_lin(st, b)
        return BoolV(cmp_cond(op, x, y))

    def unop(self, st, op, a, t):
        if op == "Not":
            if isinstance(a, BoolV):
                return BoolV(simp_not(a.c))
            x = self.as_lin(st, a)
            lo, hi = self.range_of(t)
            return IntV(K(hi) - x) if lo == 0 else IntV(K(-1) - x)
        if op == "Neg":
            return self.wrap(st, -self.as_lin(st, a), t)
        if op == "PtrMetadata":
            if isinstance(a, SliceV):
                return IntV(a.len)
            return UNIT
        raise Unmodelled("unop " + op)

    def discr(self, st, v):
        if isinstance(v, AggV):
            ty = self.p.types[v.ty]
            if ty["k"] == "adt" and ty["adt"] == "enum":
                return IntV(K(int(ty["variants"][v.var]["discr"])))
            return IntV(K(0))
        if isinstance(v, SymV):
            vs = self.p.types[v.ty]["variants"]
            da = v.datom()
            n = st.store.norm(L(da))
            if n.isc():
                return IntV(K(int(vs[n.c]["discr"])))
            ds = [int(x["discr"]) for x in vs]
            off = ds[0]
            if all(d == off + i for i, d in enumerate(ds)):
                return IntV(n + off)
            raise Split([("eq", n - i) for i in v.dom])
        if isinstance(v, OpaqueV):
            self.loopctr += 1
            return IntV(L(atom(("unk", "discr", self.loopctr), ISet.rng(0, 64))))
        raise Unmodelled("discriminant of %r" % (v,))

    def cast(self, st, kind, v, t, st_t):
        ty = self.p.types[t]
        if kind == "IntToInt":
            if isinstance(v, OpaqueV):
                return self.fresh_unk(t, "cast", st)
            if isinstance(v, (AggV, SymV)):
                v = self.discr(st, v)
            l = self.as_lin(st, v)
            if ty["k"] == "int":
                return self.wrap(st, l, t)
            return IntV(l)
        if kind.startswith("PointerCoercion(Unsize"):
            if isinstance(v, SliceV):
                return v
            if isinstance(v, RefV):
                e = self.p.types[ty["elem"]] if ty["k"] in ("ref", "ptr") else None
                if e and e["k"] == "slice":
                    arr = self.read(st, v.cell, v.path)
                    if isinstance(arr, AggV):
                        return self.array_slice(st, v.cell, v.path, arr, e["elem"])
                return v
            return v
        if kind in ("PtrToPtr", "BoxDerefTransmute") or kind.startswith("PointerCoercion(ReifyFnPointer") or kind.startswith("PointerCoercion(ClosureFnPointer") or kind.startswith("PointerCoercion(MutToConst") or kind.startswith("PointerCoercion(UnsafeFnPointer"):
            if kind == "BoxDerefTransmute" and isinstance(v, AggV):
                c, p = self.deref(st, v)
                return c if isinstance(c, SliceV) else RefV(c, p)
            return v
        if kind == "Transmute":
            return self.transmute(st, v, t, st_t)
        if kind == "Subtype":
            return v
        raise Unmodelled("cast " + kind)

    def array_slice(self, st, cell, path, arr, ety):
        if cell[0] == "K" and not path:
            if all(isinstance(x, IntV) and x.l.isc() and 0 <= x.l.c < 256 for x in arr.f) and self.p.types[ety].get("bits") == 8:
                return SliceV(("const", tuple(x.l.c for x in arr.f)), ZERO, K(len(arr.f)), ety)
            return SliceV(("vals", arr.f), ZERO, K(len(arr.f)), ety)
        return SliceV(("mem", cell, path), ZERO, K(len(arr.f)), ety)

    def transmute(self, st, v, t, st_t):
        ty = self.p.types[t]
        if ty["k"] in ("ref", "ptr"):
            if isinstance(v, (RefV, SliceV)):
                return v
            if isinstance(v, AggV):
                c, p = self.deref(st, v)
                return c if isinstance(c, SliceV) else RefV(c, p)
        if ty["k"] == "int":
            if isinstance(v, IntV):
                return self.wrap(st, v.l, t)
            if isinstance(v, BoolV):
                return IntV(self.as_lin(st, v))
            if isinstance(v, AggV) and (v.ty == -2 or self.p.types[v.ty]["k"] == "array"):
                # native-endian (little) bytes to integer
                l = ZERO
                for i, x in enumerate(v.f):
                    l = l + self.as_lin(st, x).scale(256 ** i)
                return self.wrap(st, l, t)
        if ty["k"] == "char" and isinstance(v, IntV):
            return v
        if ty["k"] == "array" and isinstance(v, IntV):
            n = ty["len"]
            return AggV(t, 0, [self.byte_of(st, v.l, i, n) for i in range(n)])
        if ty["k"] == "adt" and isinstance(v, IntV) and re.match(r"std::option::Option<std::num::NonZero<", ty["s"]):
            d = st.store.decide(("ne", v.l))
            if d is None:
                raise Split([("ne", v.l), ("eq", v.l)])
            k = self.p.variant(t, "Some" if d else "None")
            return AggV(t, k, (AggV(ty["variants"][k]["fields"][0][1], 0, (v,)),) if d else ())
        if isinstance(v, (RefV, SliceV, VecV)):
            return v
        raise Unmodelled("transmute to %s" % ty["s"])

    def byte_of(self, st, l, i, n):
        """i-th least significant byte of a (possibly negative) n-byte integer"""
        l = st.store.norm(l)
        lo, hi = st.store.bounds(l)
        if lo < 0:
            d = st.store.decide(("ge", l))
            if d is None:
                raise Split([("ge", l), ("ge", -l - 1)])
            if d is False:
                l = l + (1 << (8 * n))
        if l.isc():
            return IntV(K((l.c >> (8 * i)) & 255))
        # exact base-256 digit decomposition?
        ks = {}
        rest = False
        for a, k in l.t:
            if k > 0 and k & (k - 1) == 0 and (k.bit_length() - 1) % 8 == 0:
                d = st.store.dom(a)
                j = (k.bit_length() - 1) // 8
                if d.lo >= 0 and d.hi <= 255 and j not in ks:
                    ks[j] = a
                    continue
            rest = True
        if not rest and l.c == 0:
            return IntV(L(ks[i]) if i in ks else K(0))
        lo, hi = st.store.bounds(l)
        if hi < (1 << (8 * i)):
            return IntV(K(0))
        if i == 0 and (hi < 256 or st.store.entails_ge(K(255) - l)):
            return IntV(l)
        return IntV(self.bounded(st, ("op", "digit", l, i), BYTE, 0, min(255, hi >> (8 * i))))

    # ------------------------------------------------------------ rvalues
    def rvalue(self, st, fr, r):
        k = r[0]
        if k == "use":
            return self.operand(st, fr, r[1])
        if k == "ref" or k == "addr":
            c, p = self.loc(st, fr, r[1])
            if isinstance(c, SliceV) and not p:
                return c
            return RefV(c, p)
        if k == "agg":
            ops = [self.operand(st, fr, o) for o in r[4]]
            if r[1] == "rawptr":
                if isinstance(ops[0], RefV) and isinstance(ops[1], IntV):
                    raise Unmodelled("raw slice pointer")
                return ops[0]
            if r[1] == "array":
                return AggV(-2, 0, ops)
            return AggV(r[2], r[3] if r[1] == "adt" else 0, ops)
        if k == "bin":
            t = self.op_type(fr, r[2])
            return self.binop(st, r[1], self.operand(st, fr, r[2]), self.operand(st, fr, r[3]), t)
        if k == "cbin":
            t = self.op_type(fr, r[2])
            return self.checked(st, r[1], self.operand(st, fr, r[2]), self.operand(st, fr, r[3]), t)
        if k == "un":
            t = self.op_type(fr, r[2])
            return self.unop(st, r[1], self.operand(st, fr, r[2]), t)
        if k == "cast":
            return self.cast(st, r[1], self.operand(st, fr, r[2]), r[3], self.op_type(fr, r[2]))
        if k == "discr":
            c, p = self.loc(st, fr, r[1])
            return self.discr(st, self.read(st, c, p))
        if k == "len":
            c, p = self.loc(st, fr, r[1])
            return IntV(self.place_len(st, c, p))
        if k == "repeat":
            v = self.operand(st, fr, r[1])
            return AggV(-2, 0, [v] * int(r[2]))
        raise Unmodelled("rvalue " + k)

    def checked(self, st, op, a, b, t):
        x, y = self.as_lin(st, a), self.as_lin(st, b)
        x, y = st.store.norm(x), st.store.norm(y)
        lo, hi = self.range_of(t)
        if op == "Add":
            r = x + y
        elif op == "Sub":
            r = x - y
        elif op == "Mul":
            r = self.mul(st, x, y)
        else:
            raise Unmodelled("checked " + op)
        a1, b1 = st.store.bounds(r)
        over = ("false",)
        if b1 > hi and not st.store.entails_ge(K(hi) - r):
            over = ("ge", r - hi - 1)
        if a1 < lo and not st.store.entails_ge(r - lo):
            c = ("ge", K(lo - 1) - r)
            over = c if over[0] == "false" else ("or", c, over)
        return AggV(-3, 0, [IntV(r), BoolV(over)])

    # ------------------------------------------------------------ control
    def alarm(self, st, fr, kind, msg, line, file, cond=None):
        key = (fr.f["path"] if fr else "?", kind, msg)
        self.obls[key] = False
        if self.mute:
            return
        self.alarms.append(dict(fn=key[0], kind=kind, msg=msg, line=line, file=file, state=st.fork(),
                                unk=(cond is not None and has_unk(cond)) or bool(st.taint),
                                taint=st.taint, entry=self.entry_name, cond=cond))

    def obligation(self, st, fr, cond, kind, msg, line=0, file=""):
        """cond must hold; returns False if the state dies"""
        key = (fr.f["path"] if fr else "?", kind, msg)
        d = st.store.decide(cond)
        if d is True:
            self.obls.setdefault(key, True)
            return True
        if d is None:
            # try harder: negation infeasible?
            t = st.fork()
            try:
                if not t.store.assume(simp_not(cond)) or t.store.infeasible():
                    self.obls.setdefault(key, True)
                    st.store.assume(cond)
                    return True
            except Split:
                raise Split([cond, simp_not(cond)])
            self.alarm(t, fr, kind, msg, line, file, cond)
        else:
            self.alarm(st, fr, kind, msg, line, file, cond)
            return False
        return self.assume(st, cond)

    def assume(self, st, cond):
        """refine; may raise Split for disjunctions"""
        if has_unk(cond) and st.store.decide(cond) is None:
            st.taint = st.taint or "branch on unmodelled value"
        return st.store.assume(cond)

    def run_entry(self, name, args=None, st=None, pre=None, prefix=""):
        fid = self.p.entries[name]
        self.entry_name = name
        f = self.p.fns[fid]
        body = f["body"]
        st = st or State()
        if args is None:
            args = [self.mk_sym(body["locals"][1 + i], (prefix + self.arg_name(body, i),)) for i in range(body["argc"])]
        self.entry_args = args
        if pre is not None:
            st = st.fork()
            if pre(self, st, args) is False:
                return []
        return self.exec_fn(fid, args, st.fork(), None)

    # formatting machinery: an argument's Debug/Display implementation runs when the string is rendered;
    # it is analysed on the spot (its only effect is on the formatter)
    def fmt_note(self, c, arg):
        pass

    def fmt_call(self, c, fid, arg):
        f = self.p.fns[fid]
        for s in self.stack:
            if s[0] == fid:
                self.note_rec(fid, f, [arg], c.st, s, c.caller)
                return
        st = c.st.fork()
        self.exec_fn(fid, [arg, c.temp(OpaqueV(("formatter",)), st)], st, f["body"]["locals"][0] if f["body"] else None, c.caller, c.site)

    # hooks (overridden by the rule sets)
    def on_rec(self, fid, f, args, st):
        return False

    def rec_write(self, fid, f, args, st, key, rty):
        return None

    def arg_name(self, body, i):
        nm = body.get("names") or {}
        n = nm.get(str(i + 1)) if isinstance(nm, dict) else None
        return n or "a%d" % i

    def exec_fn(self, fid, args, st, rty, caller=None, site=None):
        """list of (state, value)"""
        f = self.p.fns[fid]
        self.steps += 1
        if self.steps > self.MAX_STEPS:
            raise Budget()
        nat = self.natives.lookup(self, f)
        if nat is not None:
            r = self.call_native(nat, f, args, st, rty, caller, site)
            if r is not None:
                return r
        if not f["body"]:
            return self.unmodelled_call(f, args, st, rty, caller, site)
        for s in self.stack:
            if s[0] == fid:
                return self.recursive_call(fid, f, args, st, s, caller, site)
        if fid in self.enc_full:
            a = self.adapt_args(f, f["body"], args)
            wi = self.writer_arg(st, a)
            if wi is not None:
                return self.write_call(fid, f, a, wi, st)
        if len(self.stack) > 120:
            raise Unmodelled("call depth")
        if self.no_modular is not True and self.no_modular != fid and self.modular(fid, f):
            r = self.modular_call(fid, f, args, st)
            if r is not None:
                return r
        if f["krate"] == "der_parser":
            self.reached.add(fid)
        elif f["krate"] != "harness":
            self.called_ext.add(fid)
        body = f["body"]
        args = self.adapt_args(f, body, args)
        depth = st.push()
        for i, a in enumerate(args):
            st.fr[depth][i + 1] = a
        fr = Frame(fid, f, depth)
        self.stack.append((fid, args, st.store.copy()))
        try:
            outs = self.exec_blocks(fr, 0, st, None)
        finally:
            self.stack.pop()
        res = []
        for o in outs:
            assert o[0] == "ret"
            s = o[1]
            v = s.fr[depth].get(0, UNIT)
            del s.fr[depth:]
            s.own.discard(depth)
            res.append((s, v))
        if len(res) > 1:
            res = self.merge(res)
        return res

    def rust_call(self, fid):
        """does this function use the closure calling convention (last MIR operand is the argument tuple)"""
        f = self.p.fns[fid]
        return f["closure"] or bool(f["body"] and f["body"].get("spread"))

    def adapt_args(self, f, body, args):
        """arguments are always passed untupled; bodies with a spread argument collect them again"""
        n = body["argc"]
        if body.get("spread"):
            k = n - 1
            return list(args[:k]) + [AggV(-1, 0, args[k:])]
        if len(args) != n:
            raise Unmodelled("argument count for " + f["name"])
        return args

    def call_native(self, nat, f, args, st, rty, caller, site):
        work = [st]
        out = []
        n = 0
        while work:
            s = work.pop()
            n += 1
            if n > 600:
                raise Unmodelled("native split explosion in " + f["name"])
            base = s.fork()
            try:
                r = nat(self, f, args, s, rty, caller, site)
                if r is None:
                    return None if not out else self._err_native(f)
                out += r
            except Split as sp:
                for c in sp.conds:
                    t = base.fork()
                    self.split_assume(t, c, work)
            except Infeasible:
                pass
        return out

    def _err_native(self, f):
        raise Unmodelled("native partially applied " + f["name"])

    def split_assume(self, t, c, work):
        """assume c in t (expanding disjunctions) and push the feasible results"""
        try:
            if self.assume(t, c) and not t.store.bot:
                work.append(t)
        except Split as sp:
            for d in sp.conds:
                u = t.fork()
                self.split_assume(u, mk_and(c, d) if False else d, tmp := [])
                for x in tmp:
                    try:
                        if self.assume(x, c):
                            work.append(x)
                    except Split:
                        raise Unmodelled("nested split")

    def unmodelled_call(self, f, args, st, rty, caller, site):
        key = f["path"]
        self.unmodelled[key] = self.unmodelled.get(key, 0) + 1
        st.taint = st.taint or ("unmodelled call to " + key)
        # pointed-to memory passed by &mut may change: havoc is not attempted, the state is tainted
        if rty is None:
            raise Unmodelled("call to " + key)
        if self.p.types[rty]["k"] == "never":
            return []
        return [(st, self.fresh_unk(rty, key, st))]

    # ------------------------------------------------------------ blocks
    def exec_blocks(self, fr, bb, st, loop):
        """run from block bb; loop = (header, blockset) when executing one iteration.
        returns list of ('ret', st) | ('back', st) | ('exit', bb, st)"""
        cfg = self.p.cfg(fr.fid)
        outs = []
        work = [(bb, st, True)]
        first = True
        while work:
            b, s, fresh = work.pop()
            if loop is not None and not (first and b == loop[0]):
                if b == loop[0]:
                    self.trim(fr, cfg, b, s)
                    outs.append(("back", s))
                    continue
                if b not in loop[1]:
                    outs.append(("exit", b, s))
                    continue
            if b in cfg.headers and not (loop is not None and b == loop[0]) and fresh:
                self.trim(fr, cfg, b, s)
                for o in self.run_loop_mir(fr, b, s):
                    if o[0] == "ret":
                        outs.append(o)
                    else:
                        work.append((o[1], o[2], True))
                continue
            first = False
            if work and self.deadline and time.monotonic() > self.deadline:
                # out of time: one path per function is still followed to its end
                self.drop_path(fr, Unmodelled("time budget"))
                work = []
            if len(work) + len(outs) > self.MAX_STATES:
                self.drop_path(fr, Unmodelled("state explosion in " + fr.f["name"]))
                return outs
            try:
                nxt = self.exec_block(fr, cfg, b, s)
            except Unmodelled as e:
                self.drop_path(fr, e)
                nxt = []
            except RecursionError:
                if len(work) > 200 or fr.depth > 60:
                    raise
                self.drop_path(fr, Unmodelled("cyclic facts"))
                nxt = []
            for n in nxt:
                if n[0] is None:
                    outs.append(("ret", n[1]))
                else:
                    work.append((n[0], n[1], True))
        return outs

    def drop_path(self, fr, e):
        """a construct the analysis does not model: the path is abandoned and reported as not covered"""
        self.incomplete.append((fr.f["path"], e.what))
        if self.DEBUG:
            import traceback
            print("INCOMPLETE", fr.f["path"], e.what)
            traceback.print_exc(limit=-4)

    def trim(self, fr, cfg, b, s):
        live = cfg.live_in[b]
        d = s.fr[fr.depth]
        dead = [k for k in d if k not in live]
        if dead:
            if fr.depth not in s.own:
                d = dict(d)
                s.fr[fr.depth] = d
                s.own.add(fr.depth)
            for k in dead:
                del d[k]

    def exec_block(self, fr, cfg, b, st):
        """returns list of (next bb | None for return, state)"""
        blk = fr.body["blocks"][b]
        states = [st]
        for stmt in blk["s"]:
            self.steps += 1
            if stmt[0] == "=":
                if len(states) == 1:
                    states = self.exec_stmt(fr, stmt, states[0])
                else:
                    ns = []
                    for s in states:
                        ns += self.exec_stmt(fr, stmt, s)
                    states = ns
                if not states:
                    return []
            elif stmt[0] == "sd":
                for s in states:
                    c, p = self.loc(s, fr, stmt[1])
                    v = self.read(s, c, p)
                    if isinstance(v, AggV):
                        self.write(s, c, p, AggV(v.ty, stmt[2], v.f))
            elif stmt[0] == "unk":
                raise Unmodelled("statement")
        if self.steps > self.MAX_STEPS:
            raise Budget()
        out = []
        for s in states:
            out += self.exec_term(fr, cfg, blk["t"], s)
        return out

    def exec_stmt(self, fr, stmt, st):
        out = []
        work = [st]
        n = 0
        while work:
            s = work.pop()
            try:
                v = self.rvalue(s, fr, stmt[2])
                pl = stmt[1]
                if not pl[1]:
                    s.put(("L", fr.depth, pl[0]), v)
                else:
                    c, p = self.loc(s, fr, pl)
                    self.write(s, c, p, v)
                out.append(s)
            except Split as sp:
                n += 1
                if n > 3000:
                    raise Unmodelled("split explosion")
                for c in sp.conds:
                    self.split_assume(s.fork(), c, work)
            except Infeasible:
                pass
        return out

    def exec_term(self, fr, cfg, t, st):
        k = t[0]
        if k == "goto":
            return [(t[1], st)]
        if k == "return":
            return [(None, st)]
        if k in ("unreachable", "resume", "abort"):
            return []
        if k == "drop":
            return [(t[2], st)]
        if k == "switch":
            return self.exec_switch(fr, t, st)
        if k == "assert":
            return self.exec_assert(fr, t, st)
        if k == "call":
            return self.exec_call(fr, t, st)
        raise Unmodelled("terminator " + k)

    def with_splits(self, st, fn):
        work = [st]
        out = []
        n = 0
        while work:
            s = work.pop()
            try:
                out += fn(s)
            except Split as sp:
                n += 1
                if n > 3000:
                    raise Unmodelled("split explosion")
                for c in sp.conds:
                    self.split_assume(s.fork(), c, work)
            except Infeasible:
                pass
        return out

    def exec_switch(self, fr, t, st):
        def go(s):
            v = self.operand(s, fr, t[1])
            if isinstance(v, BoolV):
                d = s.store.decide(v.c)
                tgt = {int(x): b for x, b in t[2]}
                bt, bf = tgt.get(1, t[3]), tgt.get(0, t[3])
                if d is True:
                    return [(bt, s)]
                if d is False:
                    return [(bf, s)]
                res = []
                s2 = s.fork()
                for c, b, x in ((v.c, bt, s), (simp_not(v.c), bf, s2)):
                    w = []
                    self.split_assume(x, c, w)
                    for y in w:
                        if y.store.ineqs and y.store.infeasible():
                            continue
                        y.trace = ((fr.f["path"], fmt_cond(c)), y.trace)
                        res.append((b, y))
                return res
            if isinstance(v, OpaqueV):
                s.taint = s.taint or "switch on unmodelled value"
                return [(b, s.fork()) for _, b in t[2]] + [(t[3], s.fork())]
            l = s.store.norm(self.as_lin(s, v))
            if l.isc():
                for x, b in t[2]:
                    if int(x) == l.c:
                        return [(b, s)]
                return [(t[3], s)]
            if has_unk(l):
                s.taint = s.taint or "branch on unmodelled value"
            res = []
            seen = []
            for x, b in t[2]:
                if s.store.decide(("eq", l - int(x))) is False:
                    continue
                y = s.fork()
                if y.store.assume_eq(l - int(x)) and not (y.store.ineqs and y.store.infeasible()):
                    y.trace = ((fr.f["path"], "%r == %s" % (l, x)), y.trace)
                    res.append((b, y))
                seen.append(int(x))
            y = s
            ok = True
            for x in seen:
                if not y.store.assume_ne(l - x):
                    ok = False
                    break
            if ok and not (y.store.ineqs and y.store.infeasible()):
                y.trace = ((fr.f["path"], "%r not in %s" % (l, seen)), y.trace)
                res.append((t[3], y))
            return res
        return self.with_splits(st, go)

    def exec_assert(self, fr, t, st):
        def go(s):
            v = self.operand(s, fr, t[1])
            c = self.as_cond(s, v)
            if not t[2]:
                c = simp_not(c)
            if self.obligation(s, fr, c, "assert", t[3], t[5], t[6]):
                return [(t[4], s)]
            return []
        return self.with_splits(st, go)

    def exec_call(self, fr, t, st):
        def go(s):
            fv = self.operand(s, fr, t[1])
            args = [self.operand(s, fr, a) for a in t[2]]
            if not isinstance(fv, FnV):
                raise Unmodelled("call through %r" % (fv,))
            rty = self.place_type(fr, t[3])
            if len(s.fr) - 1 > fr.depth:
                raise Unmodelled("frame mismatch")
            if args and self.rust_call(fv.fid):
                if not isinstance(args[-1], AggV):
                    raise Unmodelled("argument tuple")
                args = args[:-1] + list(args[-1].f)
            rs = self.exec_fn(fv.fid, args, s, rty, caller=fr, site=(t[5], t[6]))
            out = []
            for s2, v in rs:
                if t[4] is None:
                    continue
                pl = t[3]
                if not pl[1]:
                    s2.put(("L", fr.depth, pl[0]), v)
                else:
                    c, p = self.loc(s2, fr, pl)
                    self.write(s2, c, p, v)
                out.append((t[4], s2))
            return out
        return self.with_splits(st, go)

    def call_value(self, fval, args, st, rty, caller, site):
        """call a callable value (fn item, closure, reference to one) with untupled args"""
        v = fval
        if isinstance(v, FnV):
            return self.exec_fn(v.fid, list(args), st, rty, caller, site)
        ref = None
        while isinstance(v, RefV):
            ref = v
            v = self.read(st, v.cell, v.path)
        if isinstance(v, FnV):
            return self.exec_fn(v.fid, list(args), st, rty, caller, site)
        if isinstance(v, AggV) and self.p.types.get(v.ty, {}).get("k") == "closure":
            insts = self.p.types[v.ty]["insts"]
            for kind in ("Fn", "FnMut", "FnOnce"):
                if kind in insts:
                    fid = insts[kind]
                    f = self.p.fns[fid]
                    if f.get("kind") == "shim":
                        continue
                    body = f["body"]
                    selfty = self.p.types[body["locals"][1]]
                    if selfty["k"] == "ref":
                        if ref is None:
                            st.nheap += 1
                            cell = ("T", st.nheap)
                            st.put(cell, v)
                            ref = RefV(cell, ())
                        a0 = ref
                    else:
                        a0 = v
                    return self.exec_fn(fid, [a0] + list(args), st, rty, caller, site)
        raise Unmodelled("call of %r" % (fval,))

    # ------------------------------------------------------------ merging
    def merge(self, res):
        """join outcomes that differ only in the value set of a single atom"""
        if len(res) > 80:
            return res
        changed = True
        while changed and len(res) > 1:
            changed = False
            for i in range(len(res)):
                for j in range(i + 1, len(res)):
                    m = self.merge2(res[i], res[j])
                    if m is not None:
                        res = [r for k, r in enumerate(res) if k not in (i, j)] + [m]
                        changed = True
                        break
                if changed:
                    break
        return res

    def merge2(self, a, b):
        (sa, va), (sb, vb) = a, b
        if va != vb or sa.taint != sb.taint:
            return None
        A, B = sa.store, sb.store
        if A.ineqs != B.ineqs or A.facts != B.facts or A.allin != B.allin:
            return None
        if sa.heap is not sb.heap and sa.heap != sb.heap:
            return None
        if len(sa.fr) != len(sb.fr) or any(x is not y and x != y for x, y in zip(sa.fr, sb.fr)):
            return None
        # differences in vs / constant substitutions of exactly one atom (op atoms derived from it may go)
        diff = set()
        for at in set(A.vs) | set(B.vs) | set(A.subst) | set(B.subst):
            if A.subst.get(at) != B.subst.get(at) or A.vs.get(at) != B.vs.get(at):
                diff.add(at)
                if len(diff) > 6:
                    return None
        base = [x for x in diff if x.key[0] != "op"]
        if not diff:
            return a
        if len(base) != 1:
            return None
        x = base[0]
        if any(support(o) - {x} for o in diff):
            return None

        def vset(S):
            r = S.subst.get(x)
            if r is not None:
                return ISet.rng(r.c, r.c) if r.isc() else None
            return S.vs.get(x, x.dom)
        da, db = vset(A), vset(B)
        if da is None or db is None:
            return None
        u = da.join(db)
        # x must not occur in structured atoms / other facts that were rewritten
        for S in (A, B):
            if S.subst.get(x) is not None:
                for r in S.subst.values():
                    pass
        s = sa.fork()
        for o in diff:
            s.store.subst.pop(o, None)
            s.store.vs.pop(o, None)
        s.store._fm = {}
        if u.count() == 1:
            if not s.store.assume_in(L(x), u):
                return None
        elif u != x.dom:
            s.store.vs[x] = u
        return (s, va)


def mk_and(a, b):
    if a[0] == "true":
        return b
    if b[0] == "true":
        return a
    if a[0] == "false" or b[0] == "false":
        return ("false",)
    return ("and", a, b)


def mk_or(a, b):
    if a[0] == "false":
        return b
    if b[0] == "false":
        return a
    if a[0] == "true" or b[0] == "true":
        return ("true",)
    return ("or", a, b)


def cmp_cond(op, x, y):
    d = x - y
    if d.isc():
        r = {"Eq": d.c == 0, "Ne": d.c != 0, "Lt": d.c < 0, "Le": d.c <= 0, "Gt": d.c > 0, "Ge": d.c >= 0}[op]
        return ("true",) if r else ("false",)
    if op == "Eq":
        return ("eq", d)
    if op == "Ne":
        return ("ne", d)
    if op == "Lt":
        return ("ge", -d - 1)
    if op == "Le":
        return ("ge", -d)
    if op == "Gt":
        return ("ge", d - 1)
    return ("ge", d)


from loops import LoopMixin     # noqa: E402  (needs the definitions above)


class Engine(LoopMixin, EngineCore):
    pass
