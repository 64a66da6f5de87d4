"""Abstract values. All immutable; memory maps cells to values."""
from dom import Lin, K, L, atom, ISet, BYTE, BOOL, LENMAX, ZERO


class V:
    __slots__ = ()

    def __ne__(self, o):
        return not self == o


class IntV(V):
    __slots__ = ("l",)

    def __init__(self, l):
        self.l = l if isinstance(l, Lin) else K(l)

    def __eq__(self, o):
        return isinstance(o, IntV) and self.l == o.l

    def __hash__(self):
        return hash(("I", self.l))

    def __repr__(self):
        return repr(self.l)


class BoolV(V):
    __slots__ = ("c",)

    def __init__(self, c):
        self.c = c

    def __eq__(self, o):
        return isinstance(o, BoolV) and self.c == o.c

    def __hash__(self):
        return hash(("B", self.c))

    def __repr__(self):
        return fmt_cond(self.c)


TRUE = BoolV(("true",))
FALSE = BoolV(("false",))


def fmt_cond(c):
    if c[0] in ("true", "false"):
        return c[0]
    if c[0] == "in":
        return "%r in %r" % (c[1], c[2])
    if c[0] in ("ge", "eq", "ne"):
        return "%r %s 0" % (c[1], {"ge": ">=", "eq": "==", "ne": "!="}[c[0]])
    if c[0] == "not":
        return "!(%s)" % fmt_cond(c[1])
    return "(%s %s %s)" % (fmt_cond(c[1]), c[0], fmt_cond(c[2]))


class AggV(V):
    """struct / tuple / array / closure (variant 0) or an enum value with a known variant"""
    __slots__ = ("ty", "var", "f", "_h")

    def __init__(self, ty, var, f):
        self.ty = ty
        self.var = var
        self.f = tuple(f)
        self._h = None

    def __eq__(self, o):
        return self is o or (isinstance(o, AggV) and self.var == o.var and hash(self) == hash(o) and self.f == o.f)

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.var, self.f))
        return self._h

    def __repr__(self):
        return "%s%s" % (VNAME(self.ty, self.var), "(" + ", ".join(map(repr, self.f)) + ")" if self.f else "")


VNAME = lambda ty, var: "T%s.%s" % (ty, var)    # replaced by the program loader


class SymV(V):
    """enum value with unknown variant, identified by key"""
    __slots__ = ("key", "ty", "dom")

    def __init__(self, key, ty, dom):
        self.key = key
        self.ty = ty
        self.dom = dom

    def __eq__(self, o):
        return isinstance(o, SymV) and self.key == o.key

    def __hash__(self):
        return hash(("S", self.key))

    def datom(self):
        return atom(("discr",) + self.key, self.dom)

    def __repr__(self):
        from dom import fmt_key
        return "?%s" % fmt_key(self.key)


class SliceV(V):
    """fat pointer to [T] or str: elements base[off .. off+len)"""
    __slots__ = ("base", "off", "len", "ety")

    def __init__(self, base, off, ln, ety):
        self.base = base
        self.off = off
        self.len = ln
        self.ety = ety

    def __eq__(self, o):
        return isinstance(o, SliceV) and self.base == o.base and self.off == o.off and self.len == o.len

    def __hash__(self):
        return hash(("SL", self.base, self.off, self.len))

    def __repr__(self):
        from dom import fmt_key
        return "%s[%r..+%r]" % (fmt_key(self.base), self.off, self.len)


class RefV(V):
    """thin pointer to a memory place"""
    __slots__ = ("cell", "path")

    def __init__(self, cell, path=()):
        self.cell = cell
        self.path = path

    def __eq__(self, o):
        return isinstance(o, RefV) and self.cell == o.cell and self.path == o.path

    def __hash__(self):
        return hash(("R", self.cell, self.path))

    def __repr__(self):
        return "&%s%s" % (self.cell, "".join("." + str(p) for p in self.path))


class FnV(V):
    __slots__ = ("fid",)

    def __init__(self, fid):
        self.fid = fid

    def __eq__(self, o):
        return isinstance(o, FnV) and self.fid == o.fid

    def __hash__(self):
        return hash(("F", self.fid))

    def __repr__(self):
        return "fn#%s" % self.fid


class VecV(V):
    """owned growable sequence: concatenation of segments
       ('el', value) | ('sub', SliceV) | ('gen', template value, hole atom, count Lin)
       ('genc', template of ('encof', ..), hole atom, count Lin, len Lin): one nested encoding per counted element
       ('enc', key, len Lin) | ('opq', key, len Lin)"""
    __slots__ = ("segs", "ety")

    def __init__(self, segs, ety):
        self.segs = tuple(segs)
        self.ety = ety

    def __eq__(self, o):
        return isinstance(o, VecV) and self.segs == o.segs

    def __hash__(self):
        return hash(("V", self.segs))

    def __repr__(self):
        return "vec[" + " ++ ".join(map(str, self.segs)) + "]"

    def length(self):
        n = ZERO
        for s in self.segs:
            n = n + seg_len(s)
        return n


def seg_len(s):
    if s[0] == "el":
        return K(1)
    if s[0] == "sub":
        return s[1].len
    if s[0] == "gen":
        return s[3]
    if s[0] == "genc":
        return s[4]
    return s[2]


class OpaqueV(V):
    __slots__ = ("key", "unk")

    def __init__(self, key, unk=False):
        self.key = key
        self.unk = unk

    def __eq__(self, o):
        return isinstance(o, OpaqueV) and self.key == o.key

    def __hash__(self):
        return hash(("O", self.key))

    def __repr__(self):
        return "opaque(%s)" % (self.key,)


UNINIT = OpaqueV(("uninit",))
UNIT = AggV(-1, 0, ())
