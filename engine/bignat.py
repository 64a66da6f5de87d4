"""Arbitrary-precision unsigned integers as lists of bits: BigUint values are tuples of symbolic bits, so that shifts and masks of
their octets stay exact (every bit of every derived value is a known constant or a known input bit)."""
from dom import *
from values import *
import interp as I
from interp import Unmodelled, Infeasible
from natives import nat

# a BigUint is AggV(ty, 0, (octet, octet, ...)), most significant octet first, each an IntV


def octets(c, v):
    v = c.rd(v)
    if isinstance(v, AggV) and all(isinstance(x, IntV) for x in v.f):
        return v.f
    raise Unmodelled("big integer %r" % (v,))


def val(c, v):
    t = ZERO
    o = octets(c, v)
    for i, x in enumerate(o):
        t = t + x.l.scale(256 ** (len(o) - 1 - i))
    return c.st.store.norm(t)


@nat(r"num_bigint::biguint::convert::<impl std::convert::From<(u8|u16|u32|u64|usize)> for num_bigint::BigUint>::from$", krate="num_bigint")
def _(c):
    x = c.st.store.norm(c.lin(c.args[0]))
    if x.isc():
        b = x.c.to_bytes(max(1, (x.c.bit_length() + 7) // 8), "big")
        return AggV(c._rty if c._rty is not None else -1, 0, tuple(IntV(K(k)) for k in b))
    if c.st.store.bounds(x)[1] <= 255:
        return AggV(c._rty if c._rty is not None else -1, 0, (IntV(x),))
    raise Unmodelled("big integer from a variable")


@nat(r"<num_bigint::BigUint as std::clone::Clone>::clone$", krate="num_bigint")
def _(c):
    return c.rd(c.args[0])


@nat(r"<num_bigint::BigUint as std::cmp::PartialEq>::(eq|ne)$", krate="num_bigint")
def _(c):
    d = val(c, c.args[0]) - val(c, c.args[1])
    return BoolV(("eq" if c.f["path"].endswith("::eq") else "ne", d))


@nat(r"<num_bigint::BigUint as std::cmp::PartialOrd>::(lt|le|gt|ge)$", r"std::cmp::PartialOrd::(lt|le|gt|ge)$")
def _(c):
    op = c.f["path"].rsplit("::", 1)[1]
    try:
        a, b = val(c, c.args[0]), val(c, c.args[1])
    except Unmodelled:
        return None
    return BoolV(("ge", {"ge": a - b, "gt": a - b - 1, "le": b - a, "lt": b - a - 1}[op]))


@nat(r"<num_bigint::BigUint as std::cmp::(PartialOrd|Ord)>::(partial_cmp|cmp)$", krate="num_bigint")
def _(c):
    d = val(c, c.args[0]) - val(c, c.args[1])
    out = []
    for cond, k in ((("ge", -d - 1), -1), (("eq", d), 0), (("ge", d - 1), 1)):
        s = c.st.fork()
        if s.store.assume(cond) and not s.store.infeasible():
            out.append((s, k))
    t = c._rty
    ord_t = c.vty(t, 1) if c.f["path"].endswith("partial_cmp") else t
    res = []
    for s, k in out:
        v = AggV(ord_t, k + 1, ())
        res.append((s, c.some(v, t) if c.f["path"].endswith("partial_cmp") else v))
    return res


@nat(r"num_traits::ToPrimitive(>)?::to_(u8|u16|u32|u64|u128|usize|i32|i64)$")
def _(c):
    try:
        v = val(c, c.args[0])
    except Unmodelled:
        return None
    ty = c.f["path"].rsplit("_", 1)[1]
    n = 64 if ty == "usize" else int(ty[1:])
    hi = (1 << n) - 1 if ty[0] == "u" else (1 << (n - 1)) - 1
    out = []
    for s, t in c.fork(("ge", K(hi) - v)):
        out.append((s, c.some(IntV(s.store.norm(v)), c._rty if c._rty is not None else None) if t else c.none(c._rty if c._rty is not None else None)))
    return out


@nat(r"num_bigint::BigUint::to_bytes_(be|le)$", krate="num_bigint")
def _(c):
    o = list(octets(c, c.args[0]))
    if c.f["path"].endswith("le"):
        o.reverse()
    return VecV(tuple(("el", x) for x in o), None)


@nat(r"num_bigint::BigUint::bits$", krate="num_bigint")
def _(c):
    v = val(c, c.args[0])
    lo, hi = c.st.store.bounds(v)
    out = []
    for bl in range(lo.bit_length(), hi.bit_length() + 1):
        s = c.st.fork()
        a, b = (0, 0) if bl == 0 else (1 << (bl - 1), (1 << bl) - 1)
        if s.store.assume_ge(v - a) and s.store.assume_ge(K(b) - v) and not s.store.infeasible():
            out.append((s, IntV(K(bl))))
    return out


# ------------------------------------------------------------------ vectors of known length
@nat(r"std::vec::Vec::<T, A>::(resize_with|resize)$")
def _(c):
    from natives import vec_of
    v = vec_of(c, c.args[0])
    k = c.st.store.norm(c.lin(c.args[1]) - v.length())
    if not k.isc() or k.c > 4096:
        raise Unmodelled("resize by an unknown amount")
    if k.c < 0:
        if all(g[0] == "el" for g in v.segs) and -k.c <= len(v.segs):
            c.wr(c.args[0], VecV(v.segs[:k.c], v.ety))
            return UNIT
        raise Unmodelled("resize")
    cur = [(c.st, v.segs)]
    for _ in range(k.c):
        nxt = []
        for st, segs in cur:
            if c.f["path"].endswith("resize"):
                nxt.append((st, segs + (("el", c.args[2]),)))
            else:
                for s, x in c.call(c.args[2], [], st):
                    nxt.append((s, segs + (("el", x),)))
        cur = nxt
    for st, segs in cur:
        c.wr(c.args[0], VecV(segs, v.ety), st)
    return [(st, UNIT) for st, _ in cur]


@nat(r"core::slice::<impl \[T\]>::reverse$")
def _(c):
    s = c.args[0]
    if not (isinstance(s, SliceV) and s.base[0] == "mem"):
        raise Unmodelled("reverse of %r" % (s,))
    n = c.st.store.norm(s.len)
    if not n.isc() or n.c > 4096:
        raise Unmodelled("reverse of unknown length")
    vals = [c.e.slice_elem(c.st, s, K(i)) for i in range(n.c)]
    for i, x in enumerate(reversed(vals)):
        c.e.write(c.st, s, (("e", K(i)),), x)
    return UNIT
