"""Models of the harness: caller-supplied callbacks, visitor methods and iteration events."""
import re
from dom import *
from values import *
import interp as I
from interp import Unmodelled, Infeasible
from natives import Natives, Ctx, fork_on, sub, vec_slice


class Hooks(Natives):
    def lookup(self, eng, f):
        if f["krate"] == "harness":
            p = f["path"]
            m = re.search(r"(?:^|::)(cb_\w+)$", p)
            if m:
                return self.wrap(cb)
            m = re.search(r"(?:^|::)(ev_\w+)$", p)
            if m:
                return self.wrap(ev)
            if re.search(r"<(harness::)?[VM] as .*(Visit|VisitMut)<'a>>::visit_ber", p):
                return self.wrap(ev)
            return None
        return Natives.lookup(self, eng, f)

    def wrap(self, fn):
        def r(eng, f, args, st, rty, caller, site):
            return fn(Ctx(eng, f, args, st, rty, caller, site))
        return r


def short(p):
    return p.rsplit("::", 1)[-1]


def cb(c):
    """an arbitrary callback: any result, whose remainder is a suffix of its input"""
    st = c.st
    ev = st.ghost("cb", VecV((), None))
    n = ev.length()
    s = c.args[0]
    if not isinstance(s, SliceV):
        raise Unmodelled("callback input %r" % (s,))
    norm = st.store.norm
    key = ("cb", norm(n), s.base, norm(s.off), norm(s.len))
    snap = [c.rd(a) if isinstance(a, RefV) else a for a in c.args]
    st.setghost("cb", VecV(ev.segs + (("el", AggV(-1, 0, snap)),), None))
    rty = c.rty
    sym = SymV(key, rty, c.p.symdom(rty))
    out = []
    for var in (0, 1):
        t = st.fork()
        if not t.store.assume_eq(L(sym.datom()) - var):
            continue
        v = c.e.sym_variant(sym, var)
        if var == 0:
            k = L(atom(("len",) + key + ("consumed",), ISet.rng(0, LENMAX)))
            if not t.store.assume_ge(s.len - k):
                continue
            p = v.f[0]
            v = AggV(rty, 0, (AggV(p.ty, 0, (sub(s, k, s.len), p.f[1])),))
        out.append((t, v))
    return out


def ev(c):
    st = c.st
    e = st.ghost("ev", VecV((), None))
    args = list(c.args)
    if re.search(r"<(harness::)?[VM] as", c.f["path"]):
        args = args[1:]
    item = AggV(-1, 0, [OpaqueV((short(c.f["path"]),))] + args)
    st.setghost("ev", VecV(e.segs + (("el", item),), None))
    return [(st, UNIT)]
