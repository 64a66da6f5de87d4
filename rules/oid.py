"""The compile-time OID encoder (der-oid-macro): every component list of the analysed shapes, all bits symbolic."""
from base import *
import interp, hooks, spec



def anchor(P):
    """the encoding function, recognised by its type: (&[BigUint], bool) -> Vec<u8>"""
    out = []
    for n, fid in P.entries.items():
        b = P.fns[fid]["body"]
        if not b or b["argc"] != 2:
            continue
        a = [P.types[b["locals"][1 + i]] for i in range(2)]
        r = P.types[b["locals"][0]]
        big = [i for i in range(2) if a[i]["k"] in ("ref", "ptr") and "BigUint" in str(P.types[a[i]["elem"]].get("s", "")) + str(P.types[a[i]["elem"]])]
        boo = [i for i in range(2) if a[i]["k"] == "bool"]
        if len(big) == 1 and len(boo) == 1:
            out.append((n, fid, big[0], boo[0]))
    return out


def big(ty, name, n):
    """an arbitrary integer of exactly n octets, as a tuple of octets made of single bits"""
    return AggV(ty, 0, tuple(IntV(octet(name, n, i)) for i in range(n)))


def octet(name, n, i):
    t = ZERO
    for k in range(8):
        t = t + L(atom(("bit", name, 8 * (n - 1 - i) + k), BOOL)).scale(1 << k)
    return t


def bits(name, n):
    """least significant first"""
    return [L(atom(("bit", name, k), BOOL)) for k in range(8 * n)]


def digits(ck, bs):
    """the minimal base-128 digits, most significant first, with continuation bits"""
    total = len(bs)
    while total > 1 and not ck.d(("eq", bs[total - 1] - 1)):
        total -= 1
    nd = max(1, (total + 6) // 7)
    out = []
    for j in range(nd - 1, -1, -1):
        d = K(128 if j else 0)
        for k in range(7):
            if 7 * j + k < total:
                d = d + bs[7 * j + k].scale(1 << k)
        out.append(d)
    return out


def expected(ck, comps, rel):
    """list of octets, or None where the helper documents that it panics"""
    out = []
    if not rel:
        if len(comps) < 2:
            if len(comps) == 1 and ck.d(("eq", total(comps[0]))):
                return [ZERO]
            return None
        a, b = total(comps[0]), total(comps[1])
        out.append(a.scale(40) + b)
        comps = comps[2:]
    for c in comps:
        out += digits(ck, bits(*c))
    return out


def total(c):
    t = ZERO
    for k, b in enumerate(bits(*c)):
        t = t + b.scale(1 << k)
    return t


def rule(comps, rel):
    def r(ck):
        exp = expected(ck, comps, rel)
        if exp is None:
            ck.bad("oid", "an encoding is returned for a list of %d components" % len(comps))
            return
        v = ck.deref(ck.val)
        segs = v.segs if isinstance(v, VecV) else None
        if segs is None:
            raise Undecided("result %r" % (v,))
        got = []
        for g in norm_segs(ck.s, segs):
            if g[0] != "el" or not isinstance(g[1], IntV):
                raise Undecided("result segment %r" % (g,))
            got.append(g[1].l)
        if len(got) != len(exp):
            ck.bad("oid", "%d octets are emitted, the encoding has %d" % (len(got), len(exp)))
            return
        for i, (x, y) in enumerate(zip(got, exp)):
            if not ck.eq(x, y):
                ck.bad("oid", "octet %d of the encoding is %r, expected %r" % (i, ck.s.norm(x), ck.s.norm(y)))
                return
    return r


def shapes(tier):
    """(relative, octet counts of the components)"""
    N = 20 if tier == "quick" else 40
    out = [(True, ())]
    out += [(True, (n,)) for n in range(1, N + 1)]
    out += [(True, (1, n)) for n in range(1, 11)] + [(True, (n, 1)) for n in range(2, 11)]
    out += [(False, ()), (False, (1,)), (False, (2,)), (False, (1, 1)), (False, (2, 1)), (False, (1, 2)), (False, (9, 1)), (False, (1, 9))]
    out += [(False, (1, 1, n)) for n in range(1, N + 1)]
    out += [(False, (1, 1, 1, n)) for n in range(1, 9)] + [(False, (1, 1, n, 1)) for n in range(2, 9)] + [(False, (1, 1, 2, 2)), (False, (1, 1, 1, 1, 1))]
    if tier == "thorough":
        out += [(True, (m, n)) for m in range(2, 9) for n in range(2, 9)] + [(False, (1, 1, 1, 2, 3))]
    return out


def tasks(tier):
    return [("oid", "%s%s" % ("relative" if r else "absolute", list(s)), ("oid",)) for r, s in shapes(tier)]


def run(P, t, engine):
    import json, bignat
    rel = t[1].startswith("rel")
    sizes = json.loads(t[1][t[1].index("["):])
    an = anchor(P)
    if len(an) != 1:
        return dict(states=0, cases=0, widened=0, viol=[], undec=[(t[1], "*", "no unique function (&[BigUint], bool) -> Vec<u8> in der-oid-macro (%d candidates)" % len(an))], extra={})
    name, fid, bi, ri = an[0]
    e = engine(P)
    e.K_UNROLL = e.K_MIN = 64
    e.K_CUR = 4000
    e.entry_name = name
    body = P.fns[fid]["body"]
    sty = P.types[body["locals"][1 + bi]]
    ety = P.types[sty["elem"]].get("elem", sty["elem"])
    comps = [("c%d" % i, n) for i, n in enumerate(sizes)]
    st = interp.State()
    for c in comps:
        if c[1] > 1:
            # the most significant octet of a longer number is not zero
            st.store.assume_ge(octet(c[0], c[1], 0) - 1)
    args = [None, None]
    args[bi] = SliceV(("vals", tuple(big(ety, *c) for c in comps)), ZERO, K(len(comps)), ety)
    args[ri] = TRUE if rel else FALSE
    e.reached.add(fid)
    outs = e.exec_fn(fid, args, st, None)
    res = spec.check(e, outs, args, rule(comps, rel), t[1], aspects=None, cls=Rule, opts={})
    # panics: never by accident (overflow, index) and never for a valid list
    np = 0
    for a in e.alarms:
        np += 1
        s = a["state"]
        accident = a["kind"] not in ("panic", "explicit")
        bad = None
        if accident:
            bad = "%s in %s (%s)" % (a["kind"], a["fn"], a["msg"])
        elif rel or (len(comps) >= 2):
            s2 = s.fork()
            if rel or (s2.store.assume_ge(K(2) - total(comps[0])) and s2.store.assume_ge(K(39) - total(comps[1])) and not s2.store.infeasible()):
                bad = "a valid component list is rejected: %s" % a["msg"]
                s = s2
        if bad is None:
            continue
        m = spec.find_model(s.store)
        if a["unk"] or m is None:
            res.undec.append((t[1], "oid", bad))
        else:
            res.viol.append(dict(rule=t[1], aspect="oid", msg=bad, facts=s.store.describe() if hasattr(s.store, "describe") else "", value="", model=str({repr(k): v for k, v in list(m.items())[:40]})))
    return e, res, dict(panic_paths=np)
