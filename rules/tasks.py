"""Execution of one analysis task (in a worker process)."""
import bignat     # models of vectors of known length
import collections, hashlib, os, time
from base import *
import prog, interp, hooks, spec, jobs

CFG = dict(tier="quick")
HEAVY = {"parse_ber": 6, "parse_ber_recursive": 6}


def configure(tier):
    CFG["tier"] = tier


def present(P, t):
    if t[0] in ("rule", "agree", "borrow"):
        return jobs.JOBS[t[1]].entry in P.entries
    if t[0] == "iter":
        return "entry_%s_new" % t[1] in P.entries and "entry_%s_next" % t[1] in P.entries
    if t[0] in ("panic", "rec"):
        return (jobs.JOBS[t[1]].entry if t[1] in jobs.JOBS else t[1]) in P.entries
    return True


def cost(t):
    n = str(t[1])
    if t[0] in ("panic", "rec"):
        return ("explicit(" in n) * 5 + 3 * ("ber" in n) + 5 * ("_of" in n)
    return 5 * ("_of" in n) + 3 * ("ber" in n) + (t[0] not in ("rule", "borrow")) * 10


def engine(P):
    e = interp.Engine(P, hooks.Hooks())
    e.deadline = time.monotonic() + (220 if CFG["tier"] == "quick" else 1200)
    if CFG["tier"] == "thorough":
        e.K_UNROLL = 16
        e.K_EXITS = 2 * e.K_EXITS
        e.MAX_STATES = 3 * e.MAX_STATES
        e.MAX_STEPS = 4 * e.MAX_STEPS
    return e


def analysed(e):
    s = set()
    for fid in e.reached:
        f = e.p.fns.get(fid)
        if f and f["krate"] in ("der_parser", "asn1_rs", "der_oid_macro"):
            s.add("%s (%s)" % (f["path"], (f.get("file") or "").rsplit("/", 2)[-1]))
    return s


def where(e, fid):
    f = e.p.fns.get(fid)
    return f["path"] if f else str(fid)


def run(P, t):
    return RUN[t[0]](P, t)


def run_agree(P, t):
    import agree
    j = jobs.JOBS[t[1]]
    j = jobs.Job(j.name, j.entry, agree.rule(j), j.group, j.der, j.pre, j.opts)
    return run_rule(P, t, j, lambda ck, role, der: agree.nested(ck, role, bool(j.der)))


def run_borrow(P, t):
    import borrow
    j = jobs.JOBS[t[1]]
    return run_rule(P, t, jobs.Job(j.name, j.entry, borrow.rule(j), j.group, j.der, j.pre, j.opts), borrow.nested)


def run_rule(P, t, j=None, nested=None):
    j = j or jobs.JOBS[t[1]]
    e = engine(P)
    box = []

    def pre(e, st, args):
        box.append(args)
        if j.pre:
            return j.pre(e, st, args)
    outs = e.run_entry(j.entry, pre=pre)
    OPTS = dict(j.opts)
    res = spec.check(e, outs, box[0], j.rule, t[1], aspects=set(t[2]) if t[2] else None, cls=Rule, opts=OPTS)
    roles = set(OPTS.pop("roles", ()))
    done = set()
    while roles - done and len(done) < 8 and not res.viol:
        r = sorted(roles - done, key=str)[0]
        done.add(r)
        if claim((r, t[2], t[0], j.der if nested else None)):
            roles |= induct(P, r, set(t[2]) if t[2] else None, res, t[1], nested)
    if res.suspects and not res.viol:
        confirm(P, j, t, res)
    viol = []
    for v in res.viol:
        viol.append(dict(key="%s/%s/%s" % (v["rule"], v["aspect"], v["msg"][:120]), where=j.entry, msg="%s: %s" % (t[1], v["msg"]),
                         aspect=v["aspect"], facts=v["facts"], value=v["value"], model=v["model"],
                         path=[where(e, f) for f in sorted(e.reached, key=str) if P.fns.get(f) and P.fns[f]["krate"] == "der_parser"][:60]))
    und = list(res.undec)
    if e.incomplete:
        und.append((t[1], "*", "analysis incomplete: %s" % (str(e.incomplete)[:200])))
    return dict(states=res.states, cases=res.cases, widened=res.widened, viol=viol, undec=und, extra=dict(analysed=analysed(e), induction_steps=len(done)))


CLAIMS = None       # directory shared by the workers of one run: an induction step is analysed by the first task that needs it


def claim(k):
    if CLAIMS is None:
        return True
    try:
        os.close(os.open(os.path.join(CLAIMS, hashlib.sha256(repr(k).encode()).hexdigest()[:32]), os.O_CREAT | os.O_EXCL))
    except FileExistsError:
        return False
    return True


MAXUNROLL = 48


def confirm(P, j, t, res):
    """a contradiction that only shows in a widened state is looked for again with the loop unrolled as often as its model says
    and the sizes of the arguments fixed to the model's"""
    tried = set()
    for m in res.suspects:
        n = max([v for a, v in m.items() if a.key[0] == "lp" and a.key[-1] == "n"] + [0])
        lens = tuple((a, v) for a, v in m.items() if a.key[0] == "len" and len(a.key) > 1 and isinstance(a.key[1], str) and a.key[1][0] == "a" and v <= MAXUNROLL)
        if n > MAXUNROLL or (n, lens) in tried:
            continue
        tried.add((n, lens))
        e = engine(P)
        e.K_UNROLL = max(e.K_UNROLL, n + 2)
        e.K_MIN = e.K_UNROLL
        box = []

        def pre(e, st, args):
            box.append(args)
            if j.pre and j.pre(e, st, args) is False:
                return False
            for a, v in lens:
                if not st.store.assume_eq(L(a) - v):
                    return False
        outs = e.run_entry(j.entry, pre=pre)
        r = spec.check(e, outs, box[0], j.rule, t[1], aspects=set(t[2]) if t[2] else None, cls=Rule, opts=dict(j.opts))
        res.viol += r.viol
        if r.viol:
            return


def induct(P, r, aspects, res, name, nested=None):
    """induction step: analyse the summarised function on arbitrary arguments against the specification of its role"""
    import parse
    fid, role, der, flags = r
    e = engine(P)
    f = P.fns[fid]
    e.entry_name = f["path"]
    body = f["body"]
    formals = [e.formal(body["locals"][1 + i], (("F", fid), i)) for i in range(body["argc"])]
    st = interp.State()
    for i, v in flags:
        if v is not None:
            st.store.assume(formals[i].c if v else simp_not(formals[i].c))
    if role == "skip":
        e.no_modular = fid          # the step itself is analysed; the calls it makes are summarised
        e.K_UNROLL = 3
    outs, todo = [], [st]
    while todo:
        st = todo.pop()
        try:
            outs += e.exec_fn(fid, formals, st.fork(), None)
        except Split as sp:
            for c in sp.conds:
                t = st.fork()
                if t.store.assume(c) and not t.store.infeasible():
                    todo.append(t)
    o = dict(nested=True)
    spec.check(e, outs, formals, lambda ck: (nested or parse.inductive)(ck, role, der), "%s (any call)" % f["path"].rsplit("::", 1)[-1], aspects=aspects, cls=Rule, opts=o, res=res)
    return set(o.get("roles", ()))


def pack(e, res, name, entry, extra):
    viol = []
    for v in res.viol:
        viol.append(dict(key="%s/%s/%s" % (v["rule"], v["aspect"], v["msg"][:120]), where=entry, msg="%s: %s" % (name, v["msg"]),
                         aspect=v["aspect"], facts=v["facts"], value=v["value"], model=v["model"],
                         path=sorted(analysed(e))[:60]))
    und = list(res.undec)
    if e.incomplete:
        und.append((name, "*", "analysis incomplete: %s" % (str(e.incomplete)[:200])))
    return dict(states=res.states, cases=res.cases, widened=res.widened, viol=viol, undec=und, extra=dict(analysed=analysed(e), **extra))


STEPS = 4


def run_iter(P, t):
    """an iterator: the first steps from its initial state, then one step from the state generalised over the position"""
    import value
    name = t[1]
    byval = name == "into_iter"
    e = engine(P)
    box = []
    outs = e.run_entry("entry_%s_new" % name, pre=lambda e, st, a: box.append(a[0]))
    obj = box[0]
    nf = P.entries["entry_%s_next" % name]
    ty = P.types[P.fns[nf]["body"]["locals"][1]]["elem"]
    cell = ("H", ("it",), ty)
    ref = RefV(cell, ())
    res = spec.Result()
    cur = [(st, it) for st, it in outs]
    inits = list(cur)
    hist = [cur]
    for k in range(STEPS):
        nxt = []
        for st, it in cur:
            st = st.fork()
            st.put(cell, it)
            o = e.exec_fn(nf, [ref], st, None)
            spec.check(e, o, [obj], lambda ck: value.step(ck, K(k), byval), "%s step %d" % (name, k), aspects=None, cls=Rule, opts={}, res=res)
            nxt += [(s, e.read(s, cell, ())) for s, _ in o]
        cur = nxt[:200]
        hist.append(cur)
    # generalise: one integer component counts the steps, everything else is as after creation
    gen = 0
    leaf = value.counter(hist)
    if leaf is not None and not res.viol:
        p = atom(("itpos",), ISet.rng(0, LENMAX))
        for st, it in inits:
            st = st.fork()
            st.put(cell, value.set_leaf(it, leaf, IntV(L(p))))

            def rule(ck):
                if not value.before_end(ck, L(p), byval):
                    return
                value.step(ck, L(p), byval)
                after = ck.e.read(ck.st, cell, ())
                if not ck.eq(L(p), value.total(ck, byval)):
                    ck.is_same("iter", after, value.set_leaf(it, leaf, IntV(L(p) + 1)), "iterator state")
            o = e.exec_fn(nf, [ref], st, None)
            spec.check(e, o, [obj], rule, "%s at an arbitrary position" % name, aspects=None, cls=Rule, opts={}, res=res)
            gen += 1
    else:
        res.undec.append((name, "*", "no position component found: only the first %d steps are covered" % STEPS))
    if t[2] and "panic" in t[2]:
        import panic
        viol, und = panic.report(e, name, "entry_%s_next" % name, [obj], None)
        return dict(states=res.states, cases=len(e.obls), widened=0, viol=viol, undec=und, extra=dict(analysed=analysed(e), obligations=len(e.obls), obligations_discharged=sum(1 for x in e.obls.values() if x)))
    return pack(e, res, name, "entry_%s_next" % name, dict(induction_steps=gen))


def run_panic(P, t):
    import panic
    return panic.run(P, t)


def run_rec(P, t):
    import panic
    return panic.run_rec(P, t)


def run_oid(P, t):
    import oid
    r = oid.run(P, t, engine)
    if isinstance(r, dict):
        return r
    e, res, extra = r
    return pack(e, res, t[1], e.entry_name, extra)


def run_effects(P, t):
    import effects
    return effects.run(P, t)


def run_witness(P, t):
    import witness
    return witness.run(P, t)


RUN = {"witness": run_witness, "borrow": run_borrow, "effects": run_effects, "oid": run_oid, "agree": run_agree, "rec": run_rec, "rule": run_rule, "iter": run_iter, "panic": run_panic}
