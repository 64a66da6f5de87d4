"""Panic freedom: every obligation (bounds, overflow, unwrap, explicit panic) met on any path of an entry point is discharged,
or the path to it has no satisfying assignment; otherwise it is reported."""
from base import *
from dom import Split
from spec import find_model, store_atoms
import tasks as T
import jobs, value

LIMIT = 1 << 40


def small_ints(names):
    """caller-chosen widths and depths far below the integer maximum"""
    def f(e, st, args):
        for a in args:
            v = a
            if isinstance(v, RefV):
                try:
                    v = e.read(st, v.cell, v.path)
                except Exception:
                    continue
            if isinstance(v, IntV):
                st.store.assume_ge(K(LIMIT) - v.l)
            elif isinstance(v, AggV) and v.ty >= 0:
                t = e.p.types[v.ty]
                if t["k"] == "adt" and t["path"].rsplit("::", 1)[-1] in names:
                    for x in v.f:
                        if isinstance(x, IntV):
                            st.store.assume_ge(K(LIMIT) - x.l)
    return f


PRE = {"entry_visit_run_at": small_ints(()), "entry_visit_default": small_ints(()), "entry_visit_mut_default": small_ints(()), "entry_visit_mut_run_at": small_ints(()), "entry_as_pretty": small_ints(()),
       "entry_pretty_new": small_ints(()), "entry_pretty_fmt": small_ints(("PrettyBer",)), "entry_pretty_next_indent": small_ints(("PrettyBer",))}
# obj_eq compares two arbitrary trees with derived code: the state space is not partitionable; the iterator steps are
# analysed from states that their constructor produces
SKIP = {"entry_obj_eq", "entry_into_iter_next", "entry_ref_iter_next"}


def absent(e, al, args):
    """indexing: the position exists although the call panics"""
    s = al["state"].store
    o = args[0]
    v = e.read(al["state"], o.cell, o.path)
    names = [n for n, _ in e.p.types[v.ty]["variants"][0]["fields"]]
    c = v.f[names.index("content")]
    vs = [x["name"] for x in e.p.types[c.ty]["variants"]]
    out = []
    for k in ("Sequence", "Set"):
        t = al["state"].fork()
        i = vs.index(k)
        if isinstance(c, AggV):
            if c.var != i:
                continue
            x = c.f[0]
        else:
            if not t.store.assume_eq(L(c.datom()) - i):
                continue
            x = e.sym_variant(c, i).f[0]
        n = x.length() if isinstance(x, VecV) else x.len
        if t.store.assume_ge(n - args[1].l - 1) and not t.store.infeasible():
            out.append(dict(al, state=t))
    return out


def leaves(e, st, args):
    out = dict(e.leaves(st, args))

    def go(v, path, depth=0):
        if isinstance(v, SliceV):
            out[path + ("len",)] = v.len
        elif isinstance(v, AggV):
            for i, x in enumerate(v.f):
                go(x, path + ((v.var, i),), depth)
        elif isinstance(v, RefV) and depth < 2:
            try:
                go(e.read(st, v.cell, v.path), path + ("*",), depth + 1)
            except (Unmodelled, Infeasible, Split):
                pass
    for i, a in enumerate(args):
        go(a, (i,))
    return out


def formal_bytes(store, fid):
    return any(a.key[0] == "byte" and "F" in str(a.key[1]) for a in store_atoms(store))


def confirm(e, fid, al):
    """a state in which the summarised function is really called with arguments that lead to the alarm"""
    con = next((c for k, c in e.contracts.items() if k[0] == fid and al in c["alarms"]), None)
    if con is None or al["state"].taint or formal_bytes(al["state"].store, fid):
        return None
    fl = leaves(e, al["state"], con["formals"])
    budget = {i for r in e.rec_calls if r["fid"] == fid and r["verdict"] == "budget" for i, a in enumerate(r["args"]) if isinstance(a, IntV)}
    for ent in e.ledger.values():
        if ent["fid"] != fid or "what" in ent or ent["st"].taint:
            continue
        if any("F" in str(a.key) and ("F", ) and any(isinstance(x, tuple) and x and x[0] == "F" for x in a.key) for a in store_atoms(ent["st"].store)):
            continue
        s = ent["st"].store.copy()
        al_ = leaves(e, ent["st"], ent["args"])
        if any(any(isinstance(x, tuple) and x and x[0] == "F" for x in a.key) for l in al_.values() for a in l.atoms()):
            continue
        ok = s.conj(al["state"].store)
        for p, l in fl.items():
            if not ok:
                break
            if p in al_:
                if len(p) == 1 and p[0] in budget:
                    ok = s.assume_ge(al_[p] - l) and s.assume_ge(l)
                else:
                    ok = s.assume_eq(al_[p] - l)
        if ok and not s.infeasible():
            m = find_model(s)
            if m is not None:
                return m, s
    return None


def report(e, name, entry, args, res):
    """alarms of a finished analysis -> violations / undecided"""
    seen = set()
    viol, und = [], []
    for al in list(e.alarms):
        als = absent(e, al, args) if entry == "entry_index" else [al]
        for a in als:
            k = (a["fn"], a["kind"], a["msg"])
            if k in seen:
                continue
            if a["unk"]:
                und.append((name, "panic", "possible only through a widened or unmodelled value: %s in %s" % (a["msg"], a["fn"])))
                continue
            m = find_model(a["state"].store)
            if m is None:
                und.append((name, "panic", "no satisfying assignment: %s in %s" % (a["msg"], a["fn"])))
                continue
            seen.add(k)
            viol.append(v(name, entry, a, m, a["state"].store))
    for fid, a in e.contract_alarms:
        k = (a["fn"], a["kind"], a["msg"])
        if k in seen:
            continue
        r = confirm(e, fid, a)
        if r is None:
            und.append((name, "panic", "not reachable with the arguments of any recorded call: %s in %s" % (a["msg"], a["fn"])))
            continue
        seen.add(k)
        viol.append(v(name, entry, a, r[0], r[1]))
    return viol, und


def v(name, entry, a, m, store):
    return dict(key="%s/%s/%s" % (a["fn"], a["kind"], a["msg"][:100]), where="%s (%s:%s)" % (a["fn"], (a.get("file") or "").rsplit("/", 2)[-1], a.get("line")),
                msg="%s: %s: %s in %s is reachable" % (name, a["kind"], a["msg"], a["fn"]), aspect="panic", facts=store.describe(60), value=entry,
                model={repr(k): x for k, x in sorted(m.items(), key=lambda y: y[0].id)}, path=a.get("chain", []))


def run(P, t):
    name = t[1]
    j = jobs.JOBS.get(name)
    entry = j.entry if j else name
    e = T.engine(P)
    box = []

    def pre(e, st, args):
        box.append(args)
        f = j.pre if j and j.pre else PRE.get(entry)
        if f:
            return f(e, st, args)
    outs = e.run_entry(entry, pre=pre)
    viol, und = report(e, name, entry, box[0], None)
    if e.incomplete:
        und.append((name, "*", "analysis incomplete: %s" % (str(e.incomplete)[:200])))
    ok = sum(1 for x in e.obls.values() if x)
    return dict(states=len(outs), cases=len(e.obls), widened=0, viol=viol, undec=und,
                extra=dict(analysed=T.analysed(e), obligations=len(e.obls), obligations_discharged=ok))


def run_rec(P, t):
    """every recursive call consumes budget or descends into a component"""
    name = t[1]
    j = jobs.JOBS.get(name)
    entry = j.entry if j else name
    e = T.engine(P)

    def pre(e, st, args):
        f = j.pre if j and j.pre else PRE.get(entry)
        if f:
            return f(e, st, args)
    outs = e.run_entry(entry, pre=pre)
    viol, und, good = [], [], {}
    seen = set()
    for r in e.rec_calls:
        site = "%s -> %s" % (r["caller"], r["fn"])
        if r["verdict"] in ("budget", "structural"):
            good[site + ": " + r["verdict"]] = good.get(site + ": " + r["verdict"], 0) + 1
            continue
        if site in seen:
            continue
        if r["verdict"] == "unknown":
            und.append((name, "recursion", "arguments not comparable: " + site))
            continue
        if r["taint"]:
            und.append((name, "recursion", "recursive call from a widened state: " + site))
            continue
        m = find_model(r["state"].store)
        if m is None:
            und.append((name, "recursion", "no satisfying assignment: " + site))
            continue
        seen.add(site)
        viol.append(dict(key="recursion/%s" % site, where=site, msg="%s: recursive call neither consumes a depth budget nor descends into a component of its argument%s" % (
            name, " (only the input gets shorter)" if r["verdict"] == "slice" else ""), aspect="recursion", facts=r["state"].store.describe(60), value=entry,
            model={repr(k): x for k, x in sorted(m.items(), key=lambda y: y[0].id)}, path=r["chain"]))
    if e.incomplete:
        und.append((name, "*", "analysis incomplete: %s" % (str(e.incomplete)[:200])))
    return dict(states=len(outs), cases=sum(good.values()), widened=0, viol=viol, undec=und, extra=dict(analysed=T.analysed(e), recursive_calls=sum(good.values()), recursive_sites=set(good)))


def names():
    enc = {j.entry for j in jobs.JOBS.values() if j.group in ("enc", "encbig")}
    return enc


def all_tasks(entries, tier, kind="panic"):
    enc = names()
    out = [(kind, n) for n in sorted(entries) if n not in SKIP and n not in enc]
    gs = ("enc", "encbig") if tier == "thorough" else ("enc",)
    out += [(kind, n) for n, j in jobs.JOBS.items() if j.group in gs]
    return out
