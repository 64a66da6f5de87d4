"""Compiler-enforced parts of C21.

lint     - the library and the OID macro are compiled with `unsafe_code` forbidden from the command line, which no attribute can lower;
           with all features and with none. A probe file with every kind of unsafe construct must be rejected by the same command.
lifetime - witnesses: each `@good` function must compile; each `@bad` one, which claims that parsed data outlives what it was parsed
           from, must be rejected by the borrow checker on its own line. A `@bad` function that is accepted, or a `@good` one that the
           borrow checker rejects, is a violation; any other error leaves the witness undecided."""
import json, os, re, shutil, subprocess

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BORROW = ("E0106", "E0195", "E0308", "E0310", "E0478", "E0491", "E0495", "E0499", "E0502", "E0505", "E0506", "E0515", "E0521", "E0597", "E0621", "E0623", "E0700", "E0716", "E0759")
LIFETIME = ("lifetime may not live long enough", "one or more lifetime errors")


def sh(mode, tgt):
    r = subprocess.run(["bash", os.path.join(V, "tools/witness.sh"), mode, tgt], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=600)
    msgs, arts, ok = [], [], None
    for l in r.stdout.splitlines():
        if l.startswith("PROBE "):
            l = l[6:]
        try:
            d = json.loads(l)
        except ValueError:
            continue
        if d.get("reason") == "compiler-message":
            msgs.append((d["target"]["name"], d["message"]))
        elif d.get("reason") == "compiler-artifact":
            arts.append((d["target"]["name"], d["fresh"]))
        elif d.get("reason") == "build-finished":
            ok = d["success"]
        elif "$message_type" in d:
            msgs.append(("probe", d))
    return ok, msgs, arts, r.stderr[-1500:]


def spans(m):
    return [s for s in m["spans"] if s.get("is_primary")] or m["spans"]


def code(m):
    return (m.get("code") or {}).get("code")


def lint(tgt):
    viol, und = [], []
    ex = dict(lint_configurations=0, crates_linted=0, lint_probes=0)
    _, pm, _, err = sh("probe", tgt)
    want = {"usage of an `unsafe` block": 3, "declaration of an `unsafe` function": 1, "implementation of an `unsafe` trait": 1, "declaration of an `unsafe` trait": 1}
    got = [m["message"] for _, m in pm if code(m) == "unsafe_code"]
    for w, n in want.items():
        if got.count(w) < n:
            und.append(("lint", "unsafe", "self-test: the lint does not report %r (%s)" % (w, err[-200:])))
        ex["lint_probes"] += got.count(w)
    for mode in ("lint", "lintmin"):
        ok, msgs, arts, err = sh(mode, tgt)
        seen = set()
        for target, m in msgs:
            if m["level"] != "error" or not (code(m) in ("unsafe_code", "E0453") and "unsafe_code" in (m["message"] + str(m.get("code")))):
                continue
            for s in spans(m)[:1]:
                line = (s["text"][0]["text"].strip() if s.get("text") else "")
                k = "unsafe/%s/%s/%s" % (s["file_name"].rsplit("/src/", 1)[-1], m["message"], line[:80])
                if code(m) == "E0453":
                    k = None        # the attribute alone is not a violation; the code it would allow is reported on its own
                if k is None or k in seen:
                    continue
                seen.add(k)
                viol.append(dict(key=k, where="%s:%s" % (s["file_name"], s["line_start"]), msg="unsafe code in %s: %s: %s" % (target, m["message"], line[:120]),
                                 aspect="unsafe", facts=[], value=m.get("rendered", "")[:1500], model={}, path=[]))
        if ok is not True and not viol:
            errs = [m["message"] for _, m in msgs if m["level"] == "error"][:3]
            if errs and all("unsafe_code" in x or "aborting" in x for x in errs):
                # only attributes were rejected: compile without raising the lint to see nothing else is wrong
                und.append(("lint", "unsafe", "an attribute lowers the lint (%s): %s" % (mode, errs[0][:200])))
            else:
                und.append(("lint", "unsafe", "does not compile (%s): %s %s" % (mode, errs, err[-300:])))
        ex["lint_configurations"] += 1
        built = {a for a, fresh in arts if not fresh}
        if ok and not {"der_parser", "der_oid_macro"} <= {b.replace("-", "_") for b in built}:
            und.append(("lint", "unsafe", "%s: the library was not recompiled: %s" % (mode, sorted(built))))
        ex["crates_linted"] += len({b.replace("-", "_") for b in built} & {"der_parser", "der_oid_macro"})
    return viol, und, ex


def lifetimes(tgt):
    viol, und = [], []
    src = open(os.path.join(V, "witness/src/lib.rs")).read().split("\n")
    good = {i + 1: l.rsplit("// @good ", 1)[1] for i, l in enumerate(src) if "// @good " in l}
    bad = {i + 1: l.rsplit("// @bad ", 1)[1] for i, l in enumerate(src) if "// @bad " in l}
    ok, msgs, arts, err = sh("good", tgt)
    if ok is not True:
        for target, m in msgs:
            if m["level"] != "error":
                continue
            for s in spans(m)[:1]:
                ln = s["line_start"]
                if target == "witness" and ln in good and (m["message"].startswith(LIFETIME) or code(m) in ("E0515", "E0597", "E0505", "E0716", "E0521", "E0621")):
                    viol.append(dict(key="lifetime/%s" % good[ln], where="witness/src/lib.rs:%d" % ln, msg="%s: parsed data is no longer usable as long as the input lives: %s" % (good[ln], m["message"]),
                                     aspect="witness", facts=[], value=src[ln - 1], model={}, path=[]))
                else:
                    und.append(("lifetimes", "witness", "%s: %s" % (target, m["message"][:200])))
        if not viol and not und:
            und.append(("lifetimes", "witness", err[-300:]))
        return viol, und, dict(witnesses_that_must_compile=len(good), witnesses_that_must_not_compile=0)
    if len(good) < 140 or len(bad) < 240:
        und.append(("lifetimes", "witness", "only %d + %d witnesses" % (len(good), len(bad))))
    ok, msgs, arts, err = sh("bad", tgt)
    hit = {}
    for target, m in msgs:
        if m["level"] != "error" or target != "witness":
            continue
        for s in m["spans"]:
            hit.setdefault(s["line_start"], set()).add("borrowck" if m["message"].startswith(LIFETIME) or code(m) in BORROW else m["message"][:100])
    other = {x for h in hit.values() for x in h} - {"borrowck"}
    rejected = 0
    for ln, nm in bad.items():
        h = hit.get(ln, set())
        if "borrowck" in h:
            rejected += 1
        elif h:
            und.append(("lifetimes", "witness", "%s: rejected for another reason: %s" % (nm, sorted(h)[0])))
        elif not other and hit:
            viol.append(dict(key="lifetime/%s" % src[ln - 1].split("(")[0].split("fn ")[-1], where="witness/src/lib.rs:%d" % ln,
                             msg="%s: a program in which parsed data outlives its input is accepted by the compiler" % nm, aspect="witness", facts=[], value=src[ln - 1], model={}, path=[]))
        else:
            und.append(("lifetimes", "witness", "%s: no verdict (%s)" % (nm, sorted(other)[:1])))
    return viol, und, dict(witnesses_that_must_compile=len(good), witnesses_that_must_not_compile=rejected)


def run(P, t):
    tgt = os.path.join(V, "build", "wtarget-%d" % os.getpid() if os.environ.get("VERIF_ISOLATE") else "wtarget")
    os.makedirs(os.path.join(V, "build"), exist_ok=True)
    import fcntl
    with open(os.path.join(V, "build", "wtarget.lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        viol, und, ex = (lint if t[1] == "unsafe code" else lifetimes)(tgt)
    if os.environ.get("VERIF_ISOLATE"):
        shutil.rmtree(tgt, ignore_errors=True)
    return dict(states=0, cases=sum(ex.values()), widened=0, viol=viol, undec=und, extra=ex)
