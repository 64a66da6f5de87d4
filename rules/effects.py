"""Effect analysis over the call graph of the analysed program (C20, part of C21).

Every function body outside the standard library that is reachable from an entry point is scanned for
  state    - access to a static that can change (static mut, interior mutability) or to thread-local storage,
  ambient  - calls of standard-library functions that consult or change the environment of the process,
  address  - casts that turn an address into a number (the library under analysis only),
  leak     - calls that turn owned memory into 'static references (C21).
Functions without a body in the program (models of the standard library) are judged by their path at the call site.
The rule is exercised on every run on the harness' probes: each must be reported (or, for the two harmless ones, must not)."""
import re

STD = ("core", "alloc", "std", "proc_macro", "test")
AMBIENT = [
    (r"^std::time::(SystemTime|Instant)::(now|elapsed)", "reads the clock"),
    (r"^<std::time::\w+ as .*>::", None),
    (r"^std::env::", "reads the process environment"),
    (r"^std::fs::|^<std::fs::", "accesses the file system"),
    (r"^std::net::|^<std::net::", "accesses the network"),
    (r"^std::process::", "controls a process"),
    (r"^std::thread::", "depends on the running thread"),
    (r"^std::io::(_print|_eprint|stdin|stdout|stderr|stdio)\b", "performs I/O on a standard stream"),
    (r"^<std::io::(Stdin|Stdout|Stderr)", "performs I/O on a standard stream"),
    (r"^std::hash::random|RandomState", "uses a randomly seeded hasher"),
    (r"^std::collections::Hash(Map|Set)::<.*>::(new|with_capacity)$", "uses a randomly seeded hasher"),
    (r"^std::os::|^std::backtrace|^std::panic::(set_hook|take_hook)", "depends on the environment"),
    (r"getrandom|^rand(_core|_chacha)?::", "uses randomness"),
]
LEAK = [(r"::leak$", "turns owned memory into a 'static reference"), (r"mem::transmute|::transmute_copy", "transmutes"),
        (r"slice::(raw::)?from_raw_parts(_mut)?$", "builds a slice from a raw pointer"), (r"::from_utf8_unchecked(_mut)?$", "skips the text check"),
        (r"^std::mem::forget$", "forgets a value")]
AMBIENT = [(re.compile(a), b) for a, b in AMBIENT]
LEAK = [(re.compile(a), b) for a, b in LEAK]


class Scan:
    def __init__(self):
        self.refs = []       # (fn id, line)
        self.statics = []    # (name, mutable, line)
        self.tls = []
        self.addr = []

    def body(self, b):
        for blk in b["blocks"]:
            for s in blk["s"]:
                line = s[3] if s[0] == "=" and len(s) > 3 else 0
                self.walk(s, line)
            t = blk["t"]
            line = t[5] if t[0] == "call" else 0
            self.walk(t, line)
        return self

    def walk(self, x, line):
        if not isinstance(x, list) or not x:
            return
        h = x[0]
        if h in ("fn", "fnptr") and len(x) == 2 and isinstance(x[1], int):
            self.refs.append((x[1], line))
            return
        if h == "static" and len(x) > 2 and isinstance(x[1], str):
            self.statics.append((x[1], x[2], line))
            return
        if h == "tls" and len(x) == 2:
            self.tls.append((x[1], line))
            return
        if h == "cast" and len(x) == 4 and isinstance(x[1], str) and "Expose" in x[1]:
            self.addr.append(line)
        for y in x:
            self.walk(y, line)


def fn_refs(P, f, sc):
    """functions referenced by a body, closures and function items in types included"""
    out = list(sc.refs)
    for t in f["body"]["locals"]:
        ty = P.types.get(t)
        if ty and ty["k"] in ("fndef", "closure") and ty.get("fn") is not None:
            out.append((ty["fn"], f["line"]))
    return out


def scan_from(P, roots):
    """everything reachable; returns (findings, stats)"""
    seen, todo, found = set(), [(r, ()) for r in roots], []
    st = dict(functions=0, call_sites=0, statics=0, library_callees=set())
    while todo:
        fid, chain = todo.pop()
        if fid in seen:
            continue
        seen.add(fid)
        f = P.fns.get(fid)
        if f is None or not f["body"]:
            continue
        sc = Scan().body(f["body"])
        refs = fn_refs(P, f, sc)
        own = f["krate"] not in STD
        here = chain + (f["path"],)
        if own:
            st["functions"] += 1
            st["call_sites"] += len(sc.refs)
            for nm, mut, line in sc.statics:
                st["statics"] += 1
                if mut:
                    found.append(("state", f, "accesses the mutable static %s" % nm, line, here))
            for nm, line in sc.tls:
                found.append(("state", f, "accesses the thread-local %s" % nm, line, here))
            if f["krate"] in ("der_parser", "harness", "der_oid_macro"):
                for line in sc.addr:
                    found.append(("address", f, "turns an address into a number", line, here))
        for r, line in refs:
            g = P.fns.get(r)
            if g is None:
                continue
            if own and g["krate"] in STD or own and not g["body"]:
                st["library_callees"].add(g["path"])
                for rx, why in AMBIENT:
                    if rx.search(g["path"]):
                        if why:
                            found.append(("ambient", f, "calls %s: %s" % (g["path"], why), line, here))
                        break
                for rx, why in LEAK:
                    if f["krate"] in ("der_parser", "harness") and rx.search(g["path"]):
                        found.append(("leak", f, "calls %s: %s" % (g["path"], why), line, here))
            todo.append((r, here if own else chain))
    return found, st, seen


EXPECT = {"probe_atomic": "state", "probe_indirect": "state", "probe_mutex": "state", "probe_once": "state", "probe_tls": ("state", "ambient"), "probe_tls2": ("state", "ambient"),
          "probe_env": "ambient", "probe_time": "ambient", "probe_instant": "ambient", "probe_print": "ambient", "probe_eprint": "ambient",
          "probe_fs": "ambient", "probe_hash": "ambient", "probe_thread": "ambient", "probe_address": "address", "probe_closure": "state",
          "probe_leak": "leak", "probe_leak2": "leak", "probe_ok": None, "probe_ok_cell": None}


def selftest(P, kinds):
    """the rule finds what it is meant to find on the probes"""
    bad = []
    n = 0
    for p, want in EXPECT.items():
        w = (want,) if isinstance(want, str) else want
        if w and not set(w) & set(kinds):
            continue
        n += 1
        if p not in P.probes:
            bad.append("%s is missing" % p)
            continue
        got = {x[0] for x in scan_from(P, [P.probes[p]])[0] if x[0] in kinds}
        if (w is None and got) or (w is not None and not got & set(w)):
            bad.append("%s: expected %s, found %s" % (p, want, sorted(got)))
    return n, bad


def run(P, t):
    kinds = t[2]
    n, bad = selftest(P, kinds)
    roots = [fid for nm, fid in sorted(P.entries.items())]
    found, st, seen = scan_from(P, roots)
    viol = []
    for kind, f, msg, line, chain in found:
        if kind not in kinds:
            continue
        viol.append(dict(key="%s/%s/%s" % (kind, f["path"], msg[:140]), where="%s (%s)" % (f["path"], (f.get("file") or "").rsplit("/src/", 1)[-1]), msg="%s %s" % (f["path"], msg),
                         aspect=kind, path=list(chain), line=line))
    und = [(t[1], kinds[0], "self-test of the rule failed: " + b) for b in bad]
    inv = set(x[0] for x in P.inventory)
    have = set(P.fns[i]["path"] for i in seen if i in P.fns)
    miss = sorted(i for i in inv if i not in have)
    return dict(states=st["functions"], cases=st["call_sites"] + st["statics"], widened=0, viol=viol, undec=und,
                extra=dict(functions_scanned=st["functions"], call_sites=st["call_sites"], static_accesses=st["statics"], distinct_library_callees=len(st["library_callees"]),
                           probes_checked=n, public_functions=len(inv), public_functions_reached=len(inv) - len(miss), not_reached=set(miss)))
