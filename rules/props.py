"""Property -> tasks. A task is (kind, job/argument, aspects)."""
import fnmatch
import os, re
import jobs, panic, agree, oid, borrow

PARSE = [n for n, j in jobs.JOBS.items() if j.group in ("typed", "any", "part")]
COMB = [n for n, j in jobs.JOBS.items() if j.group in ("comb", "tagging", "optional", "of")]
DERP = [n for n in PARSE if jobs.JOBS[n].der]
DERC = [n for n in COMB if jobs.JOBS[n].der]


def rule(names, aspects):
    return [("rule", n, tuple(aspects)) for n in names]


def group(*gs):
    return [n for n, j in jobs.JOBS.items() if j.group in gs]


def entries():
    src = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness", "src", "lib.rs")).read()
    return sorted(set(re.findall(r"pub fn (entry_\w+)", src)))


def tasks(tier="quick"):
    big = ["encbig"] if tier == "thorough" else []
    T = {}
    T["C01"] = panic.all_tasks(entries(), tier) + [("iter", "into_iter", ("panic",)), ("iter", "ref_iter", ("panic",))]
    T["C02"] = rule(PARSE, ["depth", "deptherr"]) + rule(group("tryfrom"), ["depth", "deptherr"]) + panic.all_tasks(entries(), "quick", "rec")
    T["C03"] = rule(PARSE, ["rem", "content", "child"]) + rule(COMB, ["cframe"]) + rule(group("int"), ["rem"])
    T["C04"] = rule(PARSE, ["header", "kind", "tag", "tagerr", "value", "constr"])
    T["C05"] = rule(DERP, ["der:bool", "der:int", "der:bits", "der:constr", "der:time", "derkind", "derspurious", "derchild"]) + rule([n for n in group("int") if jobs.JOBS[n].der], ["der:int"])
    T["C06"] = rule(DERP, ["indef", "derchild"]) + rule(DERC, ["indef"])
    T["C07"] = rule(group("tagging"), ["ctag", "ccall", "chdr", "cerr", "cvalue", "creject"])
    T["C08"] = rule(group("optional"), ["opt", "ctag", "ctrunc", "ccall", "chdr", "cvalue", "creject"])
    T["C09"] = rule(group("comb", "of"), ["ctag", "ccall", "chdr", "cerr", "cvalue", "creject", "call-content"])
    T["C10"] = rule(PARSE, ["trunc", "size", "sizeerr"]) + rule(COMB, ["ctrunc"])
    T["C11"] = rule(group("int"), ["int", "reject"]) + rule(group("intacc"), ["int"])
    T["C12"] = rule(group("bits"), ["bits", "bit"])
    T["C13"] = rule([n for n in PARSE if "string" in n or "descriptor" in n or jobs.JOBS[n].group == "any" or n.endswith("with_tag")], ["str"])
    T["C14"] = rule(group("ench", "enc", *big), ["ehdr", "elen"])
    T["C15"] = rule(group("enc", *big), ["econtent"])
    T["C16"] = rule(group("visit"), ["visit"])
    T["C17"] = rule(group("acc"), ["acc"])
    T["C18"] = rule(group("iter"), ["iter"]) + [("iter", "into_iter", ()), ("iter", "ref_iter", ())]
    T["C19"] = rule(group("new"), ["new"])
    T["C20"] = [("effects", "call graph", ("state", "ambient", "address"))]
    T["C21"] = [("effects", "call graph", ("leak",)), ("witness", "unsafe code", ("unsafe",)), ("witness", "lifetimes", ("witness",))] + borrow.tasks()
    T["C22"] = rule(group("tryfrom"), ["header", "kind", "content", "value", "str", "constr", "reject", "child", "cvalue"])
    T["C23"] = agree.tasks()
    T["C24"] = oid.tasks(tier)
    T["C25"] = rule(PARSE, ["reject"]) + rule(COMB, ["creject"])
    return T


EXPLAIN = {"*": "Abstract interpretation of the monomorphic MIR of every public entry point the property quantifies over, started from a fully "
                "symbolic input; trace partitioning gives a finite set of final abstract states which together over-approximate all executions; the "
                "property's rule (an independent specification of the entry point) is evaluated on every state, splitting it where the specification "
                "distinguishes cases. 'cases_decided' counts the leaf cases on which the rule was discharged, 'undecided_cases' those it could not "
                "decide (reported, never raised as an alarm)."}
TECHNIQUE = {"*": "abstract interpretation of the type-checked program (monomorphic MIR): trace partitioning over symbolic inputs with linear-inequality, value-set, slice-provenance and variant domains; outcome states compared with an independent specification"}
NOTE = {"*": "Over-approximates every execution of the analysed entry points: no violation means no abstract final state contradicts the rule, except for the cases the evidence lists as undecided. Trusted: rustc's MIR, the interpreter and its models of core/alloc/nom/asn1-rs leaf functions, and the specification rules. A violation is only raised for a path with an explicit satisfying assignment and no widened or unmodelled value on it."}
TECHNIQUE["C01"] = "abstract interpretation of the type-checked program (monomorphic MIR): every overflow, bounds, unwrap and explicit-panic obligation on every path from every public entry point is discharged in the linear-inequality and value-set domains, recursion by function summaries"
TECHNIQUE["C02"] = "abstract interpretation of the monomorphic MIR: depth budget compared with the specification at every parse entry, plus a termination-measure check of every recursive call edge of the call graph (budget decreases or argument is a component)"
TECHNIQUE["C20"] = "effect analysis over the call graph of the type-checked program: reachability of mutable statics, thread-locals, ambient-authority library calls and address-to-number casts"
TECHNIQUE["C21"] = "unsafe-code lint forced from the command line, borrow-checker compile-fail witnesses with compiling twins, call-graph search for leaking or transmuting calls, and slice-provenance abstract interpretation of every parser's result"
TECHNIQUE["C24"] = "bit-level abstract interpretation of the encoder's MIR on symbolic component values of each octet count, compared bit for bit with the base-128 encoding"
NOTE["C20"] = "Call-graph reachability over the whole instantiated public API; library functions are judged by their path against a list of ambient-authority functions, so an effect hidden in an unlisted function of the standard library would be missed. Dependencies (nom, asn1-rs, cookie-factory, num-bigint) are scanned body by body."
NOTE["C21"] = "The lint and the borrow checker are rustc's own. Provenance is decided for every byte and text slice in every successful result; slices produced by caller-supplied callbacks are assumed to borrow as their types say. Unsafe code of dependencies is outside the property."
NOTE["C24"] = "Bounded: lists of up to five components and components of up to 20 octets (quick) or 40 octets (thorough); within a shape all values are covered. The token-level parsing of the macro's input is not covered."
EXPLAIN["C20"] = "Every function body of the instantiated public API outside the standard library is scanned for accesses to mutable statics and thread-locals, for calls that consult or change the environment of the process, and for address-to-number casts; the same rule is run on probes that contain each of these effects and must report them."
EXPLAIN["C21"] = "Four obligations: the library compiles with unsafe code forbidden from the command line (all features and none; a probe with each unsafe construct is rejected by the same command); each lifetime witness has the required borrow-checker verdict; no function of the library calls a leaking, transmuting or raw-pointer-to-slice function; and in every final abstract state of every parser each slice of the result has the input as provenance."
EXPLAIN["C24"] = "For each shape of the component list (octet count per component) the encoder is interpreted abstractly with symbolic bits; the resulting octets are compared bit for bit with the base-128 specification. States where the encoder panics must be unreachable for valid lists."
EXPORT = {"C24": "oid"}       # which program is exported (default: the library)
NOT_APPLICABLE = {}
