"""More runtime properties decided on node automata: error tracking, entry points, character classes."""
import interp, nodes, automata, vocab
from interp import T, norm, Unsupported, Budget
from nodes import proj_track, run_node, node_sub, ref_sub
import props_core
from props_core import AI, REFS, NEVER, CHOICES, SEQS, STACKOPS, TERMS, family


def track_ret(l):
    l = proj_track(l)
    if l is not None and l[0] == "ret":
        v = l[1]
        return ("ret", not (v[0] == "agg" and v[1] == "Option" and v[2] == 0))
    return l


def c14(rep, prog):
    rep.rule = AI + "Projected to the calls into the failure tracker and outcomes of sub-parsers."
    names = CHOICES + SEQS + STACKOPS + TERMS + ["Option", "RepMinMax", "Positive", "Negative"]
    family(rep, prog, names, track_ret, "tracking", 100)


# ------------------------------------------------------------------ entry points
TNODE = "pest3_core::typed::traits::TypedNode::"
TPARSER = "pest3_core::typed::traits::TypedParser::"
NNODE = "pest3_core::typed::traits::NeverFailedTypedNode::"
ENTRIES = [
    (TNODE + "try_parse_with", "entry_with", 3), (TNODE + "check_with", "entry_check_with", 3),
    (TNODE + "try_parse_partial", "str_partial", 1), (TNODE + "try_parse", "str_parse", 1),
    (TNODE + "check_partial", "str_check_partial", 1), (TNODE + "check", "str_check", 1),
    (TPARSER + "try_parse_with", "entry_with", 3), (TPARSER + "try_parse_with_partial", "entry_partial", 3),
    (TPARSER + "try_parse", "str_parse", 1), (TPARSER + "try_parse_partial", "str_partial", 1),
    (NNODE + "parse_partial", "str_never", 1),
]


def entry_nfa(prog, f, sub, nargs, opaque=None):
    ip = nodes.RetInterp(prog, opaque)
    ip.gcap = 3
    heap = {vocab.STACK: ("stk", "main"), vocab.TRK: ("trk", "main")}
    args = [("s", "input")] if nargs == 1 else [vocab.IN, ("ref", vocab.STACK, (), True), ("ref", vocab.TRK, (), True)]
    return interp.explore(ip, interp.new_state(ip, f["id"], sub, args, heap, None, {}))


def entry_check(rep, prog, key, f, ref, nargs, sub, T0=("param", "P0"), R0=("param", "P1")):
    opaque = lambda t: t == T0
    try:
        a = entry_nfa(prog, f, sub, nargs, opaque)
        bad = nodes.bad_labels(a)
        if bad:
            rep.unsure(key, f["loc"], "effect outside of the vocabulary: " + automata.show(bad[0]))
            return
    except (Unsupported, Budget) as e:
        rep.unsure(key, f["loc"], str(e))
        return
    rf = prog.fns["models::refs::" + ref]
    b = entry_nfa(prog, rf, {"T": T0, "K": R0}, nargs, opaque)
    d = automata.compare(a, b)
    if d is None:
        rep.ok(key, f["loc"], "%d abstract states, %d effects" % (a.states, a.nedges()))
    elif d[0] == "undecided":
        rep.unsure(key, f["loc"], str(d[1]))
    else:
        rep.bad(key, f["loc"], props_core.describe(d, "the code", "the specification"))


def c12(rep, prog):
    rep.rule = AI + "Here: every entry point, from the text (fresh position, stack and tracker) to the returned result."
    n = 0
    for fid, ref, nargs in ENTRIES:
        f = prog.fns.get(fid)
        key = "entry/" + "::".join(fid.split("::")[-2:])
        if f is None or "body" not in f:
            rep.bad("anchor/" + key, "core/src/typed/traits.rs", "the entry point no longer exists")
            continue
        n += 1
        sub = {"Self": ("param", "P0"), "R": ("param", "P1"), "T": ("param", "P0")}
        entry_check(rep, prog, key, f, ref, nargs, sub)
    # an implementation must not replace the provided entry points
    refs = {x[0].split("::")[-1]: x for x in ENTRIES if not x[0].startswith(TPARSER)}
    for f in prog.fns.values():
        if f.get("trait") not in (nodes.TN, nodes.NF) or f["name"] not in refs or "body" not in f:
            continue
        n += 1
        fid, ref, nargs = refs[f["name"]]
        entry_check(rep, prog, "override/" + f["id"], f, ref, nargs, {}, T(f["self"]), T(f["targs"][1]))
    rep.expect("entry points", n, 11)
    rep.assumptions += props_core.ASSUME


# ------------------------------------------------------------------ character classes
ASCII = {
    "ascii_digit": "09", "ascii_nonzero_digit": "19", "ascii_bin_digit": "01", "ascii_oct_digit": "07",
    "ascii_hex_digit": "09afAF", "ascii_alpha_lower": "az", "ascii_alpha_upper": "AZ", "ascii_alpha": "azAZ",
    "ascii_alphanumeric": "azAZ09", "ascii": "\x00\x7f",
}
CLASSPATH = "pest3_core::typed::template::"


def charset(prog, t, d=0):
    """code points a character-class type accepts, or None"""
    n = t[1].split("::")[-1] if t[0] == "adt" else ""
    if d > 8 or t[0] != "adt":
        return None
    if n == "CharRange" and all(a[0] == "cval" for a in t[2]):
        lo, hi = int(t[2][0][2]), int(t[2][1][2])
        return frozenset(range(lo, hi + 1))
    if n.startswith("Choice") and t[1].startswith("pest3_core::choice::"):
        r = [charset(prog, a, d + 1) for a in t[2]]
        return None if None in r else frozenset().union(*r)
    if n == "Char" and t[2][0][0] == "cval":
        return frozenset([int(t[2][0][2])])
    if n == "Str" and t[2][0][0] == "adt":
        return None
    return None


def c18(rep, prog):
    rep.rule = ("ASCII classes: the code points denoted by the aliased type (ranges and choices, whose own behaviour is checked elsewhere) "
                "against the documented class. Unicode classes: on every path of parse and check the only condition on the "
                "character is the predicate of the property of the same name, and the character matched is consumed and returned.")
    n = 0
    for name, spec in ASCII.items():
        a = prog.aliases.get(CLASSPATH + name)
        if a is None:
            ad = prog.adts.get(CLASSPATH + name)
            if ad is None:
                rep.bad("anchor/" + name, "core/src/typed/template/mod.rs", "the built-in `%s` no longer exists" % name)
            else:
                rep.unsure("ascii/" + name, ad["loc"], "no longer an alias of ranges")
            continue
        want = set()
        for i in range(0, len(spec), 2):
            want |= set(range(ord(spec[i]), ord(spec[i + 1]) + 1))
        got = charset(prog, T(a["t"]))
        n += 1
        if got is None:
            rep.unsure("ascii/" + name, a.get("loc", CLASSPATH), interp.tyname(T(a["t"])))
        elif got != want:
            d = sorted(got ^ want)
            rep.bad("ascii/" + name, a.get("loc", CLASSPATH + name), "%d characters differ, e.g. U+%04X is %s" % (
                len(d), d[0], "accepted but not in the class" if d[0] in got else "in the class but not accepted"))
        else:
            rep.ok("ascii/" + name, a.get("loc", CLASSPATH + name), "%d code points" % len(got))
    rf = prog.fns["models::refs::prop_p"]
    ref, _, _ = props_core.automaton(prog, rf, ref_sub(rf), None, 3, None)
    m = 0
    for name, ms in sorted(props_core.core_nodes(prog).items()):
        if name in REFS or name in NEVER:
            continue
        for meth in ("try_parse_with_partial", "check_with_partial"):
            f = ms.get(meth)
            if f is None:
                continue
            key = "unicode/%s::%s" % (name, meth)
            a, ip, why = props_core.automaton(prog, f, node_sub(f), None, 3, None)
            if a is None:
                rep.unsure(key, f["loc"], why)
                continue
            m += 1
            want = ("call", "pest::unicode::" + name, (), (("chr", vocab.IN),))
            seen = set()

            def fx(l):
                l = nodes.proj_stack(l)
                if meth == "check_with_partial":
                    l = nodes.drop_value(l)
                if l is not None and l[0] == "if" and l[1][0] == "call":
                    seen.add(l[1])
                    return ("if", ("PROP",), l[2])
                return l
            b = ref.project(lambda l: fx(l))
            seen.clear()
            a2 = a.project(fx)
            preds = set(seen)
            if preds and all(p[1].startswith("pest::unicode::") for p in preds) and preds != {want}:
                bad = sorted(p[1] for p in preds if p != want) or [str(preds)]
                rep.bad(key, f["loc"], "the class `%s` is decided by `%s`" % (name, bad[0]))
                continue
            d = automata.compare(a2, b)
            left = [l for l in a2.labels() if nodes.foreign(l)]
            if d is None and preds == {want}:
                rep.ok(key, f["loc"], "%d abstract states" % a.states)
            elif left or (d is not None and d[0] == "undecided") or not all(p[1].startswith("pest::unicode::") for p in preds):
                rep.unsure(key, f["loc"], str(why))
            elif d is None:
                rep.bad(key, f["loc"], "the class `%s` is not decided by its property" % name)
            else:
                rep.bad(key, f["loc"], props_core.describe(d, "the code", "the specification"))
    rep.expect("ASCII classes", n, 10)
    rep.expect("Unicode class methods", m, 500)
    rep.assumptions += ["the predicates of pest::unicode (external crate) decide the property they are named after"]


PROPS = {"C18": c18, "C12": c12, "C14": c14}
