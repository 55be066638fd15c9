"""Properties of the runtime (pest3_core) decided on node automata."""
import interp, nodes, automata, vocab
from interp import T, Unsupported, Budget
from nodes import TN, NF, cint, run_node, node_sub, ref_sub, drop_value, proj_stack, proj_track

INF = 2 ** 64 - 1
REFS = {
    "RepMinMax": ["rep_p"], "Str": ["str_p"], "Insens": ["insens_p"], "SkipChar": ["skip_p"],
    "CharRange": ["range_p"], "Char": ["char_p", "char_p2"], "Positive": ["positive_p"],
    "Negative": ["negative_p"], "any": ["any_p"], "NONE": ["none_p"], "Empty": ["empty_p"], "soi": ["soi_p"],
    "eoi": ["eoi_p"], "newline": ["newline_p"], "peek_all": ["peek_all_p"], "peek": ["peek_p"],
    "drop": ["drop_p"], "pop": ["pop_p", "pop_p2", "pop_p3", "pop_p4"], "pop_all": ["pop_all_p", "pop_all_p2"],
    "push": ["push_p"], "PeekSlice2": ["peek2_p"], "PeekSlice1": ["peek1_p"], "Option": ["option_p"],
}
for _i in range(2, 17):
    REFS["Choice%d" % _i] = ["choice_p%d" % _i]
    REFS["Sequence%d" % _i] = ["seq_p%d" % _i]
NEVER = {"RepMinMax": ["rep_n"], "Empty": ["empty_n"]}
METHODS = ("try_parse_with_partial", "check_with_partial", "parse_with_partial")


def node_name(f):
    t = T(f["self"])
    return t[1].split("::")[-1] if t[0] == "adt" else interp.tyname(t)


def core_nodes(prog):
    """{node name: {method: fn}} for every node implementation of the runtime"""
    r = {}
    for f in prog.crates["pest3_core"].fns.values():
        if f.get("trait") in (TN, NF) and f["name"] in METHODS and f.get("self") and "body" in f:
            r.setdefault(node_name(f), {})[f["name"]] = f
    return r


def insts(name, never, thorough):
    """const-generic instances (code, reference), ghost item, gcap, stack depths"""
    if name == "RepMinMax":
        out = []
        M = 6 if thorough else 4
        for mn in range(M):
            for mx in list(range(M + 1)) + [INF]:
                if mn <= mx:
                    if never:
                        if mn == 0:
                            out.append(({2: cint(0), 3: cint(mx)}, {2: cint(mx)}))
                    else:
                        d = {2: cint(mn), 3: cint(mx)}
                        out.append((d, d))
        return out, "P0", M + 2, [None]
    if name in ("PeekSlice1", "PeekSlice2"):
        k = 6 if thorough else 4
        c = lambda n: ("cval", "isize", str(n))
        r = range(-k, k + 1)
        if name == "PeekSlice1":
            out = [({0: c(a)},) * 2 for a in r]
        else:
            out = [({0: c(a), 1: c(b)},) * 2 for a in r for b in r]
        return out, None, 3, list(range(k))
    return [({}, {})], None, 3, [None]


_cache = {}


def automaton(prog, f, sub, item, gcap, depth, opaque=None):
    k = (id(prog), f["id"], tuple(sorted(sub.items())), item, gcap, depth, id(opaque))
    if k not in _cache:
        try:
            nfa, ip = run_node(prog, f, sub, item, gcap, depth, opaque)
            bad = nodes.bad_labels(nfa)
            why = None
            if bad:
                why = "effect outside of the vocabulary: " + automata.show(bad[0])
            _cache[k] = (nfa, ip, why)
        except (Unsupported, Budget) as e:
            _cache[k] = (None, None, str(e))
    return _cache[k]


def describe(diff, side_a, side_b):
    pre, a, b = diff
    if pre == "undecided":
        return "undecided: " + str(a)
    s = "after [" + "; ".join(automata.show(l) for l in pre) + "] "
    return s + "%s can do {%s} where %s does {%s}" % (
        side_a, "; ".join(automata.show(l) for l in a[:4]) or "nothing else",
        side_b, "; ".join(automata.show(l) for l in b[:4]) or "nothing else")


def against_refs(rep, prog, name, f, proj, refs, thorough, prefix):
    """compare one node method with its reference behaviours"""
    never = f["name"] == "parse_with_partial"
    ins, item, gcap, depths = insts(name, never, thorough)
    value = f["name"] != "check_with_partial"

    def fx(l):
        if not value:
            l = drop_value(l)
        return proj(l)
    for ia, ib in ins:
        for d in depths:
            key = "%s/%s::%s" % (prefix, name, f["name"])
            inst = ""
            if ia:
                inst = "<" + ",".join(str(v[2]) for k, v in sorted(ia.items())) + ">"
                key += inst
            if d is not None:
                key += "@depth%d" % d
            a, ipa, why = automaton(prog, f, node_sub(f, ia), item, gcap, d)
            if why:
                rep.unsure(key, f["loc"], why)
                continue
            first = None
            for rn in refs:
                rf = prog.fns["models::refs::" + rn]
                b, _, why = automaton(prog, rf, ref_sub(rf, ib), item, gcap, d)
                assert not why, (rn, why)
                diff = automata.compare(a.project(fx), b.project(fx))
                if diff is None:
                    first = None
                    break
                if first is None:
                    first = diff
            if first is None:
                rep.ok(key, f["loc"], "%d abstract states, %d effects" % (a.states, a.nedges()))
                rep.extra["abstract_states"] = rep.extra.get("abstract_states", 0) + a.states
            elif first[0] == "undecided":
                rep.unsure(key, f["loc"], str(first[1]))
            else:
                rep.bad(key, f["loc"], describe(first, "the code", "the specification"))


def thorough():
    import os
    return os.environ.get("VERIF_TIER") == "thorough"


def family(rep, prog, names, proj, prefix, floor, methods=METHODS):
    ns = core_nodes(prog)
    n = 0
    for name in names:
        ms = ns.get(name)
        if not ms:
            rep.bad("anchor/%s" % name, "core/src", "the runtime no longer provides the node `%s`" % name)
            continue
        for m in methods:
            f = ms.get(m)
            if f is None:
                if m != "parse_with_partial":
                    rep.bad("anchor/%s::%s" % (name, m), "core/src", "node `%s` has no `%s`" % (name, m))
                continue
            n += 1
            refs = NEVER[name] if m == "parse_with_partial" else REFS[name]
            against_refs(rep, prog, name, f, proj, refs, thorough(), prefix)
    rep.expect("node methods", n, floor)
    rep.assumptions += ASSUME


ASSUME = [
    "pest::Stack (external crate) implements snapshot/restore/clear_snapshot as documented",
    "the MIR of the nightly compiler is a faithful view of the source",
    "const parameters are covered on a small grid plus the unbounded maximum; comparisons between them are difference constraints",
]

CHOICES = ["Choice%d" % i for i in range(2, 17)]
SEQS = ["Sequence%d" % i for i in range(2, 17)]
STACKOPS = ["push", "pop", "pop_all", "peek", "peek_all", "drop", "PeekSlice1", "PeekSlice2"]
TERMS = ["Str", "Insens", "SkipChar", "CharRange", "Char", "any", "NONE", "Empty", "soi", "eoi", "newline"]
AI = ("Abstract interpretation of the MIR of every listed method to a finite automaton of effects "
      "(sub-parser calls with their start position and outcome, stack operations, guards, returned value), "
      "compared for equality with the automaton of the reference behaviour under every guard valuation. ")


def c01(rep, prog):
    rep.rule = AI + "Here: the automaton of the checking method against the parsing method of the same node, value erased."
    ns = core_nodes(prog)
    n = 0
    for name, ms in sorted(ns.items()):
        p, c = ms.get("try_parse_with_partial"), ms.get("check_with_partial")
        if not p or not c:
            if "parse_with_partial" not in ms or p or c:
                rep.bad("anchor/%s" % name, "core/src", "node lacks one of parse/check")
            continue
        n += 1
        ins, item, gcap, depths = insts(name, False, thorough())
        # which calls are opaque does not matter, both sides are treated alike
        for ia, _ in ins:
            for d in depths:
                key = "agree/%s" % name
                if ia:
                    key += "<" + ",".join(str(v[2]) for k, v in sorted(ia.items())) + ">"
                if d is not None:
                    key += "@depth%d" % d
                pair_agree(rep, prog, key, p, c, node_sub(p, ia), node_sub(c, ia), item, gcap, d)
        nf = ms.get("parse_with_partial")
        if nf is not None and name in NEVER:
            pass
    rep.expect("node types", n, 300)
    rep.assumptions += ASSUME


def pair_agree(rep, prog, key, p, c, sp, sc, item, gcap, d, opaque=None):
    a, ipa, wa = automaton(prog, p, sp, item, gcap, d, opaque)
    b, ipb, wb = automaton(prog, c, sc, item, gcap, d, opaque)
    if a is None or b is None:
        rep.unsure(key, p["loc"], wa or wb)
        return
    fx = lambda l: (lambda m: drop_value(m) if isinstance(m, tuple) else m)(proj_stack(l))
    diff = automata.compare(a.project(fx), b.project(fx))
    if diff is None:
        rep.ok(key, p["loc"], "%d/%d abstract states" % (a.states, b.states))
    elif wa or wb or diff[0] == "undecided":
        # calls of pure external predicates are the same uninterpreted terms on both
        # sides; anything else outside of the vocabulary leaves the question open
        fa = [l for l in nodes.bad_labels(a) + nodes.bad_labels(b) if not pure_pred(l)]
        if fa or diff[0] == "undecided":
            rep.unsure(key, p["loc"], wa or wb or str(diff[1]))
        else:
            rep.bad(key, c["loc"], describe(diff, "parsing", "checking"))
    else:
        rep.bad(key, c["loc"], describe(diff, "parsing", "checking"))


def pure_pred(l):
    """a guard on an uninterpreted predicate of a character"""
    return l[0] == "if" and l[1][0] == "call" and len(l[1][3]) == 1 and l[1][3][0][0] == "chr"


def stack_only(l):
    l = proj_stack(l)
    if l is None:
        return None
    if l[0] == "sub":
        return ("sub", l[1], l[3], l[-1])
    if l[0] == "ret":
        v = l[1]
        ok = not (v[0] == "agg" and v[1] == "Option" and v[2] == 0)
        return ("ret", ok)
    if l[0] in ("match", "imatch", "skip"):
        return l
    return l


def c02(rep, prog):
    rep.rule = AI + "Projected to stack operations and outcomes of sub-parsers."
    family(rep, prog, CHOICES + ["Option", "RepMinMax", "Positive", "Negative"] + SEQS, stack_only, "backtrack", 69)


def mk(names, prefix, floor, text):
    def run(rep, prog):
        rep.rule = AI + text
        family(rep, prog, names, proj_stack, prefix, floor)
    return run


PROPS = {
    "C01": c01, "C02": c02,
    "C03": mk(CHOICES, "choice", 30, "All choice arities."),
    "C04": mk(SEQS, "sequence", 30, "All sequence arities."),
    "C05": mk(["RepMinMax"], "repetition", 3, "Every (MIN, MAX) on the grid; the iteration count is unbounded (widening)."),
    "C06": mk(["Positive", "Negative"], "lookahead", 4, "Both predicates."),
    "C07": mk(["Option"], "optional", 2, "The optional node."),
    "C08": mk(STACKOPS, "stackop", 16, "All nodes that read or write the stack."),
    "C09": mk(TERMS, "terminal", 22, "All terminals."),
}
