"""Properties of generated parsers, decided on the type-checked output of the derive macro for the
witness grammars; the oracle is pestgram, an independent reading of the grammar format."""
import json, os, re
from interp import *
import facts, pestgram, values
from values import ValInterp, LIST, TUP, SOME, NONE, canon, is_list
from pestgram import CORE, TPL, EMPTY

G = os.path.join(facts.VERIF, "witness", "g")
DERIVE = "derive/src/lib.rs"
GEN = "generator/src/typed/generator.rs"
BOX = "alloc::boxed::Box"


def unraw(n):
    return n[2:] if n.startswith("r#") else n


class W:
    """the witness crate and the grammars it was generated from"""
    _c = {}

    def __init__(self, prog):
        self.crate, self.failed = facts.witness()
        self.prog = prog
        self.mods = {}
        for name, gs, attrs, _ in facts.witness_modules():
            g = pestgram.Grammar()
            files = []
            for f, inline in gs:
                p = os.path.join(facts.VERIF, "witness", f)
                h = pestgram.read(p)
                g.rules += h.rules
                g.imports += h.imports
                g.docs += h.docs
                files.append(p)
            m = re.search(r'rules_mod\s*=\s*"(\w+)"', attrs)
            self.mods[name] = (pestgram.Module(g, "witness::" + name, files[0], m.group(1) if m else "rules", True, prog), attrs)
        # modules for a known defect (k_…) are looked at by the check it belongs to only
        self.plain = [m for m in self.mods if not m.startswith("k_")]
        self.strs = {}
        if self.crate:
            for c in self.crate.consts.values():
                if c.get("trait", "").endswith("wrapper::String") and c["name"] == "CONTENT":
                    v = c.get("v") or {}
                    if v.get("k") == "str":
                        self.strs[c["self"]["p"]] = v["v"]

    @staticmethod
    def get(prog):
        k = id(prog)
        if k not in W._c:
            W._c[k] = W(prog)
        return W._c[k]

    def usable(self, rep, names):
        """the modules of `names` that compiled; the others are violations of the property"""
        out = []
        if "*" in self.failed or self.crate is None:
            msg = "; ".join(self.failed.get("*", ["no facts"]))[:1500]
            rep.bad("witness", DERIVE, "the witness crate does not build: " + msg)
            return []
        for n in names:
            if n in self.failed:
                rep.bad("compiles/" + n, DERIVE, "the parser derived for %s does not compile: %s" % (
                    n, "; ".join(self.failed[n])[:1200]))
            else:
                out.append(n)
        return out

    # ---- types
    def norm(self, t):
        """type facts -> the terms of pestgram"""
        k = t["k"]
        if k == "adt":
            a = tuple(self.norm(x) for x in t["a"])
            p = t["p"]
            n = p.split("::")[-1]
            if p == TPL + "Str" and len(a) == 1 and a[0][0] == "adt" and a[0][1] in self.strs:
                return ("Str", self.strs[a[0][1]])
            if p == TPL + "Insens" and len(a) == 1 and a[0][0] == "adt" and a[0][1] in self.strs:
                return ("Insens", self.strs[a[0][1]])
            m = re.fullmatch(r"(Sequence|Choice)(\d+)", n)
            if m and (p.startswith(CORE) or "::generics::" in p):
                want = int(m.group(2)) * (2 if m.group(1) == "Sequence" else 1)
                if len(a) == want:
                    return ("adt", m.group(1), a)
            return ("adt", p, a)
        if k == "cval":
            return ("cval", t["t"], t["v"])
        if k == "param":
            return ("param", unraw(t["n"]))
        return ("other", json.dumps(t)[:200])

    def builtin(self, e):
        """expand ("builtin", name, args) terms to what the core crate exports under that name"""
        if not isinstance(e, tuple):
            return e
        if e and e[0] == "builtin":
            p = TPL + e[1]
            if p in self.prog.aliases:
                return self.norm(self.prog.aliases[p]["t"])
            return ("adt", p, tuple(self.builtin(x) for x in e[2]))
        return tuple(self.builtin(x) for x in e)

    def content(self, adt):
        """(content type, boxed) of a rule struct"""
        a = self.crate.adts.get(adt)
        if a is None:
            return None
        for f in a["v"][0]["f"]:
            if f["n"] == "content":
                t = f["t"]
                if t["k"] == "adt" and t["p"] == BOX:
                    return t["a"][0], True
                return t, False
        return None


def tshow(t):
    k = t[0]
    if k in ("Str", "Insens"):
        return "%s%r" % ("i" if k == "Insens" else "", t[1])
    if k == "adt":
        n = "::".join(t[1].split("::")[-2:]) if t[1].startswith("witness") else t[1].split("::")[-1]
        return n + ("<%s>" % ", ".join(tshow(x) for x in t[2]) if t[2] else "")
    if k == "cval":
        return t[2]
    return str(t[1:])


def first_diff(a, b):
    """the smallest differing pair of sub-terms"""
    if a == b:
        return None
    if a[0] == "adt" and b[0] == "adt" and a[1] == b[1] and len(a[2]) == len(b[2]):
        for x, y in zip(a[2], b[2]):
            d = first_diff(x, y)
            if d:
                return d
    return a, b


def all_modules(m):
    yield m
    for c in m.children.values():
        yield from all_modules(c)


def check_types(rep, w, mod, pick=lambda r: True):
    """content types of the rules of a witness module (and of the grammars it imports)"""
    root = w.mods[mod][0]
    n = 0
    for m in all_modules(root):
        for r in m.rules():
            if not pick(r):
                continue
            key = "type/%s/%s" % (m.rust.replace("witness::", ""), r["name"])
            where = "%s: rule %s" % (os.path.relpath(m.file, facts.VERIF), r["name"])
            adt = m.path(r["name"])
            c = w.content(adt)
            if c is None:
                rep.bad(key, where, "no public struct with a field `content` was generated for the rule")
                continue
            n += 1
            try:
                exp = w.builtin(m.rule_type(r))
            except Exception as e:
                rep.unsure(key, where, "oracle: %r" % e)
                continue
            got = w.norm(c[0])
            d = first_diff(got, exp)
            if d is None:
                rep.ok(key, where, tshow(got)[:400])
                rep.sample({"key": key, "where": where, "type": tshow(got)[:400]})
            else:
                rep.bad(key, where, "the generated rule contains %s where the grammar says %s" % (tshow(d[0]), tshow(d[1])))
    return n


def c30(rep, prog):
    rep.rule = ("The type generated for every rule of the witness grammars that exercise the operators is compared, argument by "
                "argument, with the type an independent reader of the grammar text derives for it.")
    w = W.get(prog)
    n = 0
    for m in w.usable(rep, ["w_operators", "w_arity", "w_trivia", "w_format", "w_combo", "w_nest", "w_numbers", "w_extra"]):
        n += check_types(rep, w, m)
    if not w.failed:
        rep.expect("witness rules", n, 100)


def c31(rep, prog):
    rep.rule = ("The type generated for every rule of the witness grammars that exercise literals is compared, argument by argument, with the type "
                "an independent reader of the grammar text derives for it. Literal types are resolved to the text of their constant.")
    w = W.get(prog)
    n = 0
    for m in w.usable(rep, ["w_literals", "w_combo", "w_extra"]):
        n += check_types(rep, w, m)
    if not w.failed:
        rep.expect("witness rules", n, 20)


def c34(rep, prog):
    rep.rule = ("The type generated for every rule of the witness grammars that exercise rules with parameters and silent rules that are inlined is compared, argument by argument, with the type "
                "an independent reader of the grammar text derives for it.")
    w = W.get(prog)
    n = 0
    for m in w.usable(rep, ["w_generic", "w_nogetter", "w_nopair", "w_import3", "w_combo", "w_nest", "w_extra", "k_capture"]):
        n += check_types(rep, w, m)


def c36(rep, prog):
    rep.rule = ("The type generated for every rule of the witness grammars that exercise imports, renamed imports, nested imports and several grammars per parser is compared, argument by argument, with the type "
                "an independent reader of the grammar text derives for it. Rule paths are resolved to the generated structs.")
    w = W.get(prog)
    for m in w.usable(rep, ["w_import", "w_import2", "w_import3", "w_import4", "w_rulesmod", "w_two", "w_inline"]):
        check_types(rep, w, m)


def c38(rep, prog):
    rep.rule = ("Every witness grammar has to be accepted by the derive macro and its output by the compiler, in a crate that forbids nothing but uses only the "
                "public crates; for the grammars whose rules are named like keywords, prelude items and items of the generated code, and for the recursive ones, the "
                "types of all rules are compared with those derived independently, so that no name is captured.")
    w = W.get(prog)
    ok = w.usable(rep, w.plain + ["k_shadow_module", "k_shadow_rule", "k_poly", "k_trivia_rec", "k_getter_tree", "k_getter_pairs"])
    for m in ok:
        rep.ok("compiles/" + m, DERIVE)
    for m in ("w_hygiene", "w_recursive", "w_boxing", "w_boxes"):
        if m in ok:
            check_types(rep, w, m)


def c40(rep, prog):
    rep.rule = ("The type generated for every rule of the witness grammars that exercise built-in rules by full path, by imported name and by renamed import is compared, argument by argument, with the type "
                "an independent reader of the grammar text derives for it.")
    w = W.get(prog)
    for m in w.usable(rep, ["w_builtin", "w_numbers", "w_unicode"]):
        check_types(rep, w, m)


# ------------------------------------------------------------------ rule nodes
TN = "pest3_core::typed::traits::TypedNode"
PT = "pest3_core::typed::traits::PairTree"
PC = "pest3_core::typed::traits::PairContainer"


def full(prog):
    """the program together with the witness crate"""
    return facts.program(("pest3_core", "pest3_meta", "pest3_generator", "pest3_derive", "pest3", "models", "witness"))


def variants(w, adt):
    a = w.crate.adts.get(adt)
    return [unraw(v["n"]) for v in a["v"]] if a else None


def rule_values(w, root):
    """{(rule struct, Rule enum): value} for every rule and every enclosing grammar"""
    out = {}

    def walk(m, chain):
        for r in m.rules():
            for i in range(len(chain)):
                v = None
                for j in range(len(chain) - 1, i - 1, -1):
                    en = chain[j].rust + "::Rule"
                    vs = variants(w, en) or []
                    n = r["name"] if j == len(chain) - 1 else chain[j + 1].rust.split("::")[-1]
                    if n not in vs:
                        v = None
                        break
                    v = ("agg", en, vs.index(n), () if v is None else (v,))
                out[(m.path(r["name"]), chain[i].rust + "::Rule")] = (v, r)
        for c in m.children.values():
            walk(c, chain + [c])
    walk(root, [root])
    return out


def c15(rep, prog):
    import nodes, automata
    rep.rule = ("The node implementation generated for every witness rule is abstracted to an automaton of its effects (its content is "
                "one opaque sub-parser) and compared with the reference rule node: begin the rule's own tracking frame, run the "
                "content once on the same position, end the frame with the outcome, and give the content together with the span from "
                "the start to the position the content reached. Pair views of the rule are compared path by path.")
    w = W.get(prog)
    ok = w.usable(rep, w.plain)
    if not ok:
        return
    P = full(prog)
    impls = {}
    for f in P.crates["witness"].fns.values():
        if f.get("trait") in (TN, PT, PC) and f.get("self") and "body" in f and len(f.get("targs", [])) == 2:
            impls[(f["trait"], f["self"].get("p"), f["targs"][1].get("p"), f["name"])] = f
    consts = {}
    for c in w.crate.consts.values():
        if c.get("trait", "").endswith("wrapper::Rule") and c["name"] == "RULE":
            consts[c["self"]["p"]] = c
    n = 0
    for mod in ok:
        root, attrs = w.mods[mod]
        for (adt, en), (val, r) in rule_values(w, root).items():
            short = adt.replace("witness::", "")
            where = "%s rule %s for %s" % (mod, r["name"], en.replace("witness::", ""))
            key = "%s/%s" % (short, en.replace("witness::", ""))
            if val is None:
                rep.bad("variant/" + key, where, "the enumeration of rules has no variant for the rule")
                continue
            c = w.content(adt)
            if c is None:
                rep.bad("struct/" + key, where, "no struct with a field `content`")
                continue
            n += 1
            for name, rn in (("try_parse_with_partial", "rule_p"), ("check_with_partial", "rule_c")):
                f = impls.get((TN, adt, en, name))
                if f is None:
                    rep.bad("node/%s::%s" % (key, name), where, "the rule does not implement a parser node for this enumeration of rules")
                    continue
                one_node(rep, P, "node/%s::%s" % (key, name), where, f, rn, c[0], val)
            pair_view(rep, P, w, key, where, impls, consts, adt, en, val, r, "no_pair = true" in attrs, c[1])
    rep.expect("rule nodes", n, 250) if not w.failed else None


def one_node(rep, P, key, where, f, rn, content, val):
    import nodes, automata, vocab
    sub = nodes.node_sub(f)
    ty = subst(T(content), sub)
    try:
        a, ip = nodes.run_node(P, f, sub, opaque=lambda t: t == ty)
        rf = P.fns["models::refs::" + rn]
        rs = {g["n"]: x for g, x in zip(rf["gen"], (ty, ("param", "K")))}
        b, _ = nodes.run_node(P, rf, rs, opaque=lambda t: t == ty)
    except (Unsupported, Budget) as e:
        rep.unsure(key, where, str(e))
        return
    bad = nodes.bad_labels(a)
    if bad:
        rep.unsure(key, where, "effect outside of the vocabulary: " + automata.show(bad[0]))
        return

    def fx(l):
        if l[0] == "begin_rule" and l[2] == ("aconst", "RULE", (("param", "K"),)):
            l = l[:2] + (val,) + l[3:]
        return l if rn == "rule_p" else nodes.drop_value(l)
    d = automata.compare(a.project(fx), b.project(fx))
    if d is None:
        rep.ok(key, where, "%d abstract states" % a.states)
    elif d[0] == "undecided":
        rep.unsure(key, where, str(d[1]))
    else:
        from props_core import describe
        rep.bad(key, where, describe(d, "the generated code", "the specification"))


def pair_view(rep, P, w, key, where, impls, consts, adt, en, val, r, no_pair, boxed):
    import props_values as pv
    if (adt, en) and en == adt.rsplit("::", 2)[0] + "::Rule":
        c = consts.get(adt)
        if c is None:
            rep.bad("const/" + key, where, "the rule does not expose its own variant (`wrapper::Rule::RULE`)")
        else:
            v = const_value(c)
            if v is None:
                rep.unsure("const/" + key, where, "constant outside of the vocabulary")
            elif v == val[2]:
                rep.ok("const/" + key, where)
            else:
                rep.bad("const/" + key, where, "the rule's own variant is number %d, expected %s" % (v, r["name"]))
    if no_pair:
        return
    if r["silent"]:
        for name in ("for_self_or_for_each_child_pair", "for_each_child_pair"):
            f = impls.get((PC, adt, en, name))
            if f is None:
                rep.bad("pairs/%s::%s" % (key, name), where, "not implemented for a silent rule")
                continue
            effects(rep, P, "pairs/%s::%s" % (key, name), where, f, lambda p: (p.effects, p.out), ((), TUP()), boxed)
        if (PT, adt, en, "get_rule") in impls:
            rep.bad("pairs/%s::get_rule" % key, where, "a silent rule has a pair of its own")
        return
    f = impls.get((PT, adt, en, "get_rule"))
    if f is None:
        rep.bad("pairs/%s::get_rule" % key, where, "a rule that is not silent has no pair tree")
    else:
        effects(rep, P, "pairs/%s::get_rule" % key, where, f, lambda p: p.out, canon(val), boxed)
    f = impls.get((PT, adt, en, "get_span"))
    if f is None:
        rep.bad("pairs/%s::get_span" % key, where, "a rule that is not silent has no pair tree")
    else:
        effects(rep, P, "pairs/%s::get_span" % key, where, f, lambda p: p.out, TUP(("P", ("s", "S"), "a"), ("P", ("s", "S"), "b")), boxed)
    f = impls.get((PC, adt, en, "for_self_or_for_each_child_pair"))
    if f is None:
        rep.bad("pairs/%s::self" % key, where, "not implemented")
    else:
        effects(rep, P, "pairs/%s::self" % key, where, f, lambda p: p.effects, (("callfn", ("pair of self",)),), boxed)
    f = impls.get((PC, adt, en, "for_each_child_pair"))
    if f is None:
        rep.bad("pairs/%s::children" % key, where, "not implemented")
    else:
        effects(rep, P, "pairs/%s::children" % key, where, f, lambda p: p.effects, (("pairs of", ("content",)),), boxed)


def const_value(c):
    """variant index of a constant of an enum type"""
    b = c.get("body")
    if b and len(b["blocks"]) == 1:
        for s in b["blocks"][0]["s"]:
            if s["p"] == {"l": 0, "p": []} and s["r"].get("r") == "agg":
                return s["r"]["v"]
    return None


class PairInterp(ValInterp):
    def on_call(self, ip, st, call):
        n = call.path.split("::")[-1]
        if call.trait == PT and n == "as_pair_tree" or n == "as_token_tree":
            if n == "as_pair_tree" and self.deep(st, call.args[0])[0] == "agg":
                return values.out(call, self, st, ("pair of self",))
        if call.trait == PC and n in ("for_self_or_for_each_child_pair",):
            s = self.deep(st, call.args[0])
            if s == ("content",):
                return values.out(call, self, st, TUP(), (("pairs of", s),))
        return None

    def on_opaque_fn(self, ip, st, f, args, dest, target):
        if f != ("fn", 1):
            return None
        lab = ("callfn",) + tuple(self.deep(st, a) for a in args)
        return [((lab,), self.finish(st, dest, target, TUP()))]


def effects(rep, P, key, where, f, view, want, boxed=True):
    S = ("agg", f["self"]["p"], 0, (("agg", "Box", 0, (("content",),)) if boxed else ("content",), ("agg", values.SPAN, 0, (("s", "S"), ("P", ("s", "S"), "a"), ("P", ("s", "S"), "b")))))
    try:
        ip = PairInterp(P)
        n = f["body"]["argc"]
        heap = {("H", "self"): S, ("H", "f"): ("fn", 1)}
        args = [("ref", ("H", "self"), (), False), ("ref", ("H", "f"), (), True)][:n]
        import nodes
        st = new_state(ip, f["id"], nodes.node_sub(f), args, heap)
        ps = ip.paths(st)
    except (Unsupported, Budget) as e:
        rep.unsure(key, where, str(e))
        return
    got = [view(p) for p in ps]
    if got == [want]:
        rep.ok(key, where)
    elif any(values.foreign(p.effects) or values.foreign(p.out) for p in ps):
        rep.unsure(key, where, "outside of the vocabulary: %s" % str(got)[:300])
    else:
        rep.bad(key, where, "the generated code does %s, expected %s" % (str(got)[:400], str(want)[:300]))


# ------------------------------------------------------------------ the enumeration of rules
def c44(rep, prog):
    rep.rule = ("For every witness grammar and every grammar it imports: the variants of the generated `Rule` enumeration are exactly the end of "
                "input, the rules of that grammar, and one variant per imported grammar holding that grammar's enumeration; the conversion from the "
                "imported enumeration builds that variant; and the end-of-input constant is its own variant. The parser type of the derive implements the entry points for it.")
    w = W.get(prog)
    ok = w.usable(rep, w.plain)
    if not ok:
        return
    P = full(prog)
    n = 0
    parsers = {}
    for i in P.crates["witness"].impls:
        if i.get("trait", "").endswith("::TypedParser"):
            parsers.setdefault(i["self"].get("p"), []).append([a.get("p") for a in i["targs"][1:]])
    for mod in ok:
        root = w.mods[mod][0]
        pp = root.rust + "::P"
        if [root.rust + "::Rule"] in parsers.get(pp, []):
            rep.ok("parser/" + mod, mod)
        else:
            rep.bad("parser/" + mod, mod, "the derived type does not implement the entry points for the generated enumeration of rules")
        for m in all_modules(root):
            en = m.rust + "::Rule"
            key = "enum/" + en.replace("witness::", "")
            a = w.crate.adts.get(en)
            if a is None:
                rep.bad(key, mod, "no enumeration of rules was generated")
                continue
            n += 1
            got = [unraw(v["n"]) for v in a["v"]]
            want = ["EOI"] + [r["name"] for r in m.rules()] + list(m.children)
            if sorted(got) != sorted(want):
                rep.bad(key, mod, "variants missing: %s; variants that are no rule: %s" % (sorted(set(want) - set(got)), sorted(set(got) - set(want))))
                continue
            bad = None
            for v in a["v"]:
                k = unraw(v["n"])
                exp = [m.children[k].rust + "::Rule"] if k in m.children else []
                if [f["t"].get("p") for f in v["f"]] != exp:
                    bad = "variant %s holds %s, expected %s" % (k, [f["t"].get("p") for f in v["f"]], exp)
            if bad:
                rep.bad(key, mod, bad)
            else:
                rep.ok(key, mod, ", ".join(got)[:300])
            eoi = [const_value(c) for c in w.crate.consts.values() if c.get("trait", "").endswith("RuleType") and c["name"] == "EOI" and c["self"].get("p") == en]
            if eoi == [got.index("EOI")]:
                rep.ok(key + "/eoi", mod)
            elif eoi == [None]:
                rep.unsure(key + "/eoi", mod, "constant outside of the vocabulary")
            else:
                rep.bad(key + "/eoi", mod, "the end-of-input constant is variant number %s of %s" % (eoi, got))
            for k, c in m.children.items():
                fs = [f for f in P.crates["witness"].fns.values() if f["name"] == "cvt_from" and f.get("trait", "").endswith("::SuperRule")
                      and f["self"].get("p") == en and f["targs"][1].get("p") == c.rust + "::Rule" and "body" in f]
                if len(fs) != 1:
                    rep.bad("%s/from/%s" % (key, k), mod, "no conversion from the rules of the imported grammar")
                    continue
                ip = ValInterp(P)
                try:
                    ps = ip.paths(new_state(ip, fs[0]["id"], {}, [("x",)], {}))
                except (Unsupported, Budget) as e:
                    rep.unsure("%s/from/%s" % (key, k), mod, str(e))
                    continue
                want = ("agg", "_", got.index(k), (("x",),))
                if [p.out for p in ps] == [want]:
                    rep.ok("%s/from/%s" % (key, k), mod)
                elif any(values.foreign(p.out) for p in ps):
                    rep.unsure("%s/from/%s" % (key, k), mod, str(ps)[:300])
                else:
                    rep.bad("%s/from/%s" % (key, k), mod, "a rule of the imported grammar becomes %s, expected variant %s" % (str(ps)[:200], k))
    rep.expect("enumerations", n, 18) if not w.failed else None


def c47(rep, prog):
    rep.rule = ("The compile-time constant generated next to each witness parser embeds the text of every grammar file the parser was made from, "
                "imported files included, so that the build depends on them; the texts are compared with the files.")
    w = W.get(prog)
    for mod in w.usable(rep, w.plain):
        root, attrs = w.mods[mod]
        gs = [x for n, x, _, _ in facts.witness_modules() if n == mod][0]
        want = set()
        if not all(inline for _, inline in gs):
            for f, inline in gs:
                if not inline:
                    want.add(open(os.path.join(facts.VERIF, "witness", f), newline="").read())
            for m in all_modules(root):
                if m is not root:
                    want.add(open(m.file, newline="").read())
        got = set()
        def strs(v):
            if isinstance(v, dict):
                for x in v.get("strs", []):
                    got.add(x)
                for x in v.values():
                    strs(x)
                if v.get("k") == "str":
                    got.add(v["v"])
        for k, c in w.crate.consts.items():
            if k.startswith("witness::%s::" % mod) and "::" not in k[len("witness::%s::" % mod):]:
                strs(c.get("v"))
        miss = [x[:60] for x in want if x not in got]
        if miss:
            rep.bad("embedded/" + mod, mod, "no constant embeds the grammar file that starts with %r" % miss[0])
        else:
            rep.ok("embedded/" + mod, mod, "%d files" % len(want))


def c49(rep, prog):
    rep.rule = ("Documentation attributes of the items generated for the witness grammars are compared with the comments an independent reader "
                "attaches to the grammar and to each rule.")
    w = W.get(prog)
    n = 0
    for mod in w.usable(rep, w.plain):
        for m in all_modules(w.mods[mod][0]):
            a = w.crate.adts.get(m.rust + "::Rule")
            if a is None:
                continue
            key = "docs/" + m.rust.replace("witness::", "")
            got = [x.strip() for x in a.get("docs", [])]
            if got == m.g.docs:
                rep.ok(key, mod)
            else:
                rep.bad(key, mod, "grammar documentation %r, expected %r" % (got, m.g.docs))
            for r in m.rules():
                for v in a["v"]:
                    if unraw(v["n"]) == r["name"]:
                        got = [x.strip() for x in v.get("docs", [])]
                        n += bool(r["docs"])
                        if got == r["docs"]:
                            rep.ok("%s/%s" % (key, r["name"]), mod)
                        else:
                            rep.bad("%s/%s" % (key, r["name"]), mod, "rule documentation %r, expected %r" % (got, r["docs"]))


# ------------------------------------------------------------------ getters
class Shapes:
    """values of the content of a rule, built from the grammar; every reference to a rule is a leaf"""

    def __init__(self, w, P, m, rule):
        self.w, self.P, self.m, self.rule = w, P, m, rule
        self.n = 0

    def adt(self, path, children, variant=0):
        """value of a runtime struct: type parameters hold the children"""
        a = self.P.adts[path]
        names = [g["n"] for g in a["gen"] if g["k"] == "type"]
        fs = []
        for f in a["v"][variant]["f"]:
            t = T(f["t"])
            if t[0] == "param" and t[1] in names and names.index(t[1]) in children:
                fs.append(children[names.index(t[1])])
            elif t[0] == "adt" and t[1].split("::")[-1] == "Vec" and t[2][0][0] == "param":
                fs.append(children[names.index(t[2][0][1])])
            else:
                fs.append(("opaque", path, f["n"]))
        return ("agg", path, variant, tuple(fs))

    def node(self, kind, n):
        p = "%s%s::%s%d" % (CORE, kind.lower(), kind, n)
        if p in self.P.adts:
            return p
        root = self.m.rust.split("::")[:2]
        return "%s::generics::%s%d" % ("::".join(root), kind, n)

    def leaf(self, name):
        self.n += 1
        v = ("leaf", name, self.n)
        return v, [v]

    def of(self, e):
        """[(value, leaves)], the richest first"""
        k = e[0]
        if k in ("str", "insens", "range"):
            return [(("opaque", k), [])]
        if k == "neg":
            return [(("opaque", k), [])]
        if k == "pos":
            return [(self.adt(TPL + "Positive", {0: v}), l) for v, l in self.of(e[1])]
        if k == "opt":
            return [(SOME(v), l) for v, l in self.of(e[1])] + [(NONE, [])]
        if k == "rep":
            path = TPL + "repetition::RepMinMax"
            a, b = self.of(e[1]), self.of(e[1])
            out = [(self.adt(path, {0: LIST((a[0][0], b[0][0]))}), a[0][1] + b[0][1])]
            for v, l in a:
                out.append((self.adt(path, {0: LIST((v,))}), l))
            out.append((self.adt(path, {0: LIST(())}), []))
            for v, l in b[1:]:
                out.append((self.adt(path, {0: LIST((a[0][0], v))}), a[0][1] + l))
            return out
        if k == "choice":
            path = self.node("Choice", len(e[1]))
            return [(self.adt(path, {i: v}, i), l) for i, x in enumerate(e[1]) for v, l in self.of(x)]
        if k == "seq":
            path = self.node("Sequence", len(e[1]))
            kids = [self.of(x) for _, x in e[1]]
            rows = [tuple(c[0] for c in kids)]
            for i, c in enumerate(kids):
                for s in c[1:]:
                    rows.append(rows[0][:i] + (s,) + rows[0][i + 1:])
            return [(self.adt(path, {2 * i: c[0] for i, c in enumerate(r)}), [x for c in r for x in c[1]]) for r in rows]
        path, args = e[1], e[2]
        return [self.leaf(path[-1])]


def names_of(e, m, rule, acc):
    """names whose occurrences a getter reports"""
    k = e[0]
    if k == "path":
        acc.add(e[1][-1])
    elif k in ("pos", "opt", "rep"):
        names_of(e[1], m, rule, acc)
    elif k == "choice":
        for x in e[1]:
            names_of(x, m, rule, acc)
    elif k == "seq":
        for _, x in e[1]:
            names_of(x, m, rule, acc)
    return acc


def flatten(v):
    """the leaves of a getter's result, in order; None if something else is in it"""
    if v[0] == "leaf":
        return [v]
    if v[0] == "agg" and v[1] in ("Option", "tuple", "list", "Box"):
        out = []
        for x in v[3]:
            y = flatten(x)
            if y is None:
                return None
            out += y
        return out
    return None


def c43(rep, prog):
    rep.rule = ("Every accessor generated for a witness rule is summarised on the shapes of the rule's content that the grammar allows (each "
                "alternative, absent and present optional parts, 0 to 2 repetitions; one part varied at a time): the nodes it gives are exactly the "
                "nodes of the named rule in the content, in the order of the grammar. References under a negative predicate are exempt.")
    w = W.get(prog)
    ok = w.usable(rep, w.plain)
    if not ok:
        return
    P = full(prog)
    get = {}
    for f in P.crates["witness"].fns.values():
        if "trait" not in f and f.get("self") and "body" in f and f.get("kind") == "assoc":
            get[(f["self"].get("p"), unraw(f["name"]))] = f
    n = 0
    for mod in ok:
        root, attrs = w.mods[mod]
        if "no_getter" in attrs:
            continue
        for m in all_modules(root):
            for r in m.rules():
                adt = m.path(r["name"])
                c = w.content(adt)
                for name in sorted(names_of(r["expr"], m, r, set())):
                    key = "getter/%s::%s" % (adt.replace("witness::", ""), name)
                    where = "%s rule %s" % (mod, r["name"])
                    f = get.get((adt, name))
                    if f is None:
                        rep.bad(key, where, "no accessor for `%s` was generated" % name)
                        continue
                    n += 1
                    one_getter(rep, P, w, m, r, f, name, c and c[1], key, where)
    rep.expect("accessors", n, 150) if not w.failed else None


def one_getter(rep, P, w, m, r, f, name, boxed, key, where):
    import nodes
    S = Shapes(w, P, m, r)
    try:
        shapes = S.of(r["expr"])
    except KeyError as e:
        rep.unsure(key, where, "no struct %s" % e)
        return
    for v, leaves in shapes:
        ip = ValInterp(P)
        st = new_state(ip, f["id"], nodes.node_sub(f), [("ref", ("H", "self"), (), False)],
                       {("H", "self"): ("agg", f["self"]["p"], 0, (("agg", "Box", 0, (v,)) if boxed else v, ("span",)))})
        try:
            ps = ip.paths(st)
        except (Unsupported, Budget) as e:
            rep.unsure(key, where, str(e))
            return
        want = [l for l in leaves if l[1] == name]
        got = [flatten(p.out) for p in ps]
        if len(ps) == 1 and got[0] == want:
            continue
        if len(ps) == 1 and got[0] is not None or any(p.out == ("panic",) for p in ps):
            rep.bad(key, where, "on the content %s it gives %s, expected %s" % (values.show(canon(v))[:500], values.show(ps[0].out), [l[1:] for l in want]))
            return
        rep.unsure(key, where, "outside of the vocabulary: %s" % values.show(ps[0].out if ps else ())[:300])
        return
    rep.ok(key, where, "%d shapes" % len(shapes))


def cyclic(m):
    """names of the rules of a module that lie on a cycle of references"""
    g = {}
    for r in m.g.rules:
        acc = set()
        refs(r["expr"], acc)
        g[r["name"]] = acc
    def reach(a):
        seen, todo = set(), [a]
        while todo:
            for y in g.get(todo.pop(), ()):
                if y not in seen:
                    seen.add(y)
                    todo.append(y)
        return seen
    return {a for a in g if a in reach(a)}


def refs(e, acc):
    k = e[0]
    if k == "path":
        acc.add(e[1][-1])
        if e[2] and e[2][0] == "call":
            for x in e[2][1]:
                refs(x, acc)
    elif k in ("pos", "neg", "opt", "rep"):
        if k == "rep":
            acc.add(e[2])
        refs(e[1], acc)
    elif k == "choice":
        for x in e[1]:
            refs(x, acc)
    elif k == "seq":
        for t, x in e[1]:
            acc.add(t)
            refs(x, acc)


def c37(rep, prog):
    rep.rule = ("For pairs of witness parsers made from the same grammar with and without an attribute of the derive: `no_getter` removes every accessor and "
                "changes no type; `no_pair` removes the pair trees and changes no type; `rules_mod` moves the rules to the named module, imported grammars "
                "included; `box_rules_only_if_needed` leaves exactly the content of rules on no cycle unboxed, and without it all contents are boxed.")
    w = W.get(prog)
    ok = w.usable(rep, w.plain)
    if not ok:
        return
    P = full(prog)
    meth, pairs = {}, set()
    for f in P.crates["witness"].fns.values():
        if f.get("self") and f.get("kind") == "assoc":
            if "trait" not in f:
                meth.setdefault(f["self"].get("p"), set()).add(unraw(f["name"]))
            elif f["trait"] in (PT, PC) and f["name"] in ("get_rule", "for_each_child_pair"):
                pairs.add((f["self"].get("p"), f["name"]))
    for mod in ok:
        root, attrs = w.mods[mod]
        for m in all_modules(root):
            cyc = cyclic(m)
            for r in m.rules():
                adt = m.path(r["name"])
                key = adt.replace("witness::", "")
                where = "%s rule %s" % (mod, r["name"])
                c = w.content(adt)
                if c is None:
                    rep.bad("struct/" + key, where, "no struct with a field `content` in the module of rules")
                    continue
                rep.ok("struct/" + key, where)
                if "box_rules_only_if_needed" not in attrs:
                    if c[1]:
                        rep.ok("boxed/" + key, where)
                    else:
                        rep.bad("boxed/" + key, where, "the content is not boxed although boxing was not restricted")
                elif r["name"] not in cyc:
                    if c[1]:
                        rep.bad("boxed/" + key, where, "the content is boxed although the rule is on no cycle")
                    else:
                        rep.ok("boxed/" + key, where)
                if "no_getter" in attrs:
                    want = names_of(r["expr"], m, r, set())
                    got = sorted(want & meth.get(adt, set()))
                    if got:
                        rep.bad("no_getter/" + key, where, "accessors %s are generated although no_getter is set" % got)
                    else:
                        rep.ok("no_getter/" + key, where)
                has = {n for n in ("get_rule", "for_each_child_pair") if (adt, n) in pairs}
                want = set() if "no_pair = true" in attrs else {"for_each_child_pair"} | (set() if r["silent"] else {"get_rule"})
                if has == want:
                    rep.ok("no_pair/" + key, where)
                else:
                    rep.bad("no_pair/" + key, where, "pair interface %s, expected %s" % (sorted(has), sorted(want)))
    for m in ("w_nogetter", "w_nopair", "w_rulesmod", "w_boxing", "w_boxes", "w_boxed"):
        if m in ok:
            check_types(rep, w, m)


PROPS = {"C37": c37, "C44": c44, "C47": c47, "C49": c49, "C43": c43, "C15": c15, "C30": c30, "C31": c31, "C34": c34, "C36": c36, "C38": c38, "C40": c40}
