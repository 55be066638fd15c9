"""Properties decided by queries over the type-checked program, and by compile-fail witnesses."""
import json, re
import facts

DERIVE = "derive/src/lib.rs"
HASHC = ("std::collections::hash::map::HashMap", "std::collections::hash::set::HashSet")
HASHI = re.compile(r"std::collections::hash::(map|set)::(?!HashMap|HashSet|Entry|Occupied|Vacant)\w+$")


def _reject(rep, pick, floor, what):
    failed = facts.rejected()
    cases = [(n, t) for n, t in facts.reject_cases() if pick(n)]
    star = failed.get("*")
    for n, t in cases:
        where = "grammar %s: %s" % (n, " / ".join(t.strip().splitlines()[-2:])[:160])
        if n in failed:
            rep.ok("rejected/" + n, where, failed[n][0][:200])
            rep.sample({"key": n, "grammar": t[:300], "compiler": failed[n][0][:300]})
        elif star:
            rep.unsure("rejected/" + n, where, "the expansion of the invalid grammars does not end or fails elsewhere: " + star[0][-300:])
        else:
            rep.bad("rejected/" + n, where, "a parser is derived for a grammar that %s" % what)
    rep.expect("invalid grammars", len(cases), floor)


SYN = ("syn_", "lit_", "rep_", "slice_", "imp_bad_", "imp_nofile", "imp_self", "imp_use_in", "imp_args")


def c32(rep, prog):
    rep.rule = ("Compile-fail witnesses: for each grammar text that is not in the grammar format (or imports one that is not), the derive has to make the "
                "compilation fail at that grammar. The texts cover every bracket, operator position, literal form and escape, bounds and slices, and imports.")
    _reject(rep, lambda n: n.startswith(SYN), 125, "is malformed")


def c35(rep, prog):
    rep.rule = ("Compile-fail witnesses: for each grammar with a reference that cannot be resolved (an undefined rule, module or built-in in each position of an "
                "expression, wrong or missing arguments, missing trivia rules, duplicate names), the compilation has to fail at that grammar.")
    _reject(rep, lambda n: not n.startswith(SYN), 105, "has a reference that cannot be resolved")


# ------------------------------------------------------------------ determinism
SETS = ("BTreeMap", "BTreeSet", "HashMap", "HashSet", "BinaryHeap")
NEUTRAL = {"len", "count", "any", "all", "sum", "product", "min", "max", "contains", "contains_key", "get", "size_hint", "is_empty", "eq"}
SENSITIVE = {"next", "for_each", "fold", "try_fold", "try_for_each", "find", "find_map", "position", "last", "nth", "reduce",
             "partition", "unzip", "extend", "fmt", "collect", "from_iter", "next_back", "rfold", "join"}
PUSH = re.compile(r"::(push|push_str|push_back|append|extend|write_str|write_fmt|insert_str)$")
NONDET = [
    (r"^std::time::", "reads the clock"),
    (r"(^|::)rand(om)?::(?!RandomState)", "draws random numbers"),
    (r"LocalKey(::<.*>)?::", "keeps state in a thread-local"),
    (r"^std::process::", "depends on processes"), (r"^std::net::", "uses the network"),
    (r"fmt::Pointer|Argument(::<.*>)?::new_pointer", "formats an address"), (r"pointer::.*::(addr|expose_provenance)$|ptr::.*::(addr|expose_provenance)$", "turns an address into a number"),
    (r"^std::thread::", "depends on threads"),
    (r"RandomState::(new|build_hasher)|BuildHasher::(hash_one|build_hasher)", "hashes with a random state"),
    (r"^std::env::(vars|vars_os|args|args_os|temp_dir)$", "reads the environment"),
    (r"^std::fs::read_dir$", "lists a directory in an unspecified order"),
    (r"::sync::atomic::\w+(::<.*>)?::fetch_|::sync::atomic::Atomic\w+(::<.*>)?::(swap|store)", "keeps a counter across expansions"),
]


def walk(t):
    """all sub-types of a type fact"""
    if isinstance(t, dict):
        if "k" in t:
            yield t
        for v in t.values():
            yield from walk(v)
    elif isinstance(t, list):
        for v in t:
            yield from walk(v)


def is_iter(t):
    return any(x["k"] == "adt" and HASHI.match(x["p"]) for x in walk(t))


def is_coll(t):
    while t.get("k") == "ref":
        t = t["t"]
    return t.get("k") == "adt" and t["p"] in HASHC


def succ(t):
    k = t["t"]
    if k == "switch":
        return [x[1] for x in t["cs"]] + [t["el"]]
    return [t["to"]] if t.get("to") is not None else []


def loop_of(blocks, i):
    """blocks on a cycle through block i"""
    def reach(start, nxt):
        seen, st = set(), list(nxt(start))
        while st:
            x = st.pop()
            if x not in seen:
                seen.add(x)
                st += nxt(x)
        return seen
    fw = {k: succ(b["t"]) for k, b in enumerate(blocks)}
    bw = {}
    for k, v in fw.items():
        for x in v:
            bw.setdefault(x, []).append(k)
    return reach(i, lambda x: fw.get(x, [])) & reach(i, lambda x: bw.get(x, []))


def hidden_state(rep, cr):
    """items that keep something from one call to the next"""
    n = 0
    for s in cr.statics:
        n += 1
        if "::tests::" in s["id"] or "::_::" in s["id"]:
            continue
        if s["mut"]:
            rep.bad("state/" + s["id"], s["loc"], "a mutable static")
        elif not s["freeze"]:
            t = re.sub(r"<.*", "", s["t"])
            if t.split("::")[-1] not in ("OnceLock", "LazyLock", "OnceCell", "LazyCell"):
                rep.bad("state/" + s["id"], s["loc"], "a static that can be written to: " + s["t"])
            else:
                rep.ok("state/" + s["id"], s["loc"], "written once: " + s["t"])
        else:
            rep.ok("state/" + s["id"], s["loc"], "immutable: " + s["t"])
    return n


PURE = [(r"^std::(env|fs|io)::", "depends on the environment, files or streams")]


def effects(rep, prog, crates, floor, more=()):
    calls = n = 0
    for cr in crates:
        hidden_state(rep, cr)
        for f in cr.fns.values():
            if "body" not in f or "::tests::" in f["path"] or "in_test" in f:
                continue
            n += 1
            bad = one(rep, f, more)
            calls += bad[1]
            if not bad[0]:
                rep.ok("order/" + f["path"])
    rep.expect("functions", n, floor)
    rep.extra["calls"] = calls


def c39(rep, prog):
    rep.rule = ("Effect query over every call and every static of the grammar reader, the generator and the derive: no iteration over a hash table whose order reaches a sequence "
                "(a table or a sorted vector built from it, and the text of an error, are exempt), no clock, random number, process, thread, directory "
                "order, address or cross-expansion counter, and no static or thread-local that keeps what an earlier expansion left there "
                "(one that is initialised once, from constants, is exempt).")
    effects(rep, prog, [prog.crates[c] for c in ("pest3_meta", "pest3_generator", "pest3_derive")], 250)


def c19(rep, prog):
    rep.rule = ("Effect query over every call and every static of the runtime and of the code generated for the witness grammars: no static or thread-local that can be "
                "written to, no clock, random number, environment, file, process or thread, no address turned into a number or text, and no iteration over a hash "
                "table whose order reaches a sequence.")
    w, failed = facts.witness()
    crates = [prog.crates["pest3_core"], prog.crates["pest3"]] + ([w] if w is not None else [])
    effects(rep, prog, crates, 4000, PURE)


INIT = re.compile(r"(OnceLock|OnceCell)(::<.*>)?::(set|get_or_init|get_or_try_init|get_mut|take)$")


def one(rep, f, more=()):
    blocks = f["body"]["blocks"]
    cs = [(i, b["t"]) for i, b in enumerate(blocks) if b["t"].get("t") == "call"]
    found = False
    paths = [c.get("cpp") or c.get("cp") or "" for _, c in cs]
    for b in blocks:
        for s in b["s"]:
            r = s.get("r")
            if isinstance(r, dict) and r.get("r") == "cast" and "ExposeProvenance" in str(r.get("k", r.get("c", ""))):
                rep.bad("address/" + f["path"], f.get("loc", ""), "turns an address into a number")
                found = True
    for (i, c), p in zip(cs, paths):
        loc = "%s (%s)" % (f["path"], c.get("l", ""))
        for rx, what in [*NONDET, *more]:
            if re.search(rx, p):
                rep.bad("source/%s" % f["path"], loc, "%s: %s" % (what, p))
                found = True
        targs = c.get("ca") or []
        name = p.split("::")[-1]
        if INIT.search(p):
            # initialised from constants: the closure captures nothing
            clo = [t for t in targs if t.get("k") == "closure"]
            if name != "get_or_init" or not clo or clo[0]["a"] and clo[0]["a"][-1].get("a"):
                if static_ref(f):
                    rep.bad("state/%s" % f["path"], loc, "what a static keeps depends on the first call that sets it: " + p)
                    found = True
        if not targs:
            continue
        it = is_iter(targs[0]) or (name in ("extend", "from_iter", "quote_into_iter") and any(is_iter(t) or is_coll(t) for t in targs[1:])) \
            or (name == "fmt" and is_coll(targs[0]))
        if not it:
            continue
        if name in NEUTRAL or name not in SENSITIVE:
            continue
        if name in ("collect", "extend", "from_iter"):
            dest = targs[-1] if name == "collect" else targs[0]
            if dest.get("k") == "adt" and dest["p"].split("::")[-1] in SETS:
                continue
            if any(re.search(r"::sort(_\w+)?$", q) for q in paths):
                continue
        if "Error" in str(f.get("ret", "")) and "Result" not in str(f.get("ret", "")) or into_error(f, c):
            continue
        if name == "next" and not any(x.get("p", "").endswith("::RepInterp") for x in walk(targs[0])):
            body = loop_of(blocks, i)
            if not any(k in body and PUSH.search(q) for (k, _), q in zip(cs, paths)) or any(re.search(r"::sort(_\w+)?$", q) for q in paths):
                rep.unsure("order/" + f["path"], loc, "iterates over a hash table; whether the order matters is not decided")
                found = True
                continue
        rep.bad("order/" + f["path"], loc, "the order of a hash table reaches a sequence through `%s`" % name)
        found = True
    return found, len(cs)


def static_ref(f):
    return '"k": "static"' in json.dumps(f["body"]["blocks"])


def into_error(f, c):
    """the result only ever becomes part of an error value"""
    d = c.get("p")
    if not d or d["p"]:
        return False
    loc, uses = d["l"], []
    for b in f["body"]["blocks"]:
        for s in b["s"]:
            if '"l": %d,' % loc in json.dumps(s.get("r")):
                uses.append(s["r"])
        t = b["t"]
        if t.get("t") == "call" and t is not c and '"l": %d,' % loc in json.dumps(t.get("a")):
            return False
    return bool(uses) and all(u.get("r") == "agg" and "Error" in u.get("p", "") for u in uses)


# ------------------------------------------------------------------ names of tokens in errors
def c45(rep, prog):
    rep.rule = ("The function that names the rules of the grammar format in error messages is summarised for each rule; a name in backquotes has to be a literal of "
                "that rule's own definition in grammar.pest, and no other rule's.")
    from interp import new_state, Unsupported, Budget
    import values, os
    fs = [f for f in prog.crates["pest3_meta"].fns.values() if f["name"] == "rename_meta_rule"]
    if len(fs) != 1:
        rep.bad("anchor", "meta/src/error.rs", "the public function `rename_meta_rule` is missing")
        return
    f = fs[0]
    text = open(os.path.join(facts.REPO, "meta/src/grammar.pest"), encoding="utf-8").read()
    text = "\n".join(l for l in text.splitlines() if not l.startswith("//"))
    defs = definitions(text)
    en = [a for a in prog.crates["pest3_meta"].adts.values() if a["id"].endswith("parser::grammar::Rule")]
    if not en or len(defs) < 40:
        rep.unsure("grammar", "meta/src/grammar.pest", "%d rules read" % len(defs))
        return
    named = 0
    for i, v in enumerate(en[0]["v"]):
        where = "rule %s of grammar.pest" % v["n"]
        try:
            ip = values.ValInterp(prog)
            ps = ip.paths(new_state(ip, f["id"], {}, [("ref", ("H", "r"), (), False)], {("H", "r"): ("agg", en[0]["id"], i, ())}))
        except (Unsupported, Budget) as e:
            rep.unsure("name/" + v["n"], where, str(e))
            continue
        strs = {x for p in ps for x in strings(p.out)}
        toks = {x[1:-1] for x in strs if len(x) > 2 and x[0] == x[-1] == "`"}
        if not toks:
            rep.ok("name/" + v["n"], where)
            continue
        d = defs.get(v["n"])
        if d is None:
            rep.unsure("name/" + v["n"], where, "no definition read")
            continue
        lits = {re.sub(r"\\(.)", r"\1", x) for x in re.findall(r'"((?:\\.|[^"\\])*)"', d)}
        named += 1
        wrong = sorted(toks - lits)
        if wrong:
            rep.bad("name/" + v["n"], where, "errors call it `%s`, but it is defined as %s" % (wrong[0], " ".join(d.split())))
        else:
            rep.ok("name/" + v["n"], where, " ".join(sorted(toks)))
    rep.extra["named"] = named


def definitions(text):
    """{rule: body} of a pest grammar"""
    out, name, body, depth = {}, None, "", 0
    for m in re.finditer(r"""//[^\n]*|"(?:\\.|[^"\\])*"|'(?:\\.|[^'\\])*'|[{}]|\w+|[^\s]|\s+""", text):
        t = m.group()
        if depth == 0 and re.fullmatch(r"\w+", t) and t != "_":
            name = t
        if t == "{":
            depth += 1
            if depth == 1:
                body = ""
                continue
        if t == "}":
            depth -= 1
            if depth == 0:
                out[name] = body
        body += t
    return out


def strings(t):
    if isinstance(t, tuple):
        if len(t) == 2 and t[0] == "str" and isinstance(t[1], str):
            yield t[1]
        for x in t:
            yield from strings(x)


PROPS = {"C19": c19, "C45": c45, "C32": c32, "C35": c35, "C39": c39}
