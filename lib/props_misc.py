"""Equality, order and hashing of positions and spans."""
from interp import *
import values
from values import diff_paths, TUP, SOME
from props_values import pos, span, find, paths_of, POSITION, SPAN, verdict, ValInterp

HASHABLE = ("P", "s", "int", "sum", "agg", "ptr", "addr", "str", "sub", "len", "prim", "tuple")


class HashInterp(ValInterp):
    def on_call(self, ip, st, call):
        if call.trait == "core::hash::Hash" or call.trait == "core::hash::Hasher":
            return values.out(call, self, st, TUP(), (("hash",) + tuple(self.deep(st, a) for a in call.args[:1 if call.trait.endswith("Hash") else 2]),))
        return None


def c20(rep, prog):
    rep.rule = ("Equality, ordering and hashing of positions and spans are summarised as guarded paths on two symbolic values, of one input and of two, and compared "
                "with the reference: equal exactly for the same input and offsets, ordered by offset within an input; what is hashed is a function of input and offsets.")
    EQ = "core::cmp::PartialEq"
    ORD, PORD = "core::cmp::Ord", "core::cmp::PartialOrd"
    for adt, mk, name, tr, refs in ((POSITION, pos, "eq", EQ, "pos_eq"), (SPAN, span, "eq", EQ, "span_eq"),
                                    (POSITION, pos, "cmp", ORD, "pos_cmp"), (POSITION, pos, "partial_cmp", PORD, "pos_partial_cmp")):
        key = "%s::%s" % (adt.split("::")[-1], name)
        f = find(prog, adt, name, tr)
        if f is None:
            rep.bad("anchor/" + key, "core/src", "no longer implemented")
            continue
        for same in (True, False):
            if not same and name != "eq":
                continue    # the order is only defined within one input
            s = ("s", "S0")
            h = {("H", "a"): mk(0, s), ("H", "b"): mk(1, s) if same else mk(1)}
            args = [("ref", ("H", "a"), (), False), ("ref", ("H", "b"), (), False)]
            k = key + ("" if same else "/inputs")
            try:
                A, _ = paths_of(prog, f, args, h, ())
                B, _ = paths_of(prog, prog.fns["models::vals::" + refs], args, h, ())
            except (Unsupported, Budget) as e:
                rep.unsure(k, f["loc"], str(e))
                continue
            verdict(rep, k, f, A, B)
    for adt, mk in ((POSITION, pos), (SPAN, span)):
        key = "%s::hash" % adt.split("::")[-1]
        f = find(prog, adt, "hash", "core::hash::Hash")
        if f is None:
            rep.bad("anchor/" + key, "core/src", "no longer implemented")
            continue
        try:
            ip = HashInterp(prog)
            st = new_state(ip, f["id"], {g["n"]: ("param", g["n"]) for g in f["gen"]},
                           [("ref", ("H", "a"), (), False), ("ref", ("H", "h"), (), True)], {("H", "a"): mk(0), ("H", "h"): ("hasher",)})
            ps = ip.paths(st)
        except (Unsupported, Budget) as e:
            rep.unsure(key, f["loc"], str(e))
            continue
        if any("panic" in str(p.out) for p in ps):
            rep.bad(key, f["loc"], "hashing may panic")
        elif any("'H', 'a'" in str(e) for p in ps for e in p.effects):
            rep.bad(key, f["loc"], "the hash depends on where the value itself is stored: %r" % ps[:1])
        elif not any(e[0] == "hash" for p in ps for e in p.effects):
            rep.unsure(key, f["loc"], "nothing hashed: %r" % ps[:1])
        else:
            rep.ok(key, f["loc"], repr(ps[0])[:300])


# ------------------------------------------------------------------ copying and comparing parse results
STRUCTURAL = ("core::clone::Clone", "core::cmp::PartialEq", "core::cmp::Eq", "core::hash::Hash", "core::fmt::Debug")
RUSTV = ("pest3_core::position::Position", "pest3_core::span::Span")     # C20


class FieldInterp(ValInterp):
    """values whose fields are opaque: ("fv", field, copy)"""
    zst = frozenset()
    leaf = {}

    def whole(self, st, v):
        """the field a value is, if it is a whole field"""
        x = values.sv(self, st, v)
        return x if x[0] == "fv" else self.leaf.get(values.canon(self.deep(st, x)), x) if self.leaf else x

    def on_call(self, ip, st, call):
        n = call.path.split("::")[-1]
        if call.trait == "core::cmp::PartialEq" and n in ("eq", "ne"):
            x, y = (self.whole(st, a) for a in call.args)
            if x[0] == y[0] == "fv":
                if x[1] == y[1] and x[1] in self.zst or x == y:
                    c = ("bool", True)
                else:
                    c = ("eq", *sorted((x, y)))
                return values.out(call, self, st, c if n == "eq" else NOT(c))
        if call.trait == "core::clone::Clone" and n == "clone":
            x = values.sv(ip, st, call.args[0])
            if x[0] == "fv":
                return values.out(call, self, st, x)
        if call.trait == "core::hash::Hash" and n == "hash":
            x = values.sv(ip, st, call.args[0])
            return values.out(call, self, st, TUP(), (("hash", self.deep(st, x)),))
        return None


def zero_sized(prog, t, d=0):
    if t[0] == "adt":
        if t[1].endswith("PhantomData"):
            return True
        a = prog.adts.get(t[1])
        if a and d < 5 and len(a["v"]) == 1:
            return all(zero_sized(prog, T(f["t"]), d + 1) for f in a["v"][0]["f"])
    return t == ("tuple", ())


def fields_of(prog, a, vi, k):
    fs = []
    for i, f in enumerate(a["v"][vi]["f"]):
        fs.append(("agg", T(f["t"])[1], 0, ()) if T(f["t"])[0] == "adt" and T(f["t"])[1].endswith("PhantomData") else ("fv", (vi, i), k))
    return ("agg", a["id"], vi, tuple(fs))


def handwritten(rep, prog, key, im, a):
    """a hand-written implementation of Clone, PartialEq or Hash has to go by the fields"""
    tr = im["trait"].split("::")[-1]
    what = {"Clone": "clone", "PartialEq": "eq", "Hash": "hash"}.get(tr)
    if what is None:
        rep.ok(key, im["loc"], "hand-written %s" % tr)
        return
    f = next((prog.fns.get(i["id"]) for i in im["items"] if i["n"] == what), None)
    if f is None or "body" not in f:
        rep.unsure(key, im["loc"], "no body")
        return
    zst = {(vi, i) for vi, v in enumerate(a["v"]) for i, fd in enumerate(v["f"]) if zero_sized(prog, T(fd["t"]))}
    sub = {g["n"]: ("param", g["n"]) for g in f["gen"]}
    nv = len(a["v"])
    for v1 in range(nv):
        for v2 in (range(nv) if what == "eq" else [0]):
            x = fields_of(prog, a, v1, 0)
            ip = FieldInterp(prog)
            ip.zst = zst
            h = {("H", "a"): x}
            args = [("ref", ("H", "a"), (), False)]
            if what == "eq":
                h[("H", "b")] = fields_of(prog, a, v2, 1)
                args.append(("ref", ("H", "b"), (), False))
            elif what == "hash":
                h[("H", "h")] = ("hasher",)
                args.append(("ref", ("H", "h"), (), True))
            try:
                ps = ip.paths(new_state(ip, f["id"], sub, args, h))
                if what == "eq" and any(values.foreign(values.path_terms(p)) or any(c[0] != "eq" or c[1][0] != "fv" for c, _ in p.guards) for p in ps):
                    r = partial_eq(prog, f, sub, a, v1, v2, zst)
                    if r is not None:
                        rep.bad(key, f["loc"], "values with different fields compare equal: %r" % r)
                        return
            except (Unsupported, Budget) as e:
                rep.unsure(key, f["loc"], str(e))
                return
            for p in ps:
                if p.out == ("panic",):
                    rep.bad(key, f["loc"], "may panic: %r" % p)
                    return
                if values.foreign(values.path_terms(p)) or any("'top'" in repr(t) for t in values.path_terms(p)):
                    rep.unsure(key, f["loc"], "term outside of the vocabulary: %r" % p)
                    return
                if what == "clone" and markers(p.out, zst) != markers(values.canon(x), zst):
                    rep.bad(key, f["loc"], "the copy is %r" % p)
                    return
                if what == "hash" and "'H', 'a'" in repr(p.effects):
                    rep.bad(key, f["loc"], "the hash depends on where the value is stored: %r" % p)
                    return
                if what == "eq":
                    need = {("eq", ("fv", (v1, i), 0), ("fv", (v1, i), 1)) for i in range(len(a["v"][v1]["f"])) if (v1, i) not in zst
                            and x[3][i][0] == "fv"} if v1 == v2 else None
                    g = dict(p.guards)
                    if any(c not in (need or ()) for c in g):
                        rep.unsure(key, f["loc"], "other conditions: %r" % p)
                        return
                    if p.out == ("bool", True) and (need is None or any(g.get(c) is not True for c in need)) \
                            or p.out == ("bool", False) and need is not None and not any(v is False for v in g.values()):
                        rep.bad(key, f["loc"], "equality does not go by the fields: %r" % p)
                        return
    rep.ok(key, f["loc"], "hand-written %s goes by the fields" % tr)


def partial_eq(prog, f, sub, a, v1, v2, zst):
    """a path on which two values are equal although a span among their fields may differ, with spans spelled out"""
    ip = FieldInterp(prog)
    ip.zst, ip.leaf = zst, {}
    h, need = {}, []
    for k, vi in ((0, v1), (1, v2)):
        x = fields_of(prog, a, vi, k)
        fs = list(x[3])
        for i, fd in enumerate(a["v"][vi]["f"]):
            t = T(fd["t"])
            n = "f%d.%d.%d" % (vi, i, k)
            if t[0] == "adt" and t[1] == SPAN:
                fs[i] = ("agg", SPAN, 0, (("s", n), ("P", ("s", n), "a" + n), ("P", ("s", n), "b" + n)))
                ip.leaf[values.canon(fs[i])] = x[3][i]
                need.append((k, i, fs[i]))
        h[("H", "ab"[k])] = ("agg", a["id"], vi, tuple(fs))
    if v1 != v2 or not need:
        return None
    args = [("ref", ("H", "a"), (), False), ("ref", ("H", "b"), (), False)]
    for p in ip.paths(new_state(ip, f["id"], sub, args, h)):
        if p.out != ("bool", True) or values.foreign(values.path_terms(p)) or any("'top'" in repr(t) for t in values.path_terms(p)):
            continue
        for k, i, x in need:
            if k == 0:
                y = next(y for l, j, y in need if l == 1 and j == i)
                if (("eq", ("fv", (v1, i), 0), ("fv", (v1, i), 1)), True) in p.guards:
                    continue
                for u, w in zip(x[3][1:], y[3][1:]):
                    c = ("eq", *sorted((u, w)))
                    if values.consistent(tuple(p.guards) + ((c, False),)):
                        return p
    return None


def markers(t, zst):
    """markers carry nothing"""
    if not isinstance(t, tuple):
        return t
    if t and t[0] == "fv" and t[1] in zst:
        return ("marker",)
    if t and t[0] == "agg" and isinstance(t[1], str) and t[1] != "Option" and not t[3] and t[2] == 0:
        return ("marker",)
    return tuple(markers(x, zst) for x in t)


def c21(rep, prog):
    rep.rule = ("For every node of the runtime, every type a node is made of, and every rule generated for the witness grammars: Clone, PartialEq, Eq, Hash and Debug are implemented, and each "
                "implementation is either the structural one of the compiler or, if hand-written, summarised as guarded paths that are shown to copy every field, to compare all "
                "fields and nothing else, and to hash nothing but fields.")
    import facts
    w, failed = facts.witness()
    nodes = 0
    for cr in [prog.crates["pest3_core"]] + ([w] if w is not None else []):
        by = {}
        for im in cr.impls:
            s = im.get("self")
            if im.get("trait") and s and s["k"] == "adt":
                by.setdefault(s["p"], {}).setdefault(im["trait"], []).append(im)
        adts = {k for k, v in by.items() if "pest3_core::typed::traits::TypedNode" in v and k in cr.adts}
        todo = list(adts)
        while todo:
            for v in cr.adts[todo.pop()]["v"]:
                for f in v["f"]:
                    for t in types_in(T(f["t"])):
                        if t in cr.adts and t not in adts and t not in RUSTV:
                            adts.add(t)
                            todo.append(t)
        for k in sorted(adts):
            a = cr.adts[k]
            nodes += 1
            for tr in STRUCTURAL:
                key = "%s/%s" % (tr.split("::")[-1], k.replace("pest3_core::typed::", ""))
                ims = by.get(k, {}).get(tr, [])
                if not ims:
                    if tr.endswith("Hash") and cr is w:
                        continue
                    if tr.endswith("Debug") and "pest3_core::typed::traits::TypedNode" not in by.get(k, {}):
                        continue
                    rep.bad(key, a["loc"], "%s is not implemented any more" % tr.split("::")[-1])
                    continue
                for im in ims:
                    if im.get("derived"):
                        rep.ok(key, im["loc"], "derived")
                    else:
                        handwritten(rep, prog, key, im, a)
    rep.expect("types", nodes, 1000)


def types_in(t):
    if t[0] == "adt":
        yield t[1]
        for x in t[2]:
            yield from types_in(x)
    elif t[0] == "tuple":
        for x in t[1]:
            yield from types_in(x)
    elif t[0] in ("ref", "array", "slice"):
        for x in t[1:]:
            if isinstance(x, tuple):
                yield from types_in(x)


SHARED = {"alloc::rc::Rc": "shares its value without synchronisation", "alloc::rc::Weak": "shares its value without synchronisation",
          "core::cell::Cell": "can be written to through a shared reference", "core::cell::RefCell": "can be written to through a shared reference",
          "core::cell::UnsafeCell": "can be written to through a shared reference", "core::cell::OnceCell": "can be written to through a shared reference",
          "std::sync::MutexGuard": "is bound to its thread", "std::sync::poison::mutex::MutexGuard": "is bound to its thread",
          "core::ptr::NonNull": "is a raw pointer", "core::ptr::non_null::NonNull": "is a raw pointer"}
RESULTS = ("pest3_core::position::Position", "pest3_core::span::Span", "pest3_core::token::Pair")


def foreign_parts(t, path=()):
    """(what, why) for every part of a type that is bound to its thread or borrows something else than text"""
    if isinstance(t, list):
        for x in t:
            yield from foreign_parts(x, path)
        return
    if not isinstance(t, dict):
        return
    k = t.get("k")
    if k == "adt" and t["p"] in SHARED:
        yield t["p"], SHARED[t["p"]]
    elif k == "ptr":
        yield "*" + str(t["t"].get("p", t["t"].get("v", t["t"].get("k")))), "is a raw pointer"
    elif k == "dyn" and not ("Send" in t["v"] and "Sync" in t["v"]):
        yield t["v"], "is a trait object that need not be Send or Sync"
    elif k == "ref":
        if t["m"]:
            yield "&mut", "is an exclusive reference"
        elif not path and t["t"] != {"k": "prim", "n": "str"}:
            yield "&" + str(t["t"].get("p", t["t"].get("v", t["t"].get("k")))), "borrows something else than the text"
    if k == "adt" and t["p"] == "core::marker::PhantomData":
        path = ("marker",)      # a reference in a marker is none
    for v in t.values():
        if isinstance(v, (dict, list)):
            yield from foreign_parts(v, path)


def c22(rep, prog):
    rep.rule = ("Every field of every node of the runtime, of every rule generated for the witness grammars, of positions, spans and pairs, and of everything of this repository that they contain, is followed through its type: "
                "nothing in it is shared or mutable through shared references without synchronisation, a raw pointer, a trait object without Send and Sync, or a reference to anything but text.")
    import facts
    w, failed = facts.witness()
    n = 0
    core = prog.crates["pest3_core"]
    for cr in [core] + ([w] if w is not None else []):
        adts = {im["self"]["p"] for im in cr.impls if im.get("self") and im["self"]["k"] == "adt"
                and im.get("trait") in ("pest3_core::typed::traits::TypedNode", "pest3_core::typed::traits::RuleType", "pest3_core::typed::traits::PairTree")}
        adts |= set(RESULTS)
        adts = {a for a in adts if a in cr.adts}
        todo = list(adts)
        while todo:
            for v in cr.adts[todo.pop()]["v"]:
                for f in v["f"]:
                    for t in types_in(T(f["t"])):
                        if t in cr.adts and t not in adts:
                            adts.add(t)
                            todo.append(t)
        for k in sorted(adts):
            a = cr.adts[k]
            for v in a["v"]:
                for f in v["f"]:
                    n += 1
                    key = "%s.%s" % (k.replace("pest3_core::typed::", ""), f["n"])
                    bad = list(foreign_parts(f["t"]))
                    if bad:
                        rep.bad(key, a["loc"], "the field `%s` of %s contains %s, which %s" % (f["n"], k, bad[0][0], bad[0][1]))
                    else:
                        rep.ok(key, a["loc"])
        for im in cr.impls:
            if im.get("trait") in ("core::marker::Send", "core::marker::Sync"):
                rep.unsure("impl/" + str(im["self"].get("p")), im["loc"], "a hand-written implementation of " + im["trait"])
    rep.expect("fields", n, 1000)


PROPS = {"C20": c20, "C21": c21, "C22": c22}
