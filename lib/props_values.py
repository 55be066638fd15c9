"""Properties decided on guarded paths of value-level functions."""
from interp import *
import values
from values import ValInterp, TUP, LIST, SOME, NONE, diff_paths, POSITION, SPAN, is_str

CORE = "pest3_core"


def pos(i, inp=None):
    s = inp or ("s", "S%d" % i)
    return ("agg", POSITION, 0, (s, ("P", s, i)))


def span(i, inp=None):
    s = inp or ("s", "S%d" % i)
    return ("agg", SPAN, 0, (s, ("P", s, "a%d" % i), ("P", s, "b%d" % i)))


def sym(t, i, grid):
    """symbolic argument for a parameter type"""
    k = t[0]
    if k == "ref":
        if t[2] == ("prim", "str"):
            return ("s", "t%d" % i)
        return None
    if k == "adt":
        n = t[1].split("::")[-1]
        if t[1] == POSITION:
            return pos(i)
        if t[1] == SPAN:
            return span(i)
        if n == "Range":
            return ("agg", "core::ops::range::Range", 0, (("c", i, "lo"), ("c", i, "hi")))
        if n == "RangeInclusive":
            return ("agg", "models::RangeInc", 0, (("c", i, "lo"), ("c", i, "hi"), ("bool", False)))
    if t == ("prim", "usize"):
        return ("int", grid) if grid is not None else ("n", i)
    if t == ("prim", "char"):
        return ("c", i)
    if k == "param":
        return ("fn", i)
    return None


def setup(f, grid=None):
    """(args, heap, watched cells) for a function"""
    b = f["body"]
    args, heap, watch = [], {}, []
    for i in range(b["argc"]):
        t = T(b["locals"][i + 1])
        if t[0] == "ref" and t[2] != ("prim", "str"):
            v = sym(t[2], i, grid)
            if v is None:
                raise Unsupported("argument of type %s" % tyname(t))
            c = ("H", "arg%d" % i)
            heap[c] = v
            mut = t[1]
            args.append(("ref", c, (), bool(mut)))
            if mut:
                watch.append(c)
        else:
            v = sym(t, i, grid)
            if v is None:
                raise Unsupported("argument of type %s" % tyname(t))
            args.append(v)
    return args, heap, watch


def paths_of(prog, f, args, heap, watch, sub=None, **kw):
    ip = ValInterp(prog, **kw)
    ip.watch = tuple(watch)
    s = sub if sub is not None else {g["n"]: ("param", "X_" + g["n"]) for g in f["gen"]}
    st = new_state(ip, f["id"], s, list(args), heap)
    return ip.paths(st), ip


def find(prog, adt, name, trait=None):
    r = [f for f in prog.crates[CORE].fns.values()
         if f["name"] == name and "body" in f and f.get("self") and T(f["self"])[0] == "adt" and T(f["self"])[1] == adt
         and (f.get("trait") == trait)]
    return r[0] if r else None


def free(prog, suffix):
    r = [f for k, f in prog.crates[CORE].fns.items() if k.endswith(suffix) and "body" in f]
    return r[0] if r else None


def against(rep, prog, key, f, refs, grid=None, args=None):
    try:
        a, h, w = args(f) if args else setup(f, grid)
        A, _ = paths_of(prog, f, a, h, w)
    except (Unsupported, Budget) as e:
        rep.unsure(key, f["loc"], str(e))
        return
    first = None
    for rn in refs:
        rf = prog.fns["models::vals::" + rn]
        B, _ = paths_of(prog, rf, a, h, w)
        d = diff_paths(A, B)
        if d is None:
            rep.ok(key, f["loc"], "%d paths" % len(A))
            rep.sample({"key": key, "where": f["loc"], "paths": [repr(p)[:300] for p in A[:4]]})
            return
        if first is None or (first[0] == "undecided" and d[0] == "diff"):
            first = d
    if first[0] == "undecided":
        rep.unsure(key, f["loc"], first[1][:600])
    else:
        rep.bad(key, f["loc"], "the code: %r; the specification: %r" % (first[1], first[2]))


POS_FNS = [
    ("new", ["pos_new"]), ("from_start", ["pos_from_start"]), ("pos", ["pos_pos"]), ("span", ["pos_span"]),
    ("at_start", ["pos_at_start"]), ("at_end", ["pos_at_end"]), ("skip", ["pos_skip"]),
    ("match_char_by", ["pos_match_char_by"]), ("match_string", ["pos_match_string"]),
    ("match_insensitive", ["pos_match_insensitive"]), ("match_range", ["pos_match_range"]),
    ("next_char", ["pos_next_char"]), ("match_char", ["pos_match_char"]),
]
SPAN_FNS = [
    ("new", ["span_new"]), ("start", ["span_start"]), ("end", ["span_end"]), ("start_pos", ["span_start_pos"]),
    ("end_pos", ["span_end_pos"]), ("split", ["span_split"]), ("as_str", ["span_as_str"]),
    ("get_input", ["span_get_input"]),
]
PUBLIC = {"new", "from_start", "pos", "span", "start", "end", "start_pos", "end_pos", "split", "as_str", "get_input"}


BOUND = "core::ops::range::Bound"


def c11(rep, prog):
    rep.rule = ("Every primitive of input positions and spans is summarised as its set of guarded paths (match conditions on "
                "canonical string terms, resulting offset, result) and compared path by path with the reference: on success the "
                "offset advances by exactly the matched text, on failure it is untouched.")
    n = 0
    for adt, tab in ((POSITION, POS_FNS), (SPAN, SPAN_FNS)):
        for name, refs in tab:
            f = find(prog, adt, name)
            key = "%s::%s" % (adt.split("::")[-1], name)
            if f is None:
                if name in PUBLIC:
                    rep.bad("anchor/" + key, "core/src", "the public method no longer exists")
                else:
                    rep.unsure("anchor/" + key, "core/src", "no such primitive any more")
                continue
            n += 1
            if name == "skip":
                for g in range(5):
                    against(rep, prog, key + "(%d)" % g, f, refs, grid=g)
            else:
                against(rep, prog, key, f, refs)
    f = find(prog, SPAN, "get")
    if f is None:
        rep.bad("anchor/Span::get", "core/src/span.rs", "the public method no longer exists")
    else:
        for i, lo in enumerate(("Included", "Excluded", "Unbounded")):
            for j, hi in enumerate(("Included", "Excluded", "Unbounded")):
                n += 1
                b = lambda k, e: ("agg", BOUND, k, () if k == 2 else (("ref", ("H", e), (), False),))
                args = lambda f: ([("ref", ("H", "arg0"), (), False), ("rb", b(i, "lo"), b(j, "hi"))],
                                  {("H", "arg0"): span(0), ("H", "lo"): ("n", "lo"), ("H", "hi"): ("n", "hi")}, [])
                against(rep, prog, "Span::get(%s, %s)" % (lo, hi), f, ["span_get"], args=args)
    f = free(prog, "::merge_spans")
    if f is not None:
        n += 1
        against(rep, prog, "merge_spans", f, ["merge_spans"], args=two_spans)
    rep.expect("primitives", n, 12)


def two_spans(f):
    a, h, w = setup(f)
    s = ("s", "S0")
    for i, c in enumerate(sorted(h)):
        h[c] = span(i, s)
    return a, h, w


# ------------------------------------------------------------------ C10
FIELDS = {POSITION: (1,), SPAN: (1, 2)}


def ctor_sites(prog):
    """functions that build or modify a position or span, or call an unchecked constructor"""
    sites = {}
    for f in prog.crates[CORE].fns.values():
        if "body" not in f or "in_test" in f:
            continue
        n = []
        tys = [T(t) for t in f["body"]["locals"]]
        for b in f["body"]["blocks"]:
            for s in b["s"]:
                r = s.get("r")
                if r and r.get("r") == "agg" and r.get("k") == "adt" and r.get("p") in FIELDS:
                    n.append("constructs " + r["p"].split("::")[-1])
                if r and s["p"]["p"]:
                    t = place_base(prog, tys, s["p"])
                    if t in FIELDS and s["p"]["p"][-1].get("f") in FIELDS[t]:
                        n.append("assigns an offset of " + t.split("::")[-1])
            t = b["t"]
            if t["t"] == "call" and "cpp" in t and norm(t["cpp"]) in ("Position::new_unchecked", "Span::new_unchecked"):
                n.append("calls " + norm(t["cpp"]))
        if n:
            sites[f["id"]] = n
    return sites


def place_base(prog, tys, pl):
    """type that the last field projection applies to"""
    t = tys[pl["l"]]
    for e in pl["p"][:-1]:
        if e == "*":
            t = t[2] if t[0] == "ref" else t[1] if t[0] == "ptr" else ("?",)
        elif "f" in e:
            if t[0] == "adt" and t[1] in prog.adts and len(prog.adts[t[1]]["v"]) == 1:
                t = T(prog.adts[t[1]]["v"][0]["f"][e["f"]]["t"])
            elif t[0] == "tuple":
                t = t[1][e["f"]]
            else:
                return None
        else:
            return None
    return t[1] if t[0] == "adt" and not isinstance(pl["p"][-1], str) else None


class Bounds(ValInterp):
    """collects the offsets put into positions and spans together with the facts known there"""
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.obl = []

    def look(self, st, v):
        if not isinstance(v, tuple) or not v:
            return
        if v[0] == "agg" and v[1] in FIELDS:
            for i in FIELDS[v[1]]:
                if i < len(v[3]):
                    self.obl.append((v[1], v[3][0], v[3][i], values.boundary(st.facts, v[3][0], v[3][i])))
        for x in v:
            if isinstance(x, tuple):
                self.look(st, x)

    def on_unchecked(self, st, call, v):
        self.look(st, self.deep(st, v))

    def emit_ret(self, st, v):
        self.look(st, self.deep(st, v))
        for c in self.watch:
            self.look(st, self.deep(st, st.cells[c]))
        return super().emit_ret(st, v)


def opaque_term(t):
    return values.foreign(t) or (isinstance(t, tuple) and any(opaque_term(x) for x in t if isinstance(x, tuple)))


def symdeep(prog, t, i, grid, path=()):
    """symbolic value for any argument type, structs of the crate expanded"""
    v = sym(t, i, grid)
    if v is not None:
        return v, {}
    if t[0] == "adt" and t[1] in prog.adts and len(prog.adts[t[1]]["v"]) == 1:
        fs, heap = [], {}
        for k, fd in enumerate(prog.adts[t[1]]["v"][0]["f"]):
            ft = T(fd["t"])
            if ft[0] == "ref" and ft[2] != ("prim", "str"):
                x, h = symdeep(prog, ft[2], "%s.%d" % (i, k), grid)
                c = ("H", "arg%s.%d" % (i, k))
                heap[c] = x
                x = ("ref", c, (), ft[1])
            else:
                x, h = symdeep(prog, ft, "%s.%d" % (i, k), grid)
            heap.update(h)
            fs.append(x)
        return ("agg", t[1], 0, tuple(fs)), heap
    return ("arg", i), {}


def setup_any(prog, f):
    args, heap, watch = [], {}, []
    b = f["body"]
    for i in range(b["argc"]):
        t = T(b["locals"][i + 1])
        if t[0] == "ref" and t[2] != ("prim", "str"):
            v, h = symdeep(prog, t[2], i, None)
            c = ("H", "arg%d" % i)
            heap[c] = v
            heap.update(h)
            args.append(("ref", c, (), t[1]))
            if t[1]:
                watch.append(c)
        else:
            v, h = symdeep(prog, t, i, None)
            heap.update(h)
            args.append(v)
    return args, heap, watch


def c10(rep, prog):
    rep.rule = ("Enumerate every function that builds a position or span, assigns an offset of one, or calls an unchecked "
                "constructor; on every path the offset must have boundary provenance: 0, the input length, the offset of an existing "
                "position of the same input, a bound the standard library validated, or a boundary plus the length of text matched there.")
    sites = ctor_sites(prog)
    owners = {}
    for fid, what in sites.items():
        owner = fid.split("::{closure")[0]
        owners.setdefault(owner, []).extend(what)
    rep.expect("functions that create offsets", len(owners), 10)
    # the fields stay private to their modules
    for adt in FIELDS:
        a = prog.adts.get(adt)
        if a is None:
            rep.bad("anchor/" + adt, "core/src", "type not found")
            continue
        for fd in a["v"][0]["f"]:
            if fd["vis"] == "Public":
                rep.bad("private/%s.%s" % (adt.split("::")[-1], fd["n"]), a["loc"], "field `%s` is public: any offset can be stored" % fd["n"])
            else:
                rep.ok("private/%s.%s" % (adt.split("::")[-1], fd["n"]), a["loc"])
    for name in ("Position::new_unchecked", "Span::new_unchecked"):
        f = find(prog, POSITION if name[0] == "P" else SPAN, "new_unchecked")
        if f is not None:
            if f.get("vis") == "Public" and not f.get("unsafe"):
                rep.bad("unsafe/" + name, f["loc"], "the unchecked constructor is safe and public")
            else:
                rep.ok("unsafe/" + name, f["loc"])
    for fid, what in sorted(owners.items()):
        f = prog.fns[fid]
        if f["name"] == "new_unchecked":
            continue
        key = "boundary/" + short(fid, f)
        grids = [0, 1, 2, 3] if f["name"] in ("skip", "skip_back") else [None]
        for g in grids:
            ip = Bounds(prog)
            ip.maxpaths, ip.maxwork = 150, 2000
            cut = None
            try:
                a, h, w = setup_any(prog, f)
                if g is not None:
                    a = [("int", g) if x == ("n", i) else x for i, x in enumerate(a)]
                ip.watch = tuple(w)
                s = {gg["n"]: ("param", "X_" + gg["n"]) for gg in f["gen"]}
                ip.paths(new_state(ip, f["id"], s, a, h))
            except (Unsupported, Budget) as e:
                cut = str(e)
            bad = [o for o in ip.obl if not o[3]]
            hard = [o for o in bad if not opaque_term(o[2]) and not opaque_term(o[1])]
            k2 = key if g is None else "%s(%d)" % (key, g)
            if hard:
                o = hard[0]
                rep.bad(k2, f["loc"], "offset %s of %s is not shown to be a character boundary of its input" % (
                    values.show(o[2]), o[0].split("::")[-1]))
            elif bad:
                rep.unsure(k2, f["loc"], "offset %s" % values.show(bad[0][2])[:300])
            elif cut:
                rep.unsure(k2, f["loc"], "%s; %d offsets before that are boundaries" % (cut, len(ip.obl)))
            else:
                rep.ok(k2, f["loc"], "%d offsets: %s" % (len(ip.obl), "; ".join(sorted(set(what)))))


def short(fid, f):
    return (node_of(f) + "::" + f["name"]) if f.get("self") else fid.split("::", 1)[1]


def node_of(f):
    t = T(f["self"])
    return t[1].split("::")[-1] if t[0] == "adt" else tyname(t)




# ------------------------------------------------------------------ C13: the failure tracker
TRACKER = "pest3_core::typed::tracker::Tracker"
SS = ("s", "S")


def tpos(k):
    return ("agg", POSITION, 0, (SS, ("P", SS, k)))


def field_roles(prog, adt):
    """indices of (position, polarity, attempts, stack) by their types"""
    r = {}
    for i, fd in enumerate(prog.adts[adt]["v"][0]["f"]):
        t = T(fd["t"])
        if t[0] == "adt" and t[1] == POSITION:
            r["position"] = i
        elif t == ("prim", "bool"):
            r["positive"] = i
        elif t[0] == "adt" and t[1].endswith("Map"):
            r["attempts"] = i
        elif t[0] == "adt" and t[1].endswith("Vec"):
            r["stack"] = i
    if len(r) != 4:
        raise Unsupported("the tracker is laid out differently")
    return r


def tracker_value(n, order, adt, positive, base, suffix=""):
    fs = {
        "position": tpos("at" + suffix), "positive": ("bool", positive),
        "attempts": ("agg", "map", 0, (("attempts", base),)),
        "stack": LIST([TUP(("rule", i), tpos("s%d" % i), ("bool", False) if i < n - 1 else ("flag", i)) for i in range(n)]),
    }
    return ("agg", adt, 0, tuple(fs[k] for k in order))


class TrackInterp(ValInterp):
    """calls of the tracked closure: it leaves polarity and rule stack as they are, except that it may have tried rules"""
    cell = ("H", "trk")
    order = None
    adt = None
    kind = None

    def on_opaque_fn(self, ip, st, f, args, dest, target):
        if not args or args[0][0] != "ref":
            return None
        c, p = args[0][1], args[0][2]
        while True:
            v = self.load(st, c, p)
            if v[0] == "ref":
                c, p = v[1], v[2]
            else:
                break
        if c != self.cell or p:
            return None
        lab = ("run", canon_tracker(self.deep(st, v), self.order))
        res = []
        outs = {"opt": [NONE, SOME(("val",))], "res": [("agg", "Result", 1, (("err",),)), ("agg", "Result", 0, (("val",),))],
                "any": [("val",)]}[self.kind]
        for o in outs:
            for inner in ((False, True) if self.kind != "any" else (None,)):
                s2 = st.copy()
                w = list(self.load(s2, c, ()) [3])
                k = {n: i for i, n in enumerate(self.order)}
                w[k["position"]] = tpos("at2")
                w[k["attempts"]] = ("agg", "map", 0, (("attempts", "later"),))
                stk = w[k["stack"]]
                if is_listv(stk) and stk[3] and inner is not None:
                    e = stk[3][-1]
                    if inner:
                        e = TUP(e[3][0], e[3][1], ("bool", True))
                    w[k["stack"]] = LIST(stk[3][:-1] + (e,))
                s2.cells[c] = ("agg", self.adt, 0, tuple(w))
                gs = (("if", ("succeeds",), o == outs[-1]),) if len(outs) > 1 else ()
                if inner is not None:
                    gs += (("if", ("inner",), inner),)
                res.append(((lab,) + gs, self.finish(s2, dest, target, o)))
        return res


def is_listv(v):
    return v[0] == "agg" and v[1] == "list"


ROLES = ("position", "positive", "attempts", "stack")


def canon_tracker(v, order):
    if v[0] != "agg" or len(v[3]) != 4:
        return v
    d = dict(zip(order, v[3]))
    return TUP(*[values.canon(d[k]) for k in ROLES])


TRACK_FNS = [
    ("repeat_too_many_times", "tk_rep", "any"), ("out_of_bound", "tk_oob", "any"), ("empty_stack", "tk_empty", "any"),
    ("positive_during", "tk_positive", "any"), ("negative_during", "tk_negative", "any"),
    ("record_option_during_with", "tk_opt", "opt"), ("record_option_during", "tk_opt", "opt"),
    ("record_empty_during", "tk_opt", "opt"), ("record_during_with", "tk_res", "res"), ("record_result_during", "tk_res_of", "res"),
]
TRACK_PUBLIC = {x[0] for x in TRACK_FNS} - {"record_option_during_with", "record_during_with"}


def track_paths(prog, f, n, positive, order, adt, kind, targs):
    ip = TrackInterp(prog)
    ip.order, ip.adt, ip.kind = order, adt, kind
    ip.watch = (ip.cell,)
    args, b = [("ref", ip.cell, (), True)], f["body"]
    for i in range(1, b["argc"]):
        t = T(b["locals"][i + 1])
        if t[0] == "adt" and t[1].split("::")[-1] in ("Position", "P"):
            args.append(tpos("p"))
        elif t == ("prim", "isize"):
            args.append(("n", "a"))
        elif t[0] == "adt" and t[1] == OPT:
            args.append(("optarg",))
        elif t[0] == "param" and t[1] == "R":
            args.append(("rule", "new"))
        elif t[0] == "param":
            args.append(("fn", "f"))
        else:
            raise Unsupported("argument of type %s" % tyname(t))
    sub = {g["n"]: ("param", "X_" + g["n"]) for g in f["gen"]}
    st = new_state(ip, f["id"], sub, args, {ip.cell: tracker_value(n, order, adt, positive, "old")})
    ps = ip.paths(st)
    out = []
    for p in ps:
        out.append(values.Path(p.guards, p.effects, p.out, tuple(reorder(x, order) for x in p.finals)))
    return out


def subterms(x):
    if isinstance(x, tuple):
        if x and isinstance(x[0], str):
            yield x
        for y in x:
            yield from subterms(y)


def reorder(v, order):
    if v and v[0] == "agg" and len(v[3]) == 4:
        d = dict(zip(order, v[3]))
        return TUP(*[d[k] for k in ROLES])
    return v


def c13(rep, prog):
    rep.rule = ("Every public operation of the failure tracker is summarised as guarded paths from a symbolic tracker (0 to 3 enclosing rules, "
                "either polarity, any position and attempts) to the resulting tracker, with the tracked closure as an opaque step that may "
                "succeed or fail and may or may not have tried inner rules; compared path by path with the reference.")
    if TRACKER not in prog.adts:
        rep.bad("anchor/Tracker", "core/src/typed/tracker.rs", "type not found")
        return
    try:
        roles = field_roles(prog, TRACKER)
    except Unsupported as e:
        rep.unsure("layout", prog.adts[TRACKER]["loc"], str(e))
        return
    order = [k for k, i in sorted(roles.items(), key=lambda x: x[1])]
    depths = range(0, 5 if thorough() else 4)
    m = 0
    for name, ref, kind in TRACK_FNS:
        f = find(prog, TRACKER, name)
        key0 = "tracker/" + name
        if f is None:
            if name in TRACK_PUBLIC:
                rep.bad("anchor/" + name, "core/src/typed/tracker.rs", "the public method no longer exists")
            continue
        rf = prog.fns["models::vals::" + ref]
        for n in depths:
            for positive in (True, False):
                key = "%s@depth%d%s" % (key0, n, "+" if positive else "-")
                m += 1
                try:
                    A = track_paths(prog, f, n, positive, order, TRACKER, kind, None)
                except (Unsupported, Budget) as e:
                    rep.unsure(key, f["loc"], str(e))
                    continue
                B = track_paths(prog, rf, n, positive, list(ROLES), "models::vals::TK", kind, None)
                verdict(rep, key, f, A, B, same_effects=True)
    f = find(prog, TRACKER, "new")
    if f is None:
        rep.bad("anchor/new", "core/src/typed/tracker.rs", "the public constructor no longer exists")
    else:
        m += 1
        try:
            ip = ValInterp(prog)
            sub = {"R": ("param", "X_R")}
            fix = lambda ps, o: [values.Path(p.guards, p.effects, reorder(p.out, o), p.finals) for p in ps]
            A = fix(ip.paths(new_state(ip, f["id"], sub, [tpos("p")], {})), order)
            rf = prog.fns["models::vals::tk_new"]
            B = fix(ip.paths(new_state(ip, rf["id"], sub, [tpos("p")], {})), list(ROLES))
            verdict(rep, "tracker/new", f, A, B)
        except (Unsupported, Budget) as e:
            rep.unsure("tracker/new", f["loc"], str(e))
    f = find(prog, TRACKER, "collect")
    if f is None:
        rep.bad("anchor/collect", "core/src/typed/tracker.rs", "the public method no longer exists")
    else:
        m += 1
        try:
            ip = ValInterp(prog, hooks={"Tracker::collect_to_message": lambda ip, st, c: values.out(c, ip, st, ("msg",))})
            ps = ip.paths(new_state(ip, f["id"], {"R": ("param", "X_R")}, [tracker_value(1, order, TRACKER, True, "old")], {}))
            for p in ps:
                if p.out == ("panic",):
                    continue
                at = [x for x in subterms(p.out) if x[0] == "call" and x[1].split("::")[-1] == "new_from_pos"]
                if not at:
                    rep.unsure("report/position", f["loc"], "the error is not built by new_from_pos: %r" % (p,))
                elif not all(any(y == ("P", SS, "at") for y in subterms(x[3][1])) for x in at):
                    rep.bad("report/position", f["loc"], "the error is reported at %s, not at the furthest position" % values.show(at[0][3][1])[:300])
                else:
                    rep.ok("report/position", f["loc"], "the error carries the furthest position")
        except (Unsupported, Budget) as e:
            rep.unsure("report/position", f["loc"], str(e))
    rep.expect("tracker operations x contexts", m, 60)


def thorough():
    import os
    return os.environ.get("VERIF_TIER") == "thorough"


def verdict(rep, key, f, A, B, same_effects=False):
    d = diff_paths(A, B)
    if d is None:
        rep.ok(key, f["loc"], "%d paths" % len(A))
        rep.sample({"key": key, "where": f["loc"], "paths": [repr(p)[:300] for p in A[:2]]})
    elif d[0] == "undecided":
        rep.unsure(key, f["loc"], d[1][:600])
    else:
        rep.bad(key, f["loc"], "the code: %r; the specification: %r" % (d[1], d[2]))


# ------------------------------------------------------------------ C16, C17: trees
PC = "pest3_core::typed::traits::PairContainer"
PT = "pest3_core::typed::traits::PairTree"
PAIR = "pest3_core::token::Pair"


def trees(prog, t, sub, path=(), k=0):
    """all symbolic shapes of a value of type t: (value, leaves in declaration order);
    a leaf is a value of a type parameter"""
    t = subst(t, sub)
    if t[0] == "param":
        return [(("leaf", t[1], path), [(t[1], path)])]
    if t[0] == "adt":
        n = t[1].split("::")[-1]
        if n == "Vec" or n in ("VecDeque", "SmallVec"):
            out = []
            for m in range(4):
                xs, ls = [], []
                for i in range(m):
                    v, l = trees(prog, t[2][0], {}, path + (i,))[0]
                    xs.append(v)
                    ls += l
                out.append((LIST(xs), ls))
            return out
        if t[1] == OPT:
            return [(NONE, [])] + [(SOME(v), l) for v, l in trees(prog, t[2][0], {}, path)]
        if n == "Box":
            return trees(prog, t[2][0], {}, path)
        a = prog.adts.get(t[1])
        if a is not None and n not in ("Phantom", "PhantomData", "Position", "Span"):
            names = [g["n"] for g in a["gen"]] if "gen" in a else None
            s2 = dict(zip(names, t[2])) if names else {}
            out = []
            for vi, v in enumerate(a["v"]):
                rows = [((), [])]
                for fi, fd in enumerate(v["f"]):
                    sh = trees(prog, T(fd["t"]), s2, path + ((vi, fi) if len(a["v"]) > 1 else (fi,)))
                    rows = [(xs + (x,), ls + l) for xs, ls in rows for x, l in sh]
                out += [(("agg", t[1], vi, xs), ls) for xs, ls in rows]
            return out
    return [(("opaque", path), [])]


class TreeInterp(ValInterp):
    """children are asked for their pairs: one effect per call, in order"""

    def on_param_call(self, ip, st, call):
        n = call.path.split("::")[-1]
        if call.trait == PC and n == "vec_children_pairs" and self.deep(st, call.args[0])[0] == "leaf":
            # not those of the child itself: a rule counts itself, not what is in it
            return values.out(call, self, st, LIST((("inner", 0), ("inner", 1))))
        if call.trait == PC and n in ("for_self_or_for_each_child_pair", "for_each_child_pair"):
            s = self.deep(st, call.args[0])
            if s[0] == "leaf" or s == ("self",):
                return self.pairs(st, call, s, n)
        if call.trait == PT and n == "get_rule":
            return values.out(call, ip, st, ("ruleof", call.targs[0]))
        if call.trait == PT and n == "get_span":
            return values.out(call, ip, st, TUP(("startof",), ("endof",)))
        return None

    def pairs(self, st, call, s, n):
        f = call.args[1]
        v = self.val(st, f)
        kind, eff = ("inner", "inners") if s[0] == "leaf" and n == "for_each_child_pair" else ("pair", "pairs")
        if v[0] == "clo":
            # deliver two pairs to the closure
            c = Call(call.id, call.path, (), [f, (kind, 0), (kind, 1)], call.dest, call.target, None, call.loc, call.caller)
            self.call_model(st, "two_pairs", c)
            return True
        return values.out(call, self, st, UNIT, ((eff, s, self.deep(st, f)),))


def tree_paths(prog, f, args, heap=None, models=None, hooks=None):
    ip = TreeInterp(prog, hooks=hooks, models=models)
    ip.on_param = ip.on_param_call
    sub = {g["n"]: ("param", g["n"]) for g in f["gen"]}
    return ip.paths(new_state(ip, f["id"], sub, args, heap or {})), ip


def expect_paths(rep, key, f, A, want, show_want):
    """all paths have exactly the wanted (effects, out)"""
    for p in A:
        if p.out == ("panic",) or (p.effects, p.out) != want:
            if values.foreign((p.effects, p.out, p.guards)):
                rep.unsure(key, f["loc"], repr(p)[:500])
            else:
                rep.bad(key, f["loc"], "%s; expected %s" % (repr(p)[:500], show_want))
            return
    if not A:
        rep.unsure(key, f["loc"], "no path")
        return
    rep.ok(key, f["loc"], "%d paths" % len(A))


def c16(rep, prog):
    rep.rule = ("Every implementation that enumerates the child pairs of a tree node is summarised on every shape of the node (each variant, "
                "0 to 3 repetitions): the effects must be exactly one request per matched child, in the order of the grammar. The provided methods that "
                "collect children, build a pair from a rule, and convert a pair tree must keep rule, offsets, and the order and number of children.")
    n = 0
    for f in sorted(prog.crates[CORE].fns.values(), key=lambda f: f["id"]):
        if f.get("trait") != PC or f["name"] != "for_each_child_pair" or "body" not in f or "in_test" in f:
            continue
        st = T(f["self"])
        name = tyname(st)
        if st[0] == "param":
            kinds = [(("self",), [])]      # blanket implementation for nodes without children
            name = "nodes without children"
        else:
            kinds = trees(prog, st, {})
        n += 1
        for i, (v, leaves) in enumerate(kinds):
            key = "children/%s#%d" % (name.split("<")[0], i)
            args = [("ref", ("H", "self"), (), False), ("ref", ("H", "f"), (), True)]
            try:
                A, _ = tree_paths(prog, f, args, {("H", "self"): v, ("H", "f"): ("fn", "f")})
            except (Unsupported, Budget) as e:
                rep.unsure(key, f["loc"], str(e))
                continue
            want = tuple(("pairs", ("leaf", l, p), ("fn", "f")) for l, p in leaves)
            expect_paths(rep, key, f, A, (want, UNIT), "; ".join("child %s" % l for l, _ in leaves) or "no child")
    rep.expect("nodes that enumerate children", n, 33)
    # nodes that override the provided methods, and the provided methods themselves
    for f in sorted(prog.crates[CORE].fns.values(), key=lambda f: f["id"]):
        if f["name"] != "vec_children_pairs" or "body" not in f or "in_test" in f or "{closure" in f["id"]:
            continue
        provided = f.get("trait") != PC
        if provided:
            kinds = [(("self",), [("self", ())])]
        else:
            kinds = trees(prog, T(f["self"]), {})
        for i, (v, leaves) in enumerate(kinds):
            key = "collect/%s#%d" % ("provided" if provided else tyname(T(f["self"])).split("<")[0], i)
            try:
                A, _ = tree_paths(prog, f, [("ref", ("H", "self"), (), False)], {("H", "self"): v})
            except (Unsupported, Budget) as e:
                rep.unsure(key, f["loc"], str(e))
                continue
            want = LIST((("pair", 0), ("pair", 1)) * len(leaves))
            expect_paths(rep, key, f, A, ((), want), "all pairs in order")
    f = prog.fns.get(PC + "::for_self_or_for_each_child_pair")
    if f is None or "body" not in f:
        rep.bad("anchor/for_self_or_for_each_child_pair", "core/src/typed/traits.rs", "the provided method no longer exists")
    else:
        A, _ = tree_paths(prog, f, [("ref", ("H", "self"), (), False), ("ref", ("H", "f"), (), True)],
                          {("H", "self"): ("self",), ("H", "f"): ("fn", "f")})
        expect_paths(rep, "provided/self-or-children", f, A, ((("pairs", ("self",), ("fn", "f")),), UNIT), "the children")
    f = prog.fns.get(PT + "::as_pair_tree")
    order = [fd["n"] for fd in prog.adts[PAIR]["v"][0]["f"]] if PAIR in prog.adts else []
    if f is None or sorted(order) != ["children", "end", "rule", "start"]:
        rep.bad("anchor/as_pair_tree", "core/src/typed/traits.rs", "the pair tree is built differently")
    else:
        A, _ = tree_paths(prog, f, [("ref", ("H", "self"), (), False)], {("H", "self"): ("self",)})
        d = {"rule": ("ruleof", ("param", "Self")), "start": ("startof",), "end": ("endof",), "children": LIST((("pair", 0), ("pair", 1)))}
        expect_paths(rep, "pair/build", f, A, ((), ("agg", "_", 0, tuple(d[k] for k in order))), "rule, span and children of the node")
        f = find(prog, PAIR, "convert")
        if f is None:
            rep.bad("anchor/convert", "core/src/token/mod.rs", "the public method no longer exists")
        else:
            for m in range(4):
                d = {"rule": ("rule",), "start": ("startof",), "end": ("endof",), "children": LIST(tuple(("pair", i) for i in range(m)))}
                w = {"rule": ("app", ("fn", "f"), (("rule",),)), "start": ("startof",), "end": ("endof",),
                     "children": LIST(tuple(("conv", ("pair", i), ("fn", "f")) for i in range(m)))}
                hooks = {}
                ip = ConvInterp(prog)
                ip.on_param = ip.clone_param
                ip.top = f["id"]
                sub = {g["n"]: ("param", g["n"]) for g in f["gen"]}
                try:
                    A = ip.paths(new_state(ip, f["id"], sub, [("ref", ("H", "self"), (), False), ("ref", ("H", "f"), (), False)],
                                           {("H", "self"): ("agg", PAIR, 0, tuple(d[k] for k in order)), ("H", "f"): ("fn", "f")}))
                except (Unsupported, Budget) as e:
                    rep.unsure("pair/convert#%d" % m, f["loc"], str(e))
                    continue
                expect_paths(rep, "pair/convert#%d" % m, f, A, ((), ("agg", "_", 0, tuple(w[k] for k in order))), "the same tree with converted rules")


class ConvInterp(ValInterp):
    def clone_param(self, ip, st, call):
        # a rule is a plain value: its copy is the same rule
        if call.path.endswith("Clone::clone"):
            return values.out(call, self, st, self.deep(st, call.args[0]))
        return None

    def recursive_call(self, st, f, s, call):
        if f["id"] == self.top:
            return values.out(call, self, st, ("conv", self.deep(st, call.args[0]), self.deep(st, call.args[1])))
        return super().recursive_call(st, f, s, call)


def c17(rep, prog):
    rep.rule = ("Every accessor of the node types (choice getters, tuple views of sequences, iteration over repetitions, dereferencing) is summarised "
                "on every shape of the node and must return exactly the child at its position.")
    n = 0
    getters = {}
    for f in prog.crates[CORE].fns.values():
        if f.get("self") and f.get("vis") == "Public" and not f.get("trait"):
            getters.setdefault(f["self"].get("p"), set()).add(f["name"])
    for adt, a in sorted(prog.adts.items()):
        if not (adt.startswith("pest3_core::choice::Choice") and len(a["v"]) > 1):
            continue
        names = [v["n"] for v in a["v"]]
        want = ["Choice%d" % i for i in range(len(names))]
        key = "variants/" + adt.split("::")[-1]
        if names != want:
            i = [x == y for x, y in zip(names, want)].index(False)
            rep.bad(key, a["loc"], "alternative %d is named `%s`" % (i, names[i]))
        elif [fd["t"].get("n") for v in a["v"] for fd in v["f"]] != [g["n"] for g in a["gen"]]:
            rep.bad(key, a["loc"], "the variants do not hold the alternatives in order: %s" % [fd["t"].get("n") for v in a["v"] for fd in v["f"]])
        else:
            rep.ok(key, a["loc"], "%d variants" % len(names))
        miss = [i for i in range(len(names)) if "choice_%d" % i not in getters.get(adt, ())]
        if miss:
            rep.bad("getters/" + key, a["loc"], "no public getter `choice_%d`" % miss[0])
        else:
            rep.ok("getters/" + key, a["loc"], "%d getters" % len(names))
    for f in sorted(prog.crates[CORE].fns.values(), key=lambda f: f["id"]):
        if "body" not in f or "in_test" in f or not f.get("self") or "{closure" in f["id"]:
            continue
        st = T(f["self"])
        if st[0] == "ref":
            st = st[2]
        if st[0] != "adt" or not st[1].startswith("pest3_core::"):
            continue
        name, node = f["name"], st[1].split("::")[-1]
        if "Sequence" not in node and "Choice" not in node and node not in ("RepMinMax", "push", "Positive"):
            continue
        kinds = trees(prog, st, {})
        byref = T(f["body"]["locals"][1])[0] == "ref" if f["body"]["argc"] else False
        for i, (v, leaves) in enumerate(kinds):
            terms = [("leaf", l, p) for l, p in leaves]
            if node.startswith("Choice") and name.startswith("choice_") and name[7:].isdigit():
                j = int(name[7:])
                want = SOME(terms[0]) if i == j else NONE
            elif node.startswith("Sequence") and name in ("as_tuple", "into_tuple"):
                want = TUP(*terms)
            elif node == "RepMinMax" and name in ("iter", "into_iter"):
                want = ("liter", tuple(terms))
            elif node in ("push", "Positive") and name in ("deref", "deref_mut") and len(terms) == 1:
                want = terms[0]
            else:
                continue
            n += 1
            key = "accessor/%s::%s#%d" % (node, name, i)
            a = [("ref", ("H", "self"), (), True)] if byref else [v]
            try:
                A, _ = tree_paths(prog, f, a, {("H", "self"): v})
            except (Unsupported, Budget) as e:
                rep.unsure(key, f["loc"], str(e))
                continue
            expect_paths(rep, key, f, A, ((), values.canon(want)), values.show(want))
    rep.expect("accessors x shapes", n, 1400)


PROPS = {"C10": c10, "C11": c11, "C13": c13, "C16": c16, "C17": c17}
