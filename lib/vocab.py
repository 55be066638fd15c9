"""The vocabulary of pest3_core as seen by the abstract interpreter: what each
primitive does to the abstract state and which effect it contributes."""
from interp import *

IN = ("pos", "E")
STACK = ("H", "stack")
TRK = ("H", "trk")
CAP = 5


# ------------------------------------------------------------ ages
def _older(a):
    if a == "N":
        return "O1"
    if a[0] == "O" and a[1:].isdigit():
        k = int(a[1:]) + 1
        return "O%d" % k if k <= CAP else "OLD"
    return a


def rename(st, f):
    st.map(f)
    st.facts = {k: v for k, v in st.facts.items() if "'OLD'" not in repr(k)}


def new_pos(st):
    def f(v):
        if len(v) == 2 and v[0] == "pos":
            return ("pos", _older(v[1]))
        return v
    rename(st, f)
    return ("pos", "N")


def new_age(st, tag, *ident):
    """allocate ('tag', *ident, 'N'), ageing the previous ones"""
    n = 1 + len(ident)

    def f(v):
        if len(v) == n + 1 and v[0] == tag and v[1:n] == ident:
            return v[:n] + (_older(v[n]),)
        return v
    rename(st, f)
    return (tag,) + ident + ("N",)


def stack_changed(st):
    st.facts = {k: v for k, v in st.facts.items() if "stk" not in repr(k)}

    def f(v):
        if v == ("stktop",):
            return ("oldtop",)
        if len(v) == 2 and v[0] == "slen":
            return ("oldlen", v[1])
        return v
    st.map(f)


# ------------------------------------------------------------ ghost counter
def substG(v, k):
    """G := G' - k"""
    if not isinstance(v, tuple) or not v:
        return v
    if v == ("G",):
        return unlin({("G",): 1}, -k)
    if v[0] == "sum":
        r = ("int", v[2])
        for t, c in v[1]:
            t = substG(t, k)
            l = lin(t)
            r = add(r, unlin({a: b * c for a, b in l[0].items()}, l[1] * c))
        return r
    return tuple(substG(x, k) if isinstance(x, tuple) else x for x in v)


def _gen(cur, prev, n):
    if cur == prev:
        return cur
    if isinstance(cur, tuple) and isinstance(prev, tuple) and cur and prev:
        if cur[0] == "int" and prev[0] == "int":
            if cur[1] == prev[1] + 1:
                return unlin({("G",): 1}, cur[1] - n)
            return ("top",)
        if len(cur) == len(prev) and (cur[0] == prev[0] or not isinstance(cur[0], str)):
            return tuple(_gen(a, b, n) if isinstance(a, tuple) and isinstance(b, tuple) else a
                         for a, b in zip(cur, prev))
    return cur


def inc_G(ip, st):
    if st.G is None:
        return
    st.facts = {k: v for k, v in st.facts.items() if "('G',)" not in repr(k)}
    if st.G == "+":
        st.cells = {k: substG(v, 1) for k, v in st.cells.items()}
        return
    st.G += 1
    if st.G == ip.gcap - 1:
        st.ghost["shadow"] = tuple(sorted(st.cells.items(), key=repr))
    elif st.G == ip.gcap:
        sh = dict(st.ghost.pop("shadow", ()))
        st.cells = {k: (_gen(v, sh[k], st.G) if k in sh else v) for k, v in st.cells.items()}
        st.G = "+"


# ------------------------------------------------------------ helpers
def P(ip, st, v):
    return ip.val(st, v)


def stk_id(ip, st, v):
    v = ip.val(st, v)
    return v


def ref_of(ip, st, v):
    """innermost reference (cell, proj) of a chain"""
    r = None
    n = 0
    while v[0] == "ref" and n < 10:
        r = v
        v = ip.load(st, v[1], v[2])
        n += 1
    return r


def out(call, ip, st, v, labels=()):
    return [(tuple(labels), ip.finish(st, call.dest, call.target, v))]


def guard(ip, st, c):
    """evaluate / fork on condition c: yields (labels, state, bool)"""
    if c[0] == "bool":
        return [((), st, c[1])]
    r = ip.fact(st, c)
    if r is not None:
        return [((), st, r)]
    res = []
    for b in (True, False):
        s2 = st.copy()
        ip.setfact(s2, c, b)
        res.append((ip.guard_labels(s2, c, b), s2, b))
    return res


def canon_ty(t):
    return t[1] if t[0] == "param" else tyname(t)


# ------------------------------------------------------------ hooks
def h_ident(ip, st, call):
    return out(call, ip, st, call.args[0])


def h_not(ip, st, call):
    v = ip.val(st, call.args[0])
    bt = lambda t: t == ("prim", "bool") or (t[0] == "ref" and t[2] == ("prim", "bool"))
    if v[0] in ("bool", "not", "eq", "eq0", "gt0", "lt", "flag") or (call.targs and bt(call.targs[0])):
        return out(call, ip, st, NOT(v))
    return NotImplemented


def h_copy(ip, st, call):
    return out(call, ip, st, ip.val(st, call.args[0]))


def h_branch(ip, st, call):
    v = call.args[0]
    if v[0] == "agg" and v[1] == "Option":
        r = ("agg", "ControlFlow", 0, (v[3][0],)) if v[2] == 1 else ("agg", "ControlFlow", 1, (NONE,))
        return out(call, ip, st, r)
    if v[0] == "agg" and v[1] == "Result":
        r = ("agg", "ControlFlow", 0, (v[3][0],)) if v[2] == 0 else ("agg", "ControlFlow", 1, (v,))
        return out(call, ip, st, r)
    if v[0] == "agg" and v[1] == "ControlFlow":
        return out(call, ip, st, v)
    # opaque
    t = call.targs[0]
    res = []
    d = ip.discr(st, v)
    known = st.facts.get(d)
    isopt = t[0] == "adt" and t[1] == OPT
    for n in (0, 1):
        if known is not None and not isinstance(known, tuple) and known != n:
            continue
        s2 = st.copy()
        labs = ()
        if known is None:
            s2.facts[d] = n
            labs = ip.switch_labels(s2, d, n)
        ok = (n == 1) if isopt else (n == 0)
        if ok:
            r = ("agg", "ControlFlow", 0, (ip.field(v, 0, n),))
        else:
            r = ("agg", "ControlFlow", 1, (NONE if isopt else ("agg", "Result", 1, (ip.field(v, 0, 1),)),))
        res.append((labs, ip.finish(s2, call.dest, call.target, r)))
    return res


def h_from_residual(ip, st, call):
    v = call.args[0]
    t = call.targs[0]
    if v == NONE or (v[0] == "agg" and v[1] == "Option"):
        if t[0] == "adt" and t[1] == RES:
            return out(call, ip, st, ("agg", "Result", 1, (("top",),)))
        return out(call, ip, st, NONE)
    if v[0] == "agg" and v[1] == "Result":
        return out(call, ip, st, ip.conv_err(st, v, call) if hasattr(ip, "conv_err") else v)
    return out(call, ip, st, v)


def h_from_output(ip, st, call):
    t = call.targs[0]
    if t[0] == "adt" and t[1] == RES:
        return out(call, ip, st, ("agg", "Result", 0, (call.args[0],)))
    return out(call, ip, st, SOME(call.args[0]))


def h_from(ip, st, call):
    """From::from / Into::into: identity when the types agree, else the local impl"""
    t = call.targs
    if len(t) >= 2 and t[0] == t[1]:
        return out(call, ip, st, call.args[0])
    if len(t) >= 2 and boxes(t[0], t[1]):
        return h_box(ip, st, call)
    return NotImplemented


def h_box(ip, st, call):
    return out(call, ip, st, ("agg", "Box", 0, (call.args[0],)))


def boxes(a, b):
    return a[0] == "adt" and a[1] == "alloc::boxed::Box" and a[2] and a[2][0] == b


def h_into(ip, st, call):
    t = call.targs
    if len(t) >= 2 and t[0] == t[1]:
        return out(call, ip, st, call.args[0])
    if len(t) >= 2:
        c = Call("core::convert::From::from", "std::convert::From::from", (t[1], t[0]), call.args,
                 call.dest, call.target, "core::convert::From", call.loc, call.caller)
        return ip.dispatch(st, c)
    return NotImplemented


def h_replace(ip, st, call):
    r = call.args[0]
    old = ip.load(st, r[1], r[2])
    ip.store(st, r[1], r[2], call.args[1])
    return out(call, ip, st, old)


def h_take(ip, st, call):
    r = call.args[0]
    if r[0] != "ref":
        return NotImplemented
    old = ip.load(st, r[1], r[2])
    if not (old[0] == "agg" and old[1] == "Option"):
        return NotImplemented
    ip.store(st, r[1], r[2], NONE)
    return out(call, ip, st, old)


def h_swap(ip, st, call):
    a, b = call.args
    x, y = ip.load(st, a[1], a[2]), ip.load(st, b[1], b[2])
    ip.store(st, a[1], a[2], y)
    ip.store(st, b[1], b[2], x)
    return out(call, ip, st, UNIT)


def h_drop(ip, st, call):
    return out(call, ip, st, UNIT)


def cmpop(op):
    def h(ip, st, call):
        x, y = ip.val(st, call.args[0]), ip.val(st, call.args[1])
        if x[0] in ("int", "char", "sum", "bool", "G") or y[0] in ("int", "char", "sum", "bool") \
                or (x[0] in ("param", "char") and y[0] in ("param", "char")):
            return out(call, ip, st, ip.compare(st, op, x, y))
        if op in ("Eq", "Ne"):
            # a derived or local impl would be entered; treat as structural equality
            f, s = ip.resolve_trait(call)
            if f is not None and not f.get("derived"):
                return NotImplemented
            c = EQ(ip.deep(st, x), ip.deep(st, y))
            return out(call, ip, st, NOT(c) if op == "Ne" else c)
        return NotImplemented
    return h


# --- iterators
def items_of(ip, st, a):
    """elements of an array or slice of known length"""
    v = ip.val(st, a)
    if v[0] == "agg" and v[1] in ("list", "array"):
        r = ref_of(ip, st, a)
        if r is not None:
            return tuple(("ref", r[1], r[2] + (("f", i),), r[3]) for i in range(len(v[3])))
        return v[3]
    return None


def h_into_iter(ip, st, call):
    v = ip.val(st, call.args[0])
    if v[0] == "agg" and (v[1] in ITER_MODELS or v[1] == "core::ops::range::Range"):
        return out(call, ip, st, call.args[0] if call.args[0][0] == "ref" else v)
    xs = items_of(ip, st, call.args[0])
    if xs is not None:
        return out(call, ip, st, ("liter", xs))
    if v[0] in ("siter", "chars", "eiter", "liter"):
        return out(call, ip, st, call.args[0] if call.args[0][0] == "ref" else v)
    if v[0] == "sslice":
        return out(call, ip, st, ("siter", v[1], "fwd"))
    if v[0] == "vec" and call.args[0][0] != "ref":
        return out(call, ip, st, ("veciter", v))
    return NotImplemented


def h_ri_bound(i):
    def h(ip, st, call):
        v = ip.val(st, call.args[0])
        if v[0] == "agg" and v[1] in ("RangeInc", "models::RangeInc"):
            return out(call, ip, st, v[3][i])
        return NotImplemented
    return h


ITER_MODELS = {
    "core::ops::range::Range": "range_next",
    "models::RangeInc": "rangeinc_next",
    "models::MapIt": "map_next",
    "models::FilterIt": "filter_next",
    "models::FilterMapIt": "filter_map_next",
    "models::ChainIt": "chain_next",
    "models::EnumIt": "enum_next",
    "models::TakeIt": "take_next",
    "models::SkipIt": "skip_next",
}


def h_next(ip, st, call):
    r = ref_of(ip, st, call.args[0])
    if r is None:
        return NotImplemented
    v = ip.load(st, r[1], r[2])
    if v[0] == "agg" and v[1] in ITER_MODELS:
        c = Call(call.id, call.path, (), [r], call.dest, call.target, None, call.loc, call.caller)
        return ip.call_model(st, ITER_MODELS[v[1]], c)
    if v[0] == "siter":
        # (siter, ident, dir): elements of a stack slice
        res = []
        s2 = st.copy()
        e = new_age(s2, "elem", v[1:])
        res.append(((("next", v[1:], True),), ip.finish(s2, call.dest, call.target, SOME(e))))
        ip.store(st, r[1], r[2], ("siterend",) + v[1:])
        res.append(((("next", v[1:], False),), ip.finish(st, call.dest, call.target, NONE)))
        return res
    if v[0] == "siterend":
        return out(call, ip, st, NONE)
    if v[0] == "eiter":
        return out(call, ip, st, NONE)
    if v[0] == "liter":
        if not v[1]:
            return out(call, ip, st, NONE)
        ip.store(st, r[1], r[2], ("liter", v[1][1:]))
        return out(call, ip, st, SOME(v[1][0]))
    if v[0] == "chars":
        # first char of a known one-character span
        s = v[1]
        if s[0] == "str_of" and s[1][0] == "span" and s[1][2] != s[1][1]:
            a = s[1][1]
            if st.facts.get(("discr", ("peekchar", a))) == 1 or ip.assume_first_char:
                return out(call, ip, st, SOME(("chr", a)))
    return NotImplemented


def adaptor(kind):
    def h(ip, st, call):
        it = call.args[0]
        if kind == "EnumIt":
            v = ("agg", "models::EnumIt", 0, (it, ("int", 0)))
        elif kind == "ChainIt":
            v = ("agg", "models::ChainIt", 0, (SOME(it), call.args[1]))
        else:
            v = ("agg", "models::" + kind, 0, (it, call.args[1]))
        return out(call, ip, st, v)
    return h


def h_rev(ip, st, call):
    v = ip.val(st, call.args[0])
    if v[0] == "siter":
        return out(call, ip, st, ("siter", v[1], "rev" if v[2] == "fwd" else "fwd"))
    if v[0] == "eiter":
        return out(call, ip, st, v)
    if v[0] == "liter":
        return out(call, ip, st, ("liter", v[1][::-1]))
    return NotImplemented


def h_by_ref(ip, st, call):
    return out(call, ip, st, call.args[0])


def h_range_inc_new(ip, st, call):
    return out(call, ip, st, ("agg", "models::RangeInc", 0, (call.args[0], call.args[1], ("bool", False))))


# --- Vec
def h_vec_new(ip, st, call):
    return out(call, ip, st, ("vec", ("int", 0), "seq"))


def h_vec_push(ip, st, call):
    r = ref_of(ip, st, call.args[0])
    v = ip.load(st, r[1], r[2]) if r else ("top",)
    if v[0] != "vec":
        return NotImplemented
    x = ip.deep(st, call.args[1])
    ok = v[2]
    if not (x[0] == "res" and x[-1] == "N"):
        ok = "bad"
    # exactly one push per completed unit
    want = add(("G",), ("int", -1)) if st.G == "+" else ("int", (st.G or 0) - 1)
    if st.G is not None and v[1] != want:
        ok = "bad"
    if ok == "seq" and st.ghost.get("item") not in (None, x[1]):
        ok = "bad"
    ip.store(st, r[1], r[2], ("vec", add(v[1], ("int", 1)), ok))
    return out(call, ip, st, UNIT)


def h_vec_insert(ip, st, call):
    """insertion at the end is a push; anywhere else the order is lost"""
    r = ref_of(ip, st, call.args[0])
    v = ip.load(st, r[1], r[2]) if r else ("top",)
    i = ip.deep(st, call.args[1])
    if v[0] != "vec":
        return NotImplemented
    if i != v[1]:
        if i[0] != "int":
            return NotImplemented
        v = ("vec", v[1], "bad")
        ip.store(st, r[1], r[2], v)
    call.args = [call.args[0], call.args[2]]
    return h_vec_push(ip, st, call)


def h_vec_reverse(ip, st, call):
    r = ref_of(ip, st, call.args[0])
    v = ip.load(st, r[1], r[2]) if r else ("top",)
    if v[0] != "vec":
        return NotImplemented
    if v[1] not in (("int", 0), ("int", 1)):
        ip.store(st, r[1], r[2], ("vec", v[1], "bad"))
    return out(call, ip, st, UNIT)


def h_vec_len(ip, st, call):
    v = ip.val(st, call.args[0])
    if v[0] != "vec":
        return NotImplemented
    return out(call, ip, st, v[1])


def h_vec_is_empty(ip, st, call):
    v = ip.val(st, call.args[0])
    if v[0] != "vec":
        return NotImplemented
    return out(call, ip, st, ip.compare(st, "Eq", v[1], ("int", 0)))


# --- positions
def h_match(name):
    def h(ip, st, call):
        r = ref_of(ip, st, call.args[0])
        if r is None:
            return NotImplemented
        p = ip.load(st, r[1], r[2])
        s = ip.deep(st, call.args[1])
        if p[0] != "pos":
            return NotImplemented
        s = strval(s)
        key = (name, p, s)
        known = st.facts.get(key)
        res = []
        for b in (True, False):
            if known is not None and known != b:
                continue
            s2 = st.copy()
            labs = ((name, p, s, b),) if known is None else ()
            if b:
                n = new_pos(s2)
                ip.store(s2, r[1], r[2], n)
            else:
                s2.facts[key] = False
            res.append((labs, ip.finish(s2, call.dest, call.target, ("bool", b))))
        return res
    return h


def strval(s):
    if s[0] == "str_of":
        return s
    return s


def h_pos_pred(name):
    def h(ip, st, call):
        p = ip.val(st, call.args[0])
        if p[0] != "pos":
            return NotImplemented
        res = []
        for labs, s2, b in guard(ip, st, (name, p)):
            res.append((labs, ip.finish(s2, call.dest, call.target, ("bool", b))))
        return res
    return h


def h_peek_char(ip, st, call):
    p = ip.val(st, call.args[0])
    if p[0] != "pos":
        return NotImplemented
    res = []
    for labs, s2, b in guard(ip, st, ("haschar", p)):
        res.append((labs, ip.finish(s2, call.dest, call.target,
                                    SOME(("chr", p)) if b else NONE)))
    return res


def h_advance_char(ip, st, call):
    r = ref_of(ip, st, call.args[0])
    p = ip.load(st, r[1], r[2])
    n = new_pos(st)
    ip.store(st, r[1], r[2], n)
    # remember that [old, new) is one character
    return out(call, ip, st, UNIT, (("advance", p),))


def h_span(ip, st, call):
    a, b = ip.val(st, call.args[0]), ip.val(st, call.args[1])
    return out(call, ip, st, ("span", a, b))


def h_as_str(ip, st, call):
    v = ip.deep(st, call.args[0])
    if v[0] in ("span", "stktop", "oldtop", "popped", "elem"):
        return out(call, ip, st, ("str_of", v))
    return NotImplemented


def h_chars(ip, st, call):
    v = ip.deep(st, call.args[0])
    return out(call, ip, st, ("chars", v))


def h_encode_utf8(ip, st, call):
    v = ip.val(st, call.args[0])
    return out(call, ip, st, ("utf8", v))


def h_char_str(ip, st, call):
    return out(call, ip, st, ("utf8", ip.val(st, call.args[0])))


# --- stack
def h_stack(name):
    def h(ip, st, call):
        s = ip.val(st, call.args[0])
        if s[0] != "stk":
            return NotImplemented
        stack_changed(st)
        return out(call, ip, st, UNIT, ((name, s[1]),))
    return h


def nonempty(ip, st, s):
    n = ip.stack_len(st, s)
    if n is not None:
        return [((), st, n > 0)]
    return guard(ip, st, ("nonempty", s))


def h_push(ip, st, call):
    s = ip.val(st, call.args[0])
    if s[0] != "stk":
        return NotImplemented
    v = ip.deep(st, call.args[1])
    stack_changed(st)
    st.facts[("nonempty", s)] = True
    return out(call, ip, st, UNIT, (("push", s[1], v),))


def h_pop(ip, st, call):
    s = ip.val(st, call.args[0])
    if s[0] != "stk":
        return NotImplemented
    res = []
    for labs, s2, b in nonempty(ip, st, s):
        if b:
            def f(v):
                return ("popped", "N") if v == ("stktop",) else v
            new_age(s2, "popped")
            s2.map(f)
            stack_changed(s2)
            res.append((labs + (("pop", s[1]),), ip.finish(s2, call.dest, call.target, SOME(("popped", "N")))))
        else:
            res.append((labs, ip.finish(s2, call.dest, call.target, NONE)))
    return res


def h_peek(ip, st, call):
    s = ip.val(st, call.args[0])
    if s[0] != "stk":
        return NotImplemented
    res = []
    for labs, s2, b in nonempty(ip, st, s):
        res.append((labs, ip.finish(s2, call.dest, call.target, SOME(("stktop",)) if b else NONE)))
    return res


def h_is_empty(ip, st, call):
    s = ip.val(st, call.args[0])
    if s[0] != "stk":
        return NotImplemented
    res = []
    for labs, s2, b in nonempty(ip, st, s):
        res.append((labs, ip.finish(s2, call.dest, call.target, ("bool", not b))))
    return res


def h_slen(ip, st, call):
    s = ip.val(st, call.args[0])
    if s[0] != "stk":
        return NotImplemented
    n = ip.stack_len(st, s)
    return out(call, ip, st, ("int", n) if n is not None else ("slen", s))


def h_stack_new(ip, st, call):
    return out(call, ip, st, ("stk", "fresh"))


def h_index(ip, st, call):
    s = ip.val(st, call.args[0])
    if s[0] != "stk":
        return NotImplemented
    r = ip.deep(st, call.args[1])
    L = ip.stack_len(st, s)
    L = ("int", L) if L is not None else ("slen", s)
    if r[0] == "agg" and r[1] == "core::ops::range::Range":
        a, b = r[3]
    elif r[0] == "agg" and r[1] == "core::ops::range::RangeFrom":
        a, b = r[3][0], L
    elif r[0] == "agg" and r[1] == "core::ops::range::RangeTo":
        a, b = ("int", 0), r[3][0]
    elif r[0] == "agg" and r[1] == "core::ops::range::RangeFull":
        a, b = ("int", 0), L
    else:
        return NotImplemented
    if (a, b) == (("int", 0), L):
        return out(call, ip, st, ("sslice", ("whole", s)))
    if a == b:
        return out(call, ip, st, ("sslice", ("none",)))
    return out(call, ip, st, ("sslice", ("slice", s, a, b)))


def h_slice_iter(ip, st, call):
    v = ip.val(st, call.args[0])
    if v[0] == "sslice":
        if v[1] == ("none",):
            return out(call, ip, st, ("eiter",))
        return out(call, ip, st, ("siter", v[1], "fwd"))
    xs = items_of(ip, st, call.args[0])
    if xs is not None:
        return out(call, ip, st, ("liter", xs))
    return NotImplemented


def h_m_whole_rev(ip, st, call):
    s = ip.val(st, call.args[0])
    return out(call, ip, st, ("siter", ("whole", s), "rev"))


def h_m_slice_iter(ip, st, call):
    s = ip.val(st, call.args[0])
    a, b = call.args[1], call.args[2]
    L = ip.stack_len(st, s)
    if (a, b) == (("int", 0), ("int", L)):
        return out(call, ip, st, ("siter", ("whole", s), "fwd"))
    if a == b:
        return out(call, ip, st, ("eiter",))
    return out(call, ip, st, ("siter", ("slice", s, a, b), "fwd"))


def h_default(ip, st, call):
    t = call.targs[0]
    if t[0] == "adt":
        n = t[1].split("::")[-1]
        if t[1] == "core::slice::iter::Iter":
            return out(call, ip, st, ("eiter",))
        if t[1] == "alloc::vec::Vec":
            return h_vec_new(ip, st, call)
        if t[1] == "pest::stack::Stack":
            return h_stack_new(ip, st, call)
        if t[1] == OPT:
            return out(call, ip, st, NONE)
        if t[1] == "core::marker::PhantomData":
            return out(call, ip, st, ("agg", t[1], 0, ()))
    if t[0] == "prim":
        if t[1] == "bool":
            return out(call, ip, st, ("bool", False))
        if t[1][0] in "iu":
            return out(call, ip, st, ("int", 0))
    return NotImplemented


# --- tracker
def h_trk(name, nargs):
    def h(ip, st, call):
        t = ip.val(st, call.args[0])
        if t[0] != "trk":
            return NotImplemented
        a = tuple(ip.deep(st, x) for x in call.args[1:1 + nargs])
        return out(call, ip, st, UNIT, ((name, t[1]) + a,))
    return h


def h_trk_new(ip, st, call):
    return out(call, ip, st, ("trk", ("fresh", ip.deep(st, call.args[0]))))


def h_from_start(ip, st, call):
    s = ip.deep(st, call.args[0])
    if s == ("s", "input"):
        return out(call, ip, st, IN)
    return NotImplemented


def h_pos_new(ip, st, call):
    s, n = ip.deep(st, call.args[0]), ip.val(st, call.args[1])
    if s == ("s", "input") and n == ("int", 0):
        return out(call, ip, st, SOME(IN))
    return NotImplemented


def h_collect(ip, st, call):
    t = ip.val(st, call.args[0])
    if t[0] == "trk":
        return out(call, ip, st, ("errof", t))
    return NotImplemented


# --- sub parsers
PARSE = {"NeverNode::parse_with_partial": ("never", True), "TypedNode::try_parse_with_partial": ("opt", True), "TypedNode::check_with_partial": ("opt", False),
         "NeverFailedTypedNode::parse_with_partial": ("never", True),
         "Node::parse": ("opt", True), "Node::check": ("opt", False)}


def sub_call(ip, st, call, kind, value, name):
    p = ip.val(st, call.args[0])
    s = ip.val(st, call.args[1])
    t = ip.val(st, call.args[2]) if len(call.args) > 2 else ("trk", "none")
    base = ("sub", name, ip.deep(st, p), ip.deep(st, s), ip.deep(st, t))
    res = []
    s2 = st.copy()
    stack_changed(s2)
    n = new_pos(s2)
    if name == st.ghost.get("item"):
        inc_G(ip, s2)
    r = n
    if value:
        v = new_age(s2, "res", name)
        r = ("agg", "tuple", 0, (n, v))
    res.append(((base + (True,),), ip.finish(s2, call.dest, call.target, SOME(r) if kind == "opt" else r)))
    if kind == "opt":
        stack_changed(st)
        res.append(((base + (False,),), ip.finish(st, call.dest, call.target, NONE)))
    return res


def h_same_input(ip, st, call):
    """the positions and spans of one parse are of the same input"""
    for x in call.args:
        x = ip.val(st, x)
        if not (x[0] == "fld" and x[2:] == (0, 0) and (x[1][0] == "pos" or x[1] in (("stktop",), ("deref", ("stktop",))))):
            return NotImplemented
    return out(call, ip, st, ("bool", True))


def h_input_len(ip, st, call):
    x = ip.val(st, call.args[0])
    if x[0] == "fld" and x[2:] == (0, 0) and x[1][0] == "pos":
        return out(call, ip, st, ("inlen",))
    return NotImplemented


HOOKS = {
    "ptr::eq": h_same_input, "str::len": h_input_len,
    "Not::not": h_not,
    "Try::branch": h_branch, "FromResidual::from_residual": h_from_residual, "Try::from_output": h_from_output,
    "Box::new": h_box, "From::from": h_from, "Into::into": h_into, "mem::replace": h_replace, "Option::take": h_take,
    "mem::take": h_take, "mem::swap": h_swap, "mem::drop": h_drop, "hint::must_use": h_ident,
    "PartialEq::eq": cmpop("Eq"), "PartialEq::ne": cmpop("Ne"), "PartialOrd::lt": cmpop("Lt"),
    "PartialOrd::le": cmpop("Le"), "PartialOrd::gt": cmpop("Gt"), "PartialOrd::ge": cmpop("Ge"),
    "RangeInclusive::start": h_ri_bound(0), "RangeInclusive::end": h_ri_bound(1),
    "IntoIterator::into_iter": h_into_iter, "Iterator::next": h_next, "Iterator::by_ref": h_by_ref,
    "Iterator::map": adaptor("MapIt"), "Iterator::filter": adaptor("FilterIt"),
    "Iterator::filter_map": adaptor("FilterMapIt"), "Iterator::enumerate": adaptor("EnumIt"),
    "Iterator::take": adaptor("TakeIt"), "Iterator::skip": adaptor("SkipIt"),
    "Iterator::chain": adaptor("ChainIt"), "Iterator::rev": h_rev, "RangeInclusive::new": h_range_inc_new,
    "Vec::new": h_vec_new, "Vec::with_capacity": h_vec_new, "Vec::push": h_vec_push, "Vec::insert": h_vec_insert, "slice::reverse": h_vec_reverse, "Vec::len": h_vec_len,
    "Vec::is_empty": h_vec_is_empty,
    "Position::match_string": h_match("match"), "Position::match_insensitive": h_match("imatch"),
    "Position::skip": h_match("skip"), "Position::at_start": h_pos_pred("atstart"),
    "Position::at_end": h_pos_pred("atend"), "Position::span": h_span, "Span::as_str": h_as_str,
    "models::match_string": h_match("match"), "models::match_insensitive": h_match("imatch"),
    "models::skip": h_match("skip"), "models::at_start": h_pos_pred("atstart"),
    "models::at_end": h_pos_pred("atend"), "models::span": h_span, "models::as_str": h_as_str,
    "models::peek_char": h_peek_char, "models::advance_char": h_advance_char, "models::char_str": h_char_str,
    "char::encode_utf8": h_encode_utf8, "str::chars": h_chars,
    "Stack::snapshot": h_stack("snapshot"), "Stack::restore": h_stack("restore"),
    "Stack::clear_snapshot": h_stack("clear"), "Stack::push": h_push, "Stack::pop": h_pop,
    "Stack::peek": h_peek, "Stack::len": h_slen, "Stack::is_empty": h_is_empty, "Stack::new": h_stack_new,
    "models::snapshot": h_stack("snapshot"), "models::restore": h_stack("restore"),
    "models::clear": h_stack("clear"), "models::push": h_push, "models::pop": h_pop, "models::peek": h_peek,
    "models::slen": h_slen, "Index::index": h_index, "slice::iter": h_slice_iter,
    "models::whole_rev": h_m_whole_rev, "models::slice_iter": h_m_slice_iter, "models::next_span": h_next,
    "Default::default": h_default,
    "Tracker::empty_stack": h_trk("e_empty", 1), "Tracker::out_of_bound": h_trk("e_oob", 3),
    "Tracker::repeat_too_many_times": h_trk("e_rep", 1), "Tracker::new": h_trk_new,
    "models::new_tracker": h_trk_new,
    "models::e_empty_stack": h_trk("e_empty", 1), "models::e_out_of_bound": h_trk("e_oob", 3),
    "models::begin_positive": h_trk("begin_positive", 0), "models::begin_negative": h_trk("begin_negative", 0),
    "models::end_polarity": h_trk("end_polarity", 0), "models::begin_rule": h_trk("begin_rule", 2),
    "models::end_rule": h_trk("end_rule", 1),
    "refs::prop": lambda ip, st, call: out(call, ip, st, ("call", "PROP", (), (ip.deep(st, call.args[0]),))),
    "models::pos_start": h_from_start, "models::new_stack": h_stack_new, "models::collect": h_collect,
    "Position::from_start": h_from_start, "Position::new": h_pos_new, "Tracker::collect": h_collect,
}

MODELS = {
    "Option::map": "opt_map", "Option::and_then": "opt_and_then", "Option::filter": "opt_filter",
    "Option::ok_or": "opt_ok_or", "Option::ok_or_else": "opt_ok_or_else", "Option::map_or": "opt_map_or",
    "Option::map_or_else": "opt_map_or_else", "Option::is_some": "opt_is_some", "Option::is_none": "opt_is_none",
    "Option::is_some_and": "opt_is_some_and", "Option::is_none_or": "opt_is_none_or",
    "Option::unwrap": "opt_unwrap", "Option::expect": "opt_expect", "Option::unwrap_or": "opt_unwrap_or",
    "Option::unwrap_or_else": "opt_unwrap_or_else", "Option::or": "opt_or", "Option::or_else": "opt_or_else",
    "Option::and": "opt_and", "Option::as_ref": "opt_as_ref", "Option::as_mut": "opt_as_mut",
    "Option::copied": "opt_copied", "Option::cloned": "opt_copied", "Option::inspect": "opt_inspect",
    "Option::zip": "opt_zip", "Option::flatten": "opt_flatten",
    "Result::map": "res_map", "Result::map_err": "res_map_err", "Result::and_then": "res_and_then",
    "Result::is_ok": "res_is_ok", "Result::is_err": "res_is_err", "Result::ok": "res_ok", "Result::err": "res_err",
    "Result::unwrap": "res_unwrap", "Result::expect": "res_expect", "Result::unwrap_or_else": "res_unwrap_or_else",
    "Result::unwrap_or": "res_unwrap_or", "Result::map_or": "res_map_or", "Result::as_ref": "res_as_ref",
    "bool::then": "bool_then", "bool::then_some": "bool_then_some",
    "Iterator::all": "it_all", "Iterator::any": "it_any", "Iterator::find": "it_find",
    "Iterator::for_each": "it_for_each", "Iterator::fold": "it_fold", "Iterator::try_fold": "it_try_fold_opt",
    "Position::next_char": "p_next_char", "Position::match_char": "p_match_char",
    "Position::match_char_by": "p_match_char_by", "Position::match_range": "p_match_range",
    "Tracker::positive_during": "t_positive", "Tracker::negative_during": "t_negative",
    "Tracker::record_option_during": "t_record_opt", "Tracker::record_empty_during": "t_record_opt",
    "Tracker::record_option_during_with": "t_record_opt",
    "RangeInclusive::contains": "ri_contains", "Range::contains": "r_contains",
}
