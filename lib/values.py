"""Value-level analysis: a loop-free (or concretely bounded) function is summarised as
the set of its guarded paths over canonical terms, and compared path by path with a
reference.  Strings are terms with substrings named by byte offsets; idioms that mean
the same (`bytes.get(a..b) == Some(s)`, `starts_with`, `strip_prefix`) have one term."""
from interp import *
import vocab
from vocab import out, guard, h_branch, h_from_residual

ORDERING = "core::cmp::Ordering"
POSITION = "pest3_core::position::Position"
SPAN = "pest3_core::span::Span"
STRT = ("prim", "str")


def LIST(xs):
    return ("agg", "list", 0, tuple(xs))


def is_list(v):
    return v[0] == "agg" and v[1] in ("list", "array")


def TUP(*xs):
    return ("agg", "tuple", 0, tuple(xs))


ORD = {k: ("agg", ORDERING, i, ()) for i, k in enumerate(("lt", "eq", "gt"))}


BOOLS = ("not", "eq", "eq0", "gt0", "lt", "starts", "ieq", "isbnd", "ptreq")


class Path:
    __slots__ = ("guards", "effects", "out", "finals")

    def __init__(self, guards, effects, out, finals):
        self.guards, self.effects, self.out, self.finals = guards, effects, out, finals

    def __repr__(self):
        return "[%s] %s -> %s | %s" % (
            " & ".join(("" if v is True else "!" if v is False else str(v) + "=") + show(c) for c, v in self.guards),
            "; ".join(show(e) for e in self.effects), show(self.out), show(self.finals))


def show(t):
    if not isinstance(t, tuple):
        return str(t)
    if not t:
        return "()"
    k = t[0]
    if k == "int" or k == "bool" or k == "s":
        return str(t[1])
    if k == "str":
        return repr(t[1])
    if k == "char":
        return repr(t[1])
    if k == "sum":
        r = " + ".join((str(c) + "*" if c != 1 else "") + show(x) for x, c in t[1])
        return "(" + r + (" + %d" % t[2] if t[2] else "") + ")"
    if k == "agg":
        n = t[1].split("::")[-1] if isinstance(t[1], str) else str(t[1])
        return "%s#%s(%s)" % (n, t[2], ", ".join(show(x) for x in t[3]))
    if k == "not":
        return "!" + show(t[1])
    if k == "sub":
        return "%s[%s..%s]" % (show(t[1]), show(t[2]), show(t[3]))
    if isinstance(k, str):
        return "%s(%s)" % (k, ", ".join(show(x) for x in t[1:]))
    return "(" + ", ".join(show(x) for x in t) + ")"


class ValInterp(Interp):
    """hooks: the value vocabulary"""

    def __init__(self, prog, hooks=None, models=None, **kw):
        h = dict(VH)
        if hooks:
            h.update(hooks)
        m = dict(VMODELS)
        if models:
            m.update(models)
        kw.setdefault("termcap", 20000)
        super().__init__(prog, h, m, **kw)
        self.constructed = []
        self.maxpaths = 4000
        self.maxwork = 20000
        self.maxguards = 400

    def discr(self, st, v):
        if v[0] == "agg" and v[1] == ORDERING:
            return ("int", v[2] - 1)
        return super().discr(st, v)

    def project(self, st, v, proj):
        # indexing of concrete lists
        for i, e in enumerate(proj):
            if e[0] in ("i", "ci"):
                w = super().project(st, v, proj[:i])
                n = e[1]
                if isinstance(n, tuple):
                    n = n[1] if n[0] == "int" else None
                if is_list(w) and n is not None:
                    if e[0] == "ci" and e[2]:
                        n = len(w[3]) - n
                    if 0 <= n < len(w[3]):
                        return self.project(st, w[3][n], proj[i + 1:])
                return super().project(st, v, proj)
            if e[0] == "ss":
                w = super().project(st, v, proj[:i])
                if is_list(w):
                    a, b = e[1], e[2]
                    xs = w[3][a:len(w[3]) - b] if e[3] else w[3][a:b]
                    return self.project(st, LIST(xs), proj[i + 1:])
        return super().project(st, v, proj)

    def on_unchecked(self, st, call, v):
        pass

    def paths(self, st0):
        """all guarded paths"""
        res = []
        work = [(st0, (), ())]
        n = 0
        end = Clock.begin()
        while work:
            Clock.check(end)
            st, gs, es = work.pop(0)
            n += 1
            if n > self.maxwork or len(gs) > self.maxguards:
                raise Budget("loop without a bound")
            for labels, s2 in self.run(st):
                g, e, ret = gs, es, None
                for l in labels:
                    if l[0] == "if":
                        g = g + ((l[1], l[2]),)
                    elif l[0] == "ret":
                        ret = l
                    else:
                        e = e + (l,)
                if s2 is None:
                    if ret is None:
                        res.append(Path(g, e, ("panic",), ()))
                    else:
                        res.append(Path(g, e, ret[1], ret[2]))
                    if len(res) > self.maxpaths:
                        raise Budget("too many paths")
                elif consistent(g):
                    work.append((s2, g, e))
        res = [q for p in res for q in self.split_bool(p)]
        return [p for p in res if consistent(p.guards)]

    def split_bool(self, p):
        """a returned condition is a decision like any other"""
        o = p.out
        if o[0] not in BOOLS:
            return [p]
        v = True
        if o[0] == "not":
            v, o = False, o[1]
        return [Path(p.guards + ((o, b),), p.effects, ("bool", b == v), p.finals) for b in (True, False)]

    watch = ()

    def emit_ret(self, st, v):
        return ("ret", canon(self.deep(st, v)), tuple(canon(self.deep(st, st.cells[c])) for c in self.watch))


def canon(v):
    """names of structs do not matter, nor do zero sized markers"""
    if not isinstance(v, tuple) or not v:
        return v
    if v[0] == "agg":
        fs = tuple(canon(x) for x in v[3] if not (x[0] == "agg" and isinstance(x[1], str) and x[1].endswith("PhantomData")))
        if v[1] in ("Option", "Result", "ControlFlow", "tuple", "list"):
            return ("agg", v[1], v[2], fs)
        return ("agg", "_", v[2], fs)
    return tuple(canon(x) if isinstance(x, tuple) else x for x in v)


# ------------------------------------------------------------------ consistency of guards
def consistent(gs, memo={}):
    r = memo.get(gs)
    if r is None:
        r = memo[gs] = _consistent(gs)
    return r


def nonneg(t):
    return t[0] in ("len", "P", "clen", "n", "lo")


def rename(t, a, b):
    if t == a:
        return b
    return tuple(rename(x, a, b) if isinstance(x, tuple) else x for x in t)


def has_addr(t):
    return isinstance(t, tuple) and (bool(t) and t[0] == "addr" or any(has_addr(x) for x in t))


def _consistent(gs):
    if has_addr(gs):
        # the same input lies at the same address
        for c, v in gs:
            if c[0] == "ptreq" and v is True and c[1] != c[2]:
                gs = tuple((rename(x, ("addr", c[2]), ("addr", c[1])) if x != c else x, w) for x, w in gs)
    val = {}
    cons = {}      # linear form -> [lo, hi, excluded]
    vs = {}
    solved = []    # equalities, solved for one of their terms
    false = []

    def reduce(l):
        d, c = dict(l[0]), l[1]
        for t, e, k in solved:
            x = d.pop(t, 0)
            if x:
                c += x * k
                for u, y in e.items():
                    d[u] = d.get(u, 0) + x * y
        return {t: x for t, x in d.items() if x}, c

    for c, v in gs:
        if v is True and c[0] in ("eq", "eq0"):
            l = lin(c[1] if c[0] == "eq0" else add(c[1], c[2], -1)) if c[0] == "eq0" or add(c[1], c[2], -1)[0] != "bin" else None
            if l is None:
                continue
            d, k = reduce(l)
            for t in sorted(d, key=repr):
                if d[t] in (1, -1):
                    s = -d.pop(t)
                    solved.append((t, {u: s * x for u, x in d.items()}, s * k))
                    break

    def bound(d, lo=None, hi=None, ex=None):
        l = lin(d)
        if l is None:
            return
        r = reduce(l)
        if not r[0]:
            if lo is not None and r[1] < lo or hi is not None and r[1] > hi or ex is not None and r[1] == ex:
                false.append(d)
        elif r != l:
            bound1(r, lo, hi, ex)
        bound1(l, lo, hi, ex)

    def bound1(l, lo, hi, ex):
        items = tuple(sorted(l[0].items(), key=repr))
        c = l[1]
        if not items:
            return
        if items[0][1] < 0:
            items = tuple((k, -x) for k, x in items)
            lo, hi = (None if hi is None else -hi), (None if lo is None else -lo)
            ex = None if ex is None else -ex
            c = -c
        e = cons.setdefault(items, [None, None, set()])
        if lo is not None:
            lo -= c
            e[0] = lo if e[0] is None else max(e[0], lo)
        if hi is not None:
            hi -= c
            e[1] = hi if e[1] is None else min(e[1], hi)
        if ex is not None:
            e[2].add(ex - c)

    def fits(x, n):
        # the string n is a prefix (up to case) of substring x
        if x[0] == "sub":
            bound(add(add(x[3], x[2], -1), n, -1), lo=0)
    for c, v in gs:
        if c[0] == "not" and isinstance(v, bool):
            c, v = c[1], not v
        if isinstance(v, bool):
            if val.setdefault(c, v) != v:
                return False
            if c[0] == "gt0":
                if v:
                    bound(c[1], lo=1)
                else:
                    bound(c[1], hi=0)
            elif c[0] in ("eq0", "eq"):
                d = c[1] if c[0] == "eq0" else add(c[1], c[2], -1)
                if d[0] != "bin":
                    if v:
                        bound(d, lo=0, hi=0)
                    else:
                        bound(d, ex=0)
            elif c[0] in ("starts", "ieq") and v:
                fits(c[1], strlen(c[2]))
        else:
            p = vs.get(c)
            if isinstance(v, int):
                if isinstance(p, int) and p != v:
                    return False
                if isinstance(p, tuple) and v in p:
                    return False
                vs[c] = v
            else:
                ex = set(v[1:])
                if isinstance(p, int):
                    if p in ex:
                        return False
                else:
                    vs[c] = tuple(sorted(set(p or ()) | ex))
    for c, v in val.items():
        # an insensitive match of s at [lo..hi] means hi is a boundary
        if c[0] == "ieq" and v and c[1][0] == "sub":
            if val.get(("isbnd", c[1][1], c[1][2], c[1][3])) is False:
                return False
        if c[0] == "starts" and v:
            x = c[1] if c[1][0] == "sub" else ("sub", c[1], ("int", 0), strlen(c[1]))
            if val.get(("isbnd", x[1], x[2], add(x[2], strlen(c[2])))) is False:
                return False
        if c[0] == "isbnd" and v:
            bound(add(("len", c[1]), c[3], -1), lo=0)
    if false:
        return False
    for items, (lo, hi, ex) in list(cons.items()):
        # lengths and offsets are not negative; a position never lies behind its input
        if all(x > 0 and nonneg(k) for k, x in items):
            m = sum(x for k, x in items if k[0] == "clen")
            lo = m if lo is None else max(lo, m)
        if len(items) == 2 and {k[0] for k, x in items} == {"len", "P"}:
            s = {k[0]: x for k, x in items}
            if s["len"] == 1 and s["P"] == -1:
                lo = 0 if lo is None else max(lo, 0)
            if s["len"] == -1 and s["P"] == 1:
                hi = 0 if hi is None else min(hi, 0)
        if lo is not None and hi is not None:
            n = lo
            if hi - lo > 64:
                continue
            while n in ex:
                n += 1
            if n > hi:
                return False
    return True


def strlen(s):
    if s[0] == "str":
        return ("int", len(s[1].encode()))
    if s[0] == "sub":
        return add(s[3], s[2], -1)
    if s[0] == "cstr":
        return ("clen", s[1])
    return ("len", s)


def clen(c):
    if c[0] == "char":
        return ("int", len(c[1].encode()))
    return ("clen", c)


# ------------------------------------------------------------------ comparison
def foreign(x, known=frozenset()):
    if isinstance(x, tuple):
        if x and isinstance(x[0], str):
            if x[0] in ("call", "top", "undef", "mutby", "rv", "upd", "mem", "promoted", "idx", "deref"):
                if x[0] in ("call", "mutby") and x[1] in known:
                    return any(foreign(y, known) for y in x[2:])
                return True
        return any(foreign(y, known) for y in x)
    return False


def symbols(x, acc):
    if isinstance(x, tuple):
        if x and x[0] in ("call", "mutby") and len(x) > 1:
            acc.add(x[1])
        for y in x:
            symbols(y, acc)


def path_terms(p):
    return (p.guards, p.effects, p.out, p.finals)


def diff_paths(A, B, skip_panics=True, key=lambda p: (p.effects, p.out, p.finals)):
    """None, ('undecided', why) or ('diff', pathA, pathB)"""
    acc = set()
    for p in B:
        symbols(path_terms(p), acc)
    und = None
    for a in A:
        for b in B:
            if skip_panics and (a.out == ("panic",) or b.out == ("panic",)):
                if a.out == b.out:
                    continue
            if key(a) == key(b):
                continue
            if not consistent(tuple(sorted(set(a.guards + b.guards), key=repr))):
                continue
            if foreign(path_terms(a), acc) or foreign(path_terms(b), acc):
                und = und or ("undecided", "term outside of the vocabulary: %r" % (a,))
                continue
            return ("diff", a, b)
    return und


# ------------------------------------------------------------------ hooks
def sv(ip, st, v):
    return ip.val(st, v)


def bounds_of(ip, st, r):
    """range value -> (lo, hi or None) or None"""
    r = ip.val(st, r)
    if r[0] != "agg":
        return None
    n = r[1]
    f = [ip.val(st, x) for x in r[3]]
    n = n.split("::")[-1]
    if n == "Range":
        return f[0], f[1]
    if n == "RangeFrom":
        return f[0], None
    if n == "RangeTo":
        return ("int", 0), f[0]
    if n == "RangeFull":
        return ("int", 0), None
    if n == "RangeInc" or n == "RangeInclusive":
        return f[0], add(f[1], ("int", 1))
    if n == "RangeToInclusive":
        return ("int", 0), add(f[0], ("int", 1))
    return None


def substr(s, lo, hi):
    if s[0] == "sub":
        return substr(s[1], add(s[2], lo), s[3] if hi is None else add(s[2], hi))
    if hi is None:
        hi = strlen(s)
    if lo == ("int", 0) and hi == strlen(s):
        return s
    if s[0] == "str" and lo[0] == "int" and hi[0] == "int":
        return ("str", s[1].encode()[lo[1]:hi[1]].decode("utf8", "replace"))
    return ("sub", s, lo, hi)


def is_str(v):
    return v[0] in ("s", "str", "sub", "cstr", "cat")


def h_str_len(ip, st, call):
    s = sv(ip, st, call.args[0])
    if is_str(s):
        return out(call, ip, st, strlen(s))
    if s[0] == "bytes":
        return out(call, ip, st, strlen(s[1]))
    return NotImplemented


def h_is_empty(ip, st, call):
    s = sv(ip, st, call.args[0])
    if is_list(s):
        return out(call, ip, st, ("bool", not s[3]))
    if s[0] == "bytes":
        s = s[1]
    if is_str(s):
        return out(call, ip, st, EQ(strlen(s), ("int", 0)))
    return NotImplemented


def h_index(ip, st, call):
    s = sv(ip, st, call.args[0])
    if is_list(s):
        i = sv(ip, st, call.args[1])
        if i[0] == "int":
            r = vocab.ref_of(ip, st, call.args[0])
            if 0 <= i[1] < len(s[3]):
                if r:
                    return out(call, ip, st, ("ref", r[1], r[2] + (("f", i[1]),), r[3]))
                return out(call, ip, st, s[3][i[1]])
            return [((("panic",),), None)]
        b = bounds_of(ip, st, call.args[1])
        if b and b[0][0] == "int" and (b[1] is None or b[1][0] == "int"):
            n = len(s[3])
            hi = n if b[1] is None else b[1][1]
            if b[0][1] > hi or hi > n:
                return [((("panic",),), None)]
            return out(call, ip, st, LIST(s[3][b[0][1]:hi]))
        return NotImplemented
    if s[0] == "bytes":
        b = bounds_of(ip, st, call.args[1])
        if b:
            return out(call, ip, st, ("bytes", substr(s[1], *b)))
        return NotImplemented
    if not is_str(s):
        return NotImplemented
    b = bounds_of(ip, st, call.args[1])
    if b is None:
        return NotImplemented
    r = substr(s, b[0], b[1])
    if r[0] != "sub":
        return out(call, ip, st, r)
    base, lo, hi = r[1], r[2], r[3]
    if boundary(st.facts, base, lo) and boundary(st.facts, base, hi):
        todo = [((), st, True)]
    else:
        todo = guard(ip, st, ("isbnd", base, lo, hi))
    res = []
    for labs, s2, ok in todo:
        if not ok:
            res.append((tuple(labs) + (("panic",),), None))
            continue
        s2.facts[("bnd", base, lo)] = True
        s2.facts[("bnd", base, hi)] = True
        res.append((labs, ip.finish(s2, call.dest, call.target, r)))
    return res


def boundary(facts, s, off, d=0):
    """is byte offset `off` of `s` certainly a character boundary inside s?"""
    if off == ("int", 0) or off == ("len", s) or off == strlen(s):
        return True
    if off[0] == "P" and off[1] == s:
        return True
    if facts.get(("bnd", s, off)):
        return True
    if d > 4:
        return False
    for c, v in facts.items():
        if v is not True:
            continue
        if c[0] == "isbnd" and c[1] == s and off in (c[2], c[3]):
            return True
        if c[0] in ("starts", "ieq") and c[1][0] == "sub" and c[1][1] == s:
            lo = c[1][2]
            if off == add(lo, strlen(c[2])) and boundary(facts, s, lo, d + 1):
                return True
        if c[0] in ("starts", "ieq") and c[1] == s and off == strlen(c[2]):
            return True
        # two spans or positions of the same input
        if c[0] == "ptreq" and s in c[1:]:
            o = c[1] if c[2] == s else c[2]
            if off[0] == "P" and off[1] == o:
                return True
    return False


def h_str_get(ip, st, call):
    s = sv(ip, st, call.args[0])
    b = bounds_of(ip, st, call.args[1])
    if not is_str(s) or b is None:
        return NotImplemented
    r = substr(s, b[0], b[1])
    if r[0] != "sub":
        return out(call, ip, st, SOME(r))
    base, lo, hi = r[1], r[2], r[3]
    # a suffix from the position of a Position always exists
    if lo[0] == "P" and lo[1] == base and hi == ("len", base):
        return out(call, ip, st, SOME(r))
    res = []
    if s[0] == "sub" and b[1] is not None and s[3] != ("len", base):
        # the part must also end within the string it is taken from
        todo = []
        for labs, s2, v in guard(ip, st, LT(s[3], hi)):
            if v:
                res.append((labs, ip.finish(s2, call.dest, call.target, NONE)))
            else:
                todo += [(labs + l, s3, w) for l, s3, w in guard(ip, s2, ("isbnd", base, lo, hi))]
    else:
        todo = guard(ip, st, ("isbnd", base, lo, hi))
    for labs, s2, v in todo:
        if v:
            s2.facts[("bnd", base, lo)] = True
            s2.facts[("bnd", base, hi)] = True
        res.append((labs, ip.finish(s2, call.dest, call.target, SOME(r) if v else NONE)))
    return res


def h_checked(op):
    def h(ip, st, call):
        x, y = sv(ip, st, call.args[0]), sv(ip, st, call.args[1])
        res = []
        c = ("ovf", op, x, y)
        if op == "Add" and y == ("int", 1):
            c = EQ(x, ("int", (1 << 64) - 1))
        if op == "Sub":
            c = LT(x, y)
        for labs, s2, v in guard(ip, st, c):
            r = NONE if v else SOME(add(x, y, 1 if op == "Add" else -1))
            res.append((labs, ip.finish(s2, call.dest, call.target, r)))
        return res
    return h


def h_rb(i):
    def h(ip, st, call):
        r = sv(ip, st, call.args[0])
        return out(call, ip, st, r[1 + i]) if r[0] == "rb" else NotImplemented
    return h


def h_as_bytes(ip, st, call):
    s = sv(ip, st, call.args[0])
    if is_str(s):
        return out(call, ip, st, ("bytes", s))
    return NotImplemented


def h_as_ptr(ip, st, call):
    s = sv(ip, st, call.args[0])
    if s[0] == "bytes":
        s = s[1]
    if s[0] == "sub":
        return out(call, ip, st, add(("addr", s[1]), s[2]))
    if s[0] == "s":
        return out(call, ip, st, ("addr", s))
    return NotImplemented


def h_slice_get(ip, st, call):
    s = sv(ip, st, call.args[0])
    if s[0] == "bytes":
        b = bounds_of(ip, st, call.args[1])
        if b is None:
            return NotImplemented
        return out(call, ip, st, ("optbytes", substr(s[1], *b)))
    if is_list(s):
        i = sv(ip, st, call.args[1])
        if i[0] == "int":
            return out(call, ip, st, SOME(s[3][i[1]]) if 0 <= i[1] < len(s[3]) else NONE)
    return NotImplemented


def starts(x, s):
    """does x begin with s"""
    if x[0] == "str" and s[0] == "str":
        return ("bool", x[1].startswith(s[1]))
    if s == ("str", ""):
        return ("bool", True)
    if x[0] == "sub":
        return ("starts", ("sub", x[1], x[2], strlen(x[1])), s)
    return ("starts", x, s)


def prefix_eq(x, s):
    """x == s for a substring x exactly as long as s"""
    if x[0] == "sub" and add(x[3], x[2], -1) == strlen(s):
        return starts(x, s)
    return None


def bytes_eq(x, y):
    for a, b in ((x, y), (y, x)):
        r = prefix_eq(a, b)
        if r is not None:
            return r
    return EQ(x, y)


def h_eq(neg):
    def h(ip, st, call):
        x, y = sv(ip, st, call.args[0]), sv(ip, st, call.args[1])
        c = value_eq(ip, st, x, y, call)
        if c is None:
            return NotImplemented
        if c[0] == "and":
            # decide one after the other
            res, todo = [], [((), st)]
            for q in conjuncts(c):
                nxt = []
                for labs, s1 in todo:
                    for l2, s2, v in guard(ip, s1, q):
                        if v:
                            nxt.append((tuple(labs) + tuple(l2), s2))
                        else:
                            res.append((tuple(labs) + tuple(l2), ip.finish(s2, call.dest, call.target, ("bool", neg))))
                todo = nxt
            return [(labs, ip.finish(s1, call.dest, call.target, ("bool", not neg))) for labs, s1 in todo] + res
        return out(call, ip, st, NOT(c) if neg else c)
    return h


def conjuncts(c):
    return [q for x in c[1:] for q in conjuncts(x)] if c[0] == "and" else [c]


def value_eq(ip, st, x, y, call=None):
    for a, b in ((x, y), (y, x)):
        if b[0] == "optbytes":
            if a[0] == "agg" and a[1] == "Option":
                if a[2] == 0:
                    return None
                s = ip.val(st, a[3][0])
                if s[0] == "bytes":
                    return bytes_eq(b[1], s[1])
            return None
    if x[0] == "bytes" and y[0] == "bytes":
        return bytes_eq(x[1], y[1])
    if is_str(x) and is_str(y):
        return bytes_eq(x, y)
    if x[0] == "agg" and y[0] == "agg" and x[1] == y[1] == "Option":
        if x[2] != y[2]:
            return ("bool", False)
        if x[2] == 0:
            return ("bool", True)
        return value_eq(ip, st, ip.val(st, x[3][0]), ip.val(st, y[3][0]))
    if x[0] == "agg" and y[0] == "agg" and x[1] == y[1] == ORDERING:
        return ("bool", x[2] == y[2])
    if call is not None and (x[0] == "agg" or y[0] == "agg"):
        f, s = ip.resolve_trait(call)
        if f is not None and not f.get("derived"):
            return None
    if x[0] == "agg" and y[0] == "agg" and x[1] == y[1] and not x[3] and not y[3]:
        return ("bool", x[2] == y[2])
    if is_list(x) and is_list(y):
        return None if len(x[3]) == len(y[3]) and x != y else ("bool", x == y)
    if x[0] == "agg" and y[0] == "agg" and x[1] == y[1] and x[2] == y[2] and len(x[3]) == len(y[3]) > 1:
        cs = [value_eq(ip, st, ip.val(st, a), ip.val(st, b)) for a, b in zip(x[3], y[3])]
        if any(c is None for c in cs):
            return None
        if any(c == ("bool", False) for c in cs):
            return ("bool", False)
        cs = [c for c in cs if c != ("bool", True)]
        if not cs:
            return ("bool", True)
        if len(cs) == 1:
            return cs[0]
        return ("and",) + tuple(cs)
    return EQ(ip.deep(st, x), ip.deep(st, y))


def h_starts_with(ip, st, call):
    s, p = sv(ip, st, call.args[0]), sv(ip, st, call.args[1])
    if s[0] == "bytes" and p[0] == "bytes":
        s, p = s[1], p[1]
    if is_str(s) and is_str(p):
        return out(call, ip, st, starts(s, p))
    if is_str(s) and p[0] in ("c", "char", "chr"):
        return out(call, ip, st, starts(s, ("cstr", p) if p[0] != "char" else ("str", p[1])))
    return NotImplemented


def h_strip_prefix(ip, st, call):
    s, p = sv(ip, st, call.args[0]), sv(ip, st, call.args[1])
    if s[0] == "bytes":
        return NotImplemented
    if not (is_str(s) and is_str(p)):
        return NotImplemented
    res = []
    for labs, s2, v in guard(ip, st, starts(s, p)):
        r = SOME(substr(s, strlen(p), None)) if v else NONE
        res.append((labs, ip.finish(s2, call.dest, call.target, r)))
    return res


def h_ieq(ip, st, call):
    x, y = sv(ip, st, call.args[0]), sv(ip, st, call.args[1])
    if x[0] == "bytes" and y[0] == "bytes":
        x, y = x[1], y[1]
    if is_str(x) and is_str(y):
        if y[0] == "sub" and x[0] != "sub":
            x, y = y, x
        return out(call, ip, st, ("ieq", x, y))
    return NotImplemented


def h_chars(ip, st, call):
    s = sv(ip, st, call.args[0])
    if is_str(s):
        return out(call, ip, st, ("chars", s))
    return NotImplemented


def h_char_indices(ip, st, call):
    s = sv(ip, st, call.args[0])
    if is_str(s):
        return out(call, ip, st, ("charidx", s, ("int", 0)))
    return NotImplemented


def next_char(ip, st, s):
    """yields (labels, state, char or None, rest)"""
    if s[0] == "str":
        if s[1]:
            return [((), st, ("char", s[1][0]), ("str", s[1][1:]))]
        return [((), st, None, s)]
    base, lo, hi = (s[1], s[2], s[3]) if s[0] == "sub" else (s, ("int", 0), strlen(s))
    c = ("chr", base, lo)
    res = []
    for labs, s2, v in guard(ip, st, EQ(lo, hi)):
        if v:
            res.append((labs, s2, None, s))
        else:
            n = add(lo, clen(c))
            s2.facts[("bnd", base, n)] = True
            res.append((labs, s2, c, ("sub", base, n, hi)))
    return res


def prev_char(ip, st, call, r, s, kind="rchars"):
    if s[0] == "str":
        return NotImplemented
    base, lo, hi = (s[1], s[2], s[3]) if s[0] == "sub" else (s, ("int", 0), strlen(s))
    c = ("rchr", base, hi)
    res = []
    for labs, s2, v in guard(ip, st, EQ(lo, hi)):
        if v:
            res.append((labs, ip.finish(s2, call.dest, call.target, NONE)))
        else:
            n = add(hi, clen(c), -1)
            s2.facts[("bnd", base, n)] = True
            ip.store(s2, r[1], r[2], (kind, ("sub", base, lo, n)))
            res.append((labs, ip.finish(s2, call.dest, call.target, SOME(c))))
    return res


def h_next(ip, st, call):
    r = vocab.ref_of(ip, st, call.args[0])
    if r is None:
        return NotImplemented
    v = ip.load(st, r[1], r[2])
    if v[0] == "agg" and v[1] in vocab.ITER_MODELS:
        c = Call(call.id, call.path, (), [r], call.dest, call.target, None, call.loc, call.caller)
        return ip.call_model(st, vocab.ITER_MODELS[v[1]], c)
    if v[0] == "chars":
        res = []
        for labs, s2, c, rest in next_char(ip, st, v[1]):
            ip.store(s2, r[1], r[2], ("chars", rest))
            res.append((labs, ip.finish(s2, call.dest, call.target, NONE if c is None else SOME(c))))
        return res
    if v[0] == "rchars":
        return prev_char(ip, st, call, r, v[1])
    if v[0] == "charidx":
        res = []
        for labs, s2, c, rest in next_char(ip, st, v[1]):
            off = v[2]
            if c is None:
                o = NONE
            else:
                o = SOME(TUP(off, c))
                ip.store(s2, r[1], r[2], ("charidx", rest, add(off, clen(c))))
            res.append((labs, ip.finish(s2, call.dest, call.target, o)))
        return res
    if v[0] == "liter":
        xs = v[1]
        if not xs:
            return out(call, ip, st, NONE)
        ip.store(st, r[1], r[2], ("liter", xs[1:]))
        return out(call, ip, st, SOME(xs[0]))
    return NotImplemented


def h_next_back(ip, st, call):
    r = vocab.ref_of(ip, st, call.args[0])
    if r is None:
        return NotImplemented
    v = ip.load(st, r[1], r[2])
    if v[0] == "chars":
        return prev_char(ip, st, call, r, v[1], "chars")
    if v[0] == "liter":
        xs = v[1]
        if not xs:
            return out(call, ip, st, NONE)
        ip.store(st, r[1], r[2], ("liter", xs[:-1]))
        return out(call, ip, st, SOME(xs[-1]))
    return NotImplemented


def iter_items(ip, st, a):
    """elements of an iterable value"""
    v = ip.val(st, a)
    if v[0] == "liter":
        return v[1]
    if is_list(v):
        r = vocab.ref_of(ip, st, a)
        if r is not None:
            return tuple(("ref", r[1], r[2] + (("f", i),), r[3]) for i in range(len(v[3])))
        return v[3]
    return None


def h_into_iter(ip, st, call):
    v = sv(ip, st, call.args[0])
    if v[0] in ("liter", "chars", "rchars", "charidx") or (v[0] == "agg" and v[1] in vocab.ITER_MODELS):
        return out(call, ip, st, call.args[0] if call.args[0][0] == "ref" else v)
    if v[0] == "agg" and v[1] == "Option" and v[2] in (0, 1):
        return out(call, ip, st, ("liter", v[3]))
    xs = iter_items(ip, st, call.args[0])
    if xs is not None:
        return out(call, ip, st, ("liter", xs))
    return NotImplemented


def h_rev(ip, st, call):
    v = sv(ip, st, call.args[0])
    if v[0] == "chars":
        return out(call, ip, st, ("rchars", v[1]))
    if v[0] == "liter":
        return out(call, ip, st, ("liter", v[1][::-1]))
    return vocab.h_rev(ip, st, call)


def h_vec_new(ip, st, call):
    return out(call, ip, st, LIST(()))


def opaque_seq(v):
    return v[0] in ("fld", "arg", "pushed", "mapval", "deflt")


def h_vec_push(ip, st, call):
    r = vocab.ref_of(ip, st, call.args[0])
    if r is None:
        return NotImplemented
    v = ip.load(st, r[1], r[2])
    x = call.args[1]
    if is_list(v):
        ip.store(st, r[1], r[2], LIST(v[3] + (x,)))
        return out(call, ip, st, UNIT)
    if opaque_seq(v):
        ip.store(st, r[1], r[2], ("pushed", v, ip.deep(st, x)))
        return out(call, ip, st, UNIT)
    return NotImplemented


def h_vec_pop(ip, st, call):
    r = vocab.ref_of(ip, st, call.args[0])
    if r is None:
        return NotImplemented
    v = ip.load(st, r[1], r[2])
    if is_list(v):
        if not v[3]:
            return out(call, ip, st, NONE)
        ip.store(st, r[1], r[2], LIST(v[3][:-1]))
        return out(call, ip, st, SOME(v[3][-1]))
    return NotImplemented


def h_vec_last(mut):
    def h(ip, st, call):
        r = vocab.ref_of(ip, st, call.args[0])
        v = ip.val(st, call.args[0])
        if is_list(v):
            if not v[3]:
                return out(call, ip, st, NONE)
            if r is None:
                return out(call, ip, st, SOME(v[3][-1]))
            return out(call, ip, st, SOME(("ref", r[1], r[2] + (("f", len(v[3]) - 1),), mut)))
        if opaque_seq(v) and not mut:
            if v[0] == "pushed":
                return out(call, ip, st, SOME(v[2]))
            if v[0] == "deflt":
                return out(call, ip, st, NONE)
            res = []
            for labs, s2, b in guard(ip, st, ("hasitems", ip.deep(st, v))):
                res.append((labs, ip.finish(s2, call.dest, call.target, SOME(("lastof", ip.deep(s2, v))) if b else NONE)))
            return res
        return NotImplemented
    return h


def h_vec_first(ip, st, call):
    r = vocab.ref_of(ip, st, call.args[0])
    v = ip.val(st, call.args[0])
    if is_list(v):
        if not v[3]:
            return out(call, ip, st, NONE)
        if r is None:
            return out(call, ip, st, SOME(v[3][0]))
        return out(call, ip, st, SOME(("ref", r[1], r[2] + (("f", 0),), False)))
    return NotImplemented


def h_vec_len(ip, st, call):
    v = sv(ip, st, call.args[0])
    if is_list(v):
        return out(call, ip, st, ("int", len(v[3])))
    if v[0] == "bytes":
        return out(call, ip, st, strlen(v[1]))
    return NotImplemented


def h_vec_clear(ip, st, call):
    r = vocab.ref_of(ip, st, call.args[0])
    v = ip.val(st, call.args[0])
    if is_list(v):
        ip.store(st, r[1], r[2], LIST(()))
        return out(call, ip, st, UNIT)
    return NotImplemented


def h_iter(ip, st, call):
    xs = iter_items(ip, st, call.args[0])
    if xs is not None:
        return out(call, ip, st, ("liter", xs))
    return NotImplemented


def h_len_utf8(ip, st, call):
    return out(call, ip, st, clen(sv(ip, st, call.args[0])))


def h_cmp(ip, st, call):
    x, y = sv(ip, st, call.args[0]), sv(ip, st, call.args[1])
    if x[0] == "agg" or y[0] == "agg" or is_str(x):
        return NotImplemented
    x, y = ip.ordv(x), ip.ordv(y)
    res = []
    for labs, s2, v in guard(ip, st, ip.simplify(st, LT(x, y))):
        if v:
            res.append((labs, ip.finish(s2, call.dest, call.target, ORD["lt"])))
        else:
            for l2, s3, w in guard(ip, s2, ip.simplify(s2, LT(y, x))):
                res.append((tuple(labs) + tuple(l2), ip.finish(s3, call.dest, call.target, ORD["gt" if w else "eq"])))
    return res


def h_rel(op):
    def h(ip, st, call):
        x, y = sv(ip, st, call.args[0]), sv(ip, st, call.args[1])
        if x[0] == "agg" or y[0] == "agg" or is_str(x):
            return NotImplemented
        return out(call, ip, st, ip.compare(st, op, x, y))
    return h


def h_ptr_eq(ip, st, call):
    x, y = sv(ip, st, call.args[0]), sv(ip, st, call.args[1])
    if x == y:
        return out(call, ip, st, ("bool", True))
    if repr(y) < repr(x):
        x, y = y, x
    if is_str(x) and is_str(y) and "sub" in (x[0], y[0]):
        # the same address and the same length
        ad = lambda s: add(("addr", s[1]), s[2]) if s[0] == "sub" else ("addr", s)
        if any(s[0] == "sub" and s[1][0] != "s" or s[0] not in ("s", "sub") for s in (x, y)):
            return NotImplemented
        res = []
        for labs, s2, w in guard(ip, st, EQ(strlen(x), strlen(y))):
            if not w:
                res.append((labs, ip.finish(s2, call.dest, call.target, ("bool", False))))
                continue
            for l2, s3, z in guard(ip, s2, EQ(ad(x), ad(y))):
                res.append((tuple(labs) + tuple(l2), ip.finish(s3, call.dest, call.target, ("bool", z))))
        return res
    return out(call, ip, st, ("ptreq", x, y))


def h_minmax(lo):
    def h(ip, st, call):
        x, y = sv(ip, st, call.args[0]), sv(ip, st, call.args[1])
        if x[0] == "agg":
            return NotImplemented
        res = []
        # min: first when equal; the values are the same then
        for labs, s2, v in guard(ip, st, ip.simplify(st, LT(x, y))):
            res.append((labs, ip.finish(s2, call.dest, call.target, (x if v else y) if lo else (y if v else x))))
        return res
    return h


def h_map_clear(ip, st, call):
    r = vocab.ref_of(ip, st, call.args[0])
    if r is None:
        return NotImplemented
    ip.store(st, r[1], r[2], ("agg", "map", 0, (("emptymap",),)))
    return out(call, ip, st, UNIT)


def h_map_new(ip, st, call):
    return out(call, ip, st, ("agg", "map", 0, (("emptymap",),)))


def h_map_entry(ip, st, call):
    r = vocab.ref_of(ip, st, call.args[0])
    if r is None:
        return NotImplemented
    return out(call, ip, st, ("mapentry", r, ip.deep(st, call.args[1])))


def h_or_default(ip, st, call):
    e = sv(ip, st, call.args[0])
    if e[0] != "mapentry":
        return NotImplemented
    r, k = e[1], e[2]
    m = ip.load(st, r[1], r[2])
    if m[0] != "agg" or m[1] != "map":
        return NotImplemented
    fs = m[3]
    for i in range(1, len(fs), 2):
        if fs[i] == k:
            return out(call, ip, st, ("ref", r[1], r[2] + (("f", i + 1),), True))
    if len(fs) > 1:
        return NotImplemented
    init = TUP(*[("deflt", ("mapget", fs[0], k), i) if fs[0] == ("emptymap",) else ("mapval", fs[0], k, i) for i in range(3)])
    if fs[0] == ("emptymap",):
        init = TUP(*[LIST(())] * 3)
    ip.store(st, r[1], r[2], ("agg", "map", 0, fs + (k, init)))
    return out(call, ip, st, ("ref", r[1], r[2] + (("f", len(fs) + 1),), True))


def h_opaque_opt(ip, st, call):
    return NotImplemented


def h_deref(ip, st, call):
    f, s = ip.resolve_trait(call)
    if f is not None:
        return NotImplemented
    return out(call, ip, st, call.args[0])


def h_ri_new(ip, st, call):
    return out(call, ip, st, ("agg", "models::RangeInc", 0, (call.args[0], call.args[1], ("bool", False))))


def h_ri_bound(i):
    def h(ip, st, call):
        v = sv(ip, st, call.args[0])
        if v[0] == "agg":
            return out(call, ip, st, v[3][i])
        return NotImplemented
    return h


def h_unchecked(adt):
    def h(ip, st, call):
        v = ("agg", adt, 0, tuple(ip.val(st, x) for x in call.args))
        ip.on_unchecked(st, call, v)
        return out(call, ip, st, v)
    return h


def h_is_boundary(ip, st, call):
    s, n = sv(ip, st, call.args[0]), sv(ip, st, call.args[1])
    if s[0] == "s" and boundary(st.facts, s, n):
        return out(call, ip, st, ("bool", True))
    if is_str(s):
        return out(call, ip, st, ("isbnd", s, n, strlen(s)))
    return NotImplemented


def h_collect(ip, st, call):
    t = call.targs[1] if len(call.targs) > 1 else None
    if t and t[0] == "adt" and t[1].split("::")[-1] in ("Vec", "VecDeque", "Box"):
        c = Call(call.id, call.path, call.targs[:1], call.args, call.dest, call.target, None, call.loc, call.caller)
        return ip.call_model(st, "it_collect_vec", c)
    return NotImplemented


def h_take(ip, st, call):
    r = call.args[0]
    if r[0] == "ref" and is_list(ip.load(st, r[1], r[2])):
        old = ip.load(st, r[1], r[2])
        ip.store(st, r[1], r[2], LIST(()))
        return out(call, ip, st, old)
    return vocab.h_take(ip, st, call)


VH = {k: v for k, v in vocab.HOOKS.items() if not k.startswith(("Position::", "Span::", "Stack::", "Tracker::", "models::"))}
VH.update({
    "mem::take": h_take,
    "usize::checked_add": h_checked("Add"), "usize::checked_sub": h_checked("Sub"),
    "RangeBounds::start_bound": h_rb(0), "RangeBounds::end_bound": h_rb(1),
    "str::len": h_str_len, "str::is_empty": h_is_empty, "String::len": h_str_len, "String::is_empty": h_is_empty,
    "Index::index": h_index, "str::get": h_str_get, "str::as_bytes": h_as_bytes, "slice::get": h_slice_get,
    "PartialEq::eq": h_eq(False), "PartialEq::ne": h_eq(True), "str::starts_with": h_starts_with,
    "slice::starts_with": h_starts_with, "str::strip_prefix": h_strip_prefix,
    "str::eq_ignore_ascii_case": h_ieq, "slice::eq_ignore_ascii_case": h_ieq, "str::chars": h_chars,
    "str::char_indices": h_char_indices, "Iterator::next": h_next, "DoubleEndedIterator::next_back": h_next_back,
    "IntoIterator::into_iter": h_into_iter, "Iterator::rev": h_rev,
    "Vec::new": h_vec_new, "Vec::with_capacity": h_vec_new, "Vec::push": h_vec_push, "Vec::pop": h_vec_pop,
    "Vec::len": h_vec_len, "slice::len": h_vec_len, "Vec::is_empty": h_is_empty, "slice::is_empty": h_is_empty,
    "slice::last": h_vec_last(False), "slice::last_mut": h_vec_last(True), "slice::first": h_vec_first,
    "Vec::clear": h_vec_clear, "slice::iter": h_iter, "char::len_utf8": h_len_utf8, "Ord::cmp": h_cmp,
    "PartialOrd::lt": h_rel("Lt"), "PartialOrd::le": h_rel("Le"), "PartialOrd::gt": h_rel("Gt"),
    "PartialOrd::ge": h_rel("Ge"), "ptr::eq": h_ptr_eq, "cmp::min": h_minmax(True), "cmp::max": h_minmax(False),
    "Ord::min": h_minmax(True), "Ord::max": h_minmax(False), "ptr::addr_eq": h_ptr_eq,
    "BTreeMap::clear": h_map_clear, "BTreeMap::new": h_map_new, "BTreeMap::entry": h_map_entry,
    "Entry::or_default": h_or_default, "Deref::deref": h_deref, "DerefMut::deref_mut": h_deref, "RangeInclusive::new": h_ri_new,
    "RangeInclusive::start": h_ri_bound(0), "RangeInclusive::end": h_ri_bound(1), "str::is_char_boundary": h_is_boundary, "str::as_ptr": h_as_ptr, "slice::as_ptr": h_as_ptr,
    "AsRef::as_ref": vocab.h_ident, "Borrow::borrow": vocab.h_ident,
    "Position::new_unchecked": h_unchecked(POSITION), "Span::new_unchecked": h_unchecked(SPAN),
    "slice::iter_mut": h_iter, "Iterator::collect": h_collect, "Vec::iter": h_iter, "String::as_str": vocab.h_ident, "Vec::as_slice": vocab.h_ident,
    "slice::into_vec": vocab.h_ident, "convert::identity": vocab.h_ident,
})
VMODELS = {k: v for k, v in vocab.MODELS.items() if not k.startswith(("Position::", "Tracker::"))}
VMODELS.update({
    "Vec::retain": "vec_retain", "Vec::dedup_by_key": "vec_dedup_by_key", "Vec::dedup_by": "vec_dedup_by",
    "Vec::dedup": "vec_dedup", "Extend::extend": "vec_extend", "Vec::append": "vec_append",
    "slice::reverse": "vec_reverse", "Vec::truncate": "vec_truncate",
    "RangeInclusive::contains": "ri_contains", "Range::contains": "r_contains"})
