"""Abstract interpreter over the dumped MIR.

It propagates abstract states along the control-flow graph to a fixpoint.  The
abstract domain is finite: constants, symbolic terms of bounded size, positions
named by their role (entry, newest, older ...), ghost-relative counters.  The
result for a function is a finite automaton whose letters are the *effects* of
the function (calls of sub-parsers, stack operations, guards, returned value).
Automata are compared for language equality, so the way the code is written
(helpers, closures, `?` or `match`, `for` or `while`) does not matter.
Nothing is executed and no path is handed to a solver.
"""
import time
import sys

sys.setrecursionlimit(20000)

UNIT = ("agg", "tuple", 0, ())
NONE = ("agg", "Option", 0, ())


def SOME(x):
    return ("agg", "Option", 1, (x,))


OPT = "core::option::Option"
RES = "core::result::Result"
CF = "core::ops::control_flow::ControlFlow"
SHORT = {OPT: "Option", RES: "Result", CF: "ControlFlow"}


class Unsupported(Exception):
    """The code left the modelled vocabulary."""


class Budget(Exception):
    pass


INTS = {("prim", "%s%s" % (a, b)) for a in "ui" for b in ("8", "16", "32", "64", "128", "size")}


class Clock:
    """one summary may take `each` seconds, all of a check `total`"""
    each, total = 60, 480
    start = time.monotonic()

    @staticmethod
    def begin():
        return min(time.monotonic() + Clock.each, Clock.start + Clock.total)

    @staticmethod
    def check(end):
        if time.monotonic() > end:
            raise Budget("time budget exceeded")


# ---------------------------------------------------------------- types
def T(j, memo={}):
    k = id(j)
    r = memo.get(k)
    if r is not None and r[0] is j:
        return r[1]
    v = _T(j)
    memo[k] = (j, v)
    return v


def _T(t):
    k = t["k"]
    if k == "prim":
        return ("prim", t["n"])
    if k == "adt":
        return ("adt", t["p"], tuple(T(x) for x in t["a"]))
    if k == "ref":
        return ("ref", t["m"], T(t["t"]))
    if k == "ptr":
        return ("ptr", T(t["t"]))
    if k == "slice":
        return ("slice", T(t["t"]))
    if k == "array":
        return ("array", T(t["t"]), T(t["n"]))
    if k == "tuple":
        return ("tuple", tuple(T(x) for x in t["a"]))
    if k in ("param", "cparam"):
        return ("param", t["n"])
    if k == "cval":
        return ("cval", t["t"], t["v"])
    if k in ("closure", "fndef", "proj"):
        return (k, t["p"], tuple(T(x) for x in t["a"]))
    return ("other", t.get("v", k))


def subst(t, s):
    if not s:
        return t
    k = t[0]
    if k == "param":
        return s.get(t[1], t)
    if k == "adt" or k in ("closure", "fndef", "proj"):
        return (k, t[1], tuple(subst(x, s) for x in t[2]))
    if k == "ref":
        return ("ref", t[1], subst(t[2], s))
    if k in ("ptr", "slice"):
        return (k, subst(t[1], s))
    if k == "array":
        return ("array", subst(t[1], s), subst(t[2], s))
    if k == "tuple":
        return ("tuple", tuple(subst(x, s) for x in t[1]))
    return t


def tyname(t):
    k = t[0]
    if k == "prim" or k == "param":
        return t[1]
    if k == "adt":
        n = t[1].split("::")[-1]
        return n + ("<" + ",".join(map(tyname, t[2])) + ">" if t[2] else "")
    if k == "ref":
        return "&" + ("mut " if t[1] else "") + tyname(t[2])
    if k == "tuple":
        return "(" + ",".join(map(tyname, t[1])) + ")"
    if k == "cval":
        return t[2]
    if k == "slice":
        return "[" + tyname(t[1]) + "]"
    if k in ("closure", "fndef", "proj"):
        return k + ":" + t[1] + ("<" + ",".join(map(tyname, t[2])) + ">" if t[2] else "")
    return str(t[1])


def unify(pat, t, s):
    """match an impl header type (pattern with params) against a concrete type"""
    if pat[0] == "param":
        if pat[1] in s:
            return s[pat[1]] == t
        s[pat[1]] = t
        return True
    if pat[0] != t[0]:
        return False
    k = pat[0]
    if k in ("adt", "closure", "fndef", "proj"):
        return pat[1] == t[1] and len(pat[2]) == len(t[2]) and all(
            unify(a, b, s) for a, b in zip(pat[2], t[2]))
    if k == "ref":
        return pat[1] == t[1] and unify(pat[2], t[2], s)
    if k in ("ptr", "slice"):
        return unify(pat[1], t[1], s)
    if k == "array":
        return unify(pat[1], t[1], s) and unify(pat[2], t[2], s)
    if k == "tuple":
        return len(pat[1]) == len(t[1]) and all(unify(a, b, s) for a, b in zip(pat[1], t[1]))
    return pat == t


# ---------------------------------------------------------------- linear terms
def lin(v):
    """value -> (dict term->coef, const) or None"""
    if v[0] == "int":
        return {}, v[1]
    if v[0] == "sum":
        return dict(v[1]), v[2]
    if v[0] in ("bool", "agg", "ref", "str", "clo"):
        return None
    return {v: 1}, 0


def unlin(d, c):
    d = {k: x for k, x in d.items() if x}
    if not d:
        return ("int", c)
    if c == 0 and len(d) == 1:
        (k, x), = d.items()
        if x == 1:
            return k
    return ("sum", tuple(sorted(d.items(), key=repr)), c)


def add(a, b, sgn=1):
    la, lb = lin(a), lin(b)
    if la is None or lb is None:
        return ("bin", "Add" if sgn > 0 else "Sub", a, b)
    d = dict(la[0])
    for k, x in lb[0].items():
        d[k] = d.get(k, 0) + sgn * x
    return unlin(d, la[1] + sgn * lb[1])


def NOT(c):
    if c[0] == "bool":
        return ("bool", not c[1])
    if c[0] == "not":
        return c[1]
    return ("not", c)


def LT(x, y):
    """x < y over the integers, canonical"""
    d = add(y, x, -1)
    if d[0] == "int":
        return ("bool", d[1] > 0)
    if d[0] == "bin":
        return ("lt", x, y)
    # d > 0 ; canonical orientation
    l = lin(d)
    first = sorted(l[0].items(), key=repr)[0]
    if first[1] < 0:
        # not (1-d > 0)
        e = add(("int", 1), d, -1)
        return ("not", ("gt0", e))
    return ("gt0", d)


def EQ(x, y):
    if x == y:
        return ("bool", True)
    if x[0] in ("int", "bool", "str", "char") and y[0] == x[0]:
        return ("bool", x[1] == y[1])
    if x[0] == "bool":
        return y if x[1] else NOT(y)
    if y[0] == "bool":
        return x if y[1] else NOT(x)
    if x[0] == "agg" and y[0] == "agg" and x[1] == y[1]:
        if x[2] != y[2]:
            return ("bool", False)
        if len(x[3]) == 1 and len(y[3]) == 1:
            return EQ(x[3][0], y[3][0])
        if len(x[3]) == 0:
            return ("bool", True)
    if x[0] in ("agg", "str") or y[0] in ("agg", "str"):
        if repr(y) < repr(x):
            x, y = y, x
        return ("eq", x, y)
    la, lb = lin(x), lin(y)
    if la is not None and lb is not None and (la[1] or lb[1] or len(la[0]) > 1 or len(lb[0]) > 1):
        d = add(x, y, -1)
        if d[0] == "int":
            return ("bool", d[1] == 0)
        l = lin(d)
        first = sorted(l[0].items(), key=repr)[0]
        if first[1] < 0:
            d = unlin({k: -v for k, v in l[0].items()}, -l[1])
        return ("eq0", d)
    if repr(y) < repr(x):
        x, y = y, x
    return ("eq", x, y)


def size(t):
    if not isinstance(t, tuple):
        return 1
    return 1 + sum(size(x) for x in t)


def rewrite(v, f):
    """bottom-up rewriting of a value"""
    if not isinstance(v, tuple):
        return v
    w = tuple(rewrite(x, f) if isinstance(x, tuple) else x for x in v)
    r = f(w)
    if r is w:
        return v if w == v else w
    return r


# ---------------------------------------------------------------- state
class State:
    __slots__ = ("frames", "cells", "facts", "G", "ghost")

    def copy(self):
        s = State()
        s.frames = list(self.frames)
        s.cells = dict(self.cells)
        s.facts = dict(self.facts)
        s.G = self.G
        s.ghost = dict(self.ghost)
        return s

    def key(self):
        return (tuple(self.frames), frozenset(self.cells.items()), frozenset(self.facts.items()),
                self.G, frozenset(self.ghost.items()))

    def map(self, f):
        self.cells = {k: rewrite(v, f) for k, v in self.cells.items()}
        self.facts = {rewrite(k, f): v for k, v in self.facts.items()}
        self.ghost = {k: rewrite(v, f) for k, v in self.ghost.items()}


# frame = (fnid, substtuple, bb, destaddr, target)
def S(fr):
    return dict(fr[1])


class Interp:
    """One analysis context.  Subclass or pass hooks."""

    def __init__(self, prog, hooks, models=None, inline=None, maxdepth=24, maxstates=40000,
                 termcap=120):
        self.prog = prog
        self.hooks = hooks            # dict callee-id -> python fn(ip, st, call) or model fn id
        self.models = models or {}    # dict callee path (cpp) -> model fn id
        self.inline = inline or (lambda f: True)
        self.maxdepth = maxdepth
        self.maxstates = maxstates
        self.termcap = termcap
        self.unknown = set()          # calls outside of the vocabulary
        self.visited_fns = set()
        self.calls_seen = 0
        self._live = {}
        self.on_unknown = None
        self.on_param = None          # trait method on a type parameter
        self.on_guard = None

    # -------------------------------------------------- bodies
    def body(self, fnid):
        if isinstance(fnid, tuple):   # promoted
            return self.prog.fns[fnid[0]]["promoted"][fnid[1]]
        return self.prog.fns[fnid]["body"]

    def live(self, fnid):
        """live-in locals per block (address-taken locals are always live)"""
        r = self._live.get(fnid)
        if r is not None:
            return r
        b = self.body(fnid)
        n = len(b["blocks"])
        taken = set()
        use = [set() for _ in range(n)]
        dfn = [set() for _ in range(n)]
        succ = [[] for _ in range(n)]

        def up(i, p):
            if p["l"] not in dfn[i]:
                use[i].add(p["l"])
            for e in p["p"]:
                if isinstance(e, dict) and "i" in e and e["i"] not in dfn[i]:
                    use[i].add(e["i"])

        def uo(i, o):
            if "c" in o:
                up(i, o["c"])
            elif "m" in o:
                up(i, o["m"])

        def df(i, p):
            if p["p"]:
                up(i, p)
            else:
                dfn[i].add(p["l"])
        for i, bb in enumerate(b["blocks"]):
            for s in bb["s"]:
                if "r" not in s:
                    if "sd" in s:
                        up(i, s["sd"])
                    continue
                r = s["r"]
                k = r["r"]
                if k in ("use", "cast", "un", "repeat"):
                    uo(i, r["o"])
                elif k == "bin":
                    uo(i, r["x"])
                    uo(i, r["y"])
                elif k in ("ref", "rawptr"):
                    up(i, r["p"])
                    if "*" not in r["p"]["p"]:
                        taken.add(r["p"]["l"])
                elif k == "discr":
                    up(i, r["p"])
                elif k == "agg":
                    for o in r["fs"]:
                        uo(i, o)
                df(i, s["p"])
            t = bb["t"]
            k = t["t"]
            if k == "switch":
                uo(i, t["d"])
                succ[i] = [c[1] for c in t["cs"]] + [t["el"]]
            elif k == "call":
                uo(i, t["f"])
                for a in t["a"]:
                    uo(i, a)
                df(i, t["p"])
                if "to" in t:
                    succ[i] = [t["to"]]
            elif k == "drop":
                up(i, t["p"])
                succ[i] = [t["to"]]
            elif k == "assert":
                uo(i, t["c"])
                succ[i] = [t["to"]]
            elif k == "goto":
                succ[i] = [t["to"]]
            elif k == "return":
                if 0 not in dfn[i]:
                    use[i].add(0)
        livein = [set(u) for u in use]
        ch = True
        while ch:
            ch = False
            for i in range(n - 1, -1, -1):
                o = set()
                for j in succ[i]:
                    o |= livein[j]
                x = use[i] | (o - dfn[i])
                if x != livein[i]:
                    livein[i] = x
                    ch = True
        r = [x | taken for x in livein]
        self._live[fnid] = r
        return r

    # -------------------------------------------------- memory
    def getcell(self, st, c):
        v = st.cells.get(c)
        if v is None:
            if c[0] == "T":
                return c[1][1] if c[1][0] == "boxptr" else ("deref", c[1])
            return ("undef",)
        return v

    def project(self, st, v, proj):
        i = 0
        while i < len(proj):
            e = proj[i]
            if e[0] == "d":
                nxt = proj[i + 1] if i + 1 < len(proj) else None
                if nxt is None:
                    return v
                if nxt[0] == "f":
                    v = self.field(v, nxt[1], e[1])
                    i += 2
                    continue
                i += 1
                continue
            if e[0] == "f":
                v = self.field(v, e[1], 0)
            else:
                v = ("idx", v, e)
            i += 1
        return v

    def field(self, v, f, variant):
        if v[0] == "agg":
            if f < len(v[3]):
                return v[3][f]
            return ("undef",)
        if v[0] == "clo":
            return v[3][f]
        if v[0] == "undef":
            return v
        return self.fieldterm(v, f, variant)

    def fieldterm(self, v, f, variant):
        return ("fld", v, variant, f)

    def update(self, v, proj, new):
        if not proj:
            return new
        e = proj[0]
        var = None
        if e[0] == "d":
            var = e[1]
            proj = proj[1:]
            if not proj:
                return new
            e = proj[0]
        if e[0] == "f":
            if v[0] == "agg":
                fs = list(v[3])
                while len(fs) <= e[1]:
                    fs.append(("undef",))
                fs[e[1]] = self.update(fs[e[1]], proj[1:], new)
                return ("agg", v[1], v[2] if var is None else var, tuple(fs))
            if v[0] == "clo":
                fs = list(v[3])
                fs[e[1]] = self.update(fs[e[1]], proj[1:], new)
                return ("clo", v[1], v[2], tuple(fs))
            if v[0] == "undef":
                fs = [("undef",)] * (e[1] + 1)
                fs[e[1]] = self.update(("undef",), proj[1:], new)
                return ("agg", "?", var or 0, tuple(fs))
            old = self.fieldterm(v, e[1], var or 0)
            return self.setfield(v, var or 0, e[1], self.update(old, proj[1:], new))
        return ("upd", v, proj, new)

    def setfield(self, v, variant, f, new):
        # functional update of an opaque term, canonical
        if v[0] == "with":
            base, ups = v[1], dict(v[2])
        else:
            base, ups = v, {}
        if ("fld", base, variant, f) == new:
            ups.pop((variant, f), None)
        else:
            ups[(variant, f)] = new
        if not ups:
            return base
        return ("with", base, tuple(sorted(ups.items())))

    def resolve(self, st, depth, place):
        """-> (cell, proj)"""
        c = (depth, place["l"])
        proj = ()
        for e in place["p"]:
            if e == "*":
                v = self.load(st, c, proj)
                c, proj = self.deref(st, v)
            elif "f" in e:
                proj = proj + (("f", e["f"]),)
            elif "d" in e:
                proj = proj + (("d", e["d"]),)
            elif "i" in e:
                proj = proj + (("i", self.getcell(st, (depth, e["i"]))),)
            elif "ci" in e:
                proj = proj + (("ci", e["ci"], e["fe"]),)
            elif "ss" in e:
                proj = proj + (("ss", e["ss"], e["to"], e["fe"]),)
            else:
                raise Unsupported("projection %r" % (e,))
        return c, proj

    def deref(self, st, v):
        if v[0] == "ref":
            return v[1], v[2]
        return ("T", v), ()         # reading it gives ("deref", v), or the content of a box

    def load(self, st, c, proj):
        v = self.getcell(st, c)
        if v[0] == "with" and proj:
            v2 = v
            # field of an updated opaque term
            i = 0
            var = 0
            if proj[0][0] == "d":
                var = proj[0][1]
                i = 1
            if i < len(proj) and proj[i][0] == "f":
                ups = dict(v2[2])
                k = (var, proj[i][1])
                if k in ups:
                    return self.project(st, ups[k], proj[i + 1:])
                return self.project(st, self.fieldterm(v2[1], k[1], var), proj[i + 1:])
        return self.project(st, v, proj)

    def store(self, st, c, proj, v):
        if size(v) > self.termcap:
            v = ("top",)
        if not proj:
            st.cells[c] = v
        else:
            st.cells[c] = self.update(self.getcell(st, c), proj, v)

    def read(self, st, depth, place):
        c, p = self.resolve(st, depth, place)
        return self.load(st, c, p)

    def val(self, st, v):
        """the value behind any chain of references"""
        n = 0
        while v[0] == "ref" and n < 10:
            v = self.load(st, v[1], v[2])
            n += 1
        return v

    def deep(self, st, v, d=0):
        """replace references by the referenced values (for terms/labels)"""
        if not isinstance(v, tuple) or not v:
            return v
        if v[0] == "ref" and len(v) == 4:      # a type `ref` has three parts
            if d > 12:
                return ("top",)
            return self.deep(st, self.load(st, v[1], v[2]), d + 1)
        if v[0] in ("agg", "clo"):
            return (v[0], v[1], v[2], tuple(self.deep(st, x, d + 1) for x in v[3]))
        if v[0] == "boxptr":
            return self.deep(st, v[1], d + 1)
        return tuple(self.deep(st, x, d + 1) if isinstance(x, tuple) else x for x in v)

    # -------------------------------------------------- constants / operands
    def const(self, st, k, fr):
        kk = k["k"]
        if kk == "int":
            t = T(k["t"])
            if t == ("prim", "bool"):
                return ("bool", k["v"] != "0")
            if t == ("prim", "char"):
                return ("char", chr(int(k["v"])))
            try:
                return ("int", int(k["v"]))
            except ValueError:
                return ("const", k["v"])
        if kk in ("str", "bytes"):
            return (kk, k["v"]) if kk == "bytes" else ("str", k["v"])
        if kk == "zst":
            t = subst(T(k["t"]), S(fr))
            if t[0] == "fndef":
                return t
            if t[0] == "closure":
                return ("clo", t[1], t[2], ())
            if t[0] == "tuple":
                return UNIT
            if t[0] == "adt":
                return ("agg", SHORT.get(t[1], t[1]), 0, ())
            return ("zst", t)
        if kk == "ref":
            return self.const(st, k["v"], fr)
        if kk == "ind":
            return ("mem", repr(k["v"])) if k["v"].get("k") != "str" else ("str", k["v"]["v"])
        if kk == "cparam":
            s = S(fr)
            t = s.get(k["n"])
            if t is None:
                return ("param", k["n"])
            return self.tconst(t)
        if kk == "promoted":
            # a promoted body: evaluate it in place
            return self.promoted(st, k, fr)
        if kk == "uneval":
            if "v" in k:
                return self.const(st, k["v"], fr)
            return self.assoc_const(st, k, fr)
        if kk in ("static", "fnp"):
            return (kk, k["p"])
        if kk == "mem":
            return ("mem", tuple(k["strs"])) if isinstance(k["strs"], list) else ("mem", repr(k))
        return ("konst", repr(k))

    def tconst(self, t):
        if t[0] == "cval":
            if t[1] == "bool":
                return ("bool", t[2] not in ("0", "false"))
            if t[1] == "char":
                return ("char", chr(int(t[2])))
            return ("int", int(t[2]))
        return t

    def assoc_const(self, st, k, fr):
        args = tuple(subst(T(x), S(fr)) for x in k["a"])
        d = k["d"]
        name = d.split("::")[-1]
        # resolve through a local impl
        if args:
            for c in self.prog.consts.values():
                if c.get("trait") and d == c["trait"] + "::" + name and c["name"] == name:
                    s = {}
                    if unify(T(c["self"]), args[0], s):
                        if "v" in c:
                            return self.const(st, c["v"], fr)
                        if "body" in c:
                            return self.constbody(st, c["body"], tuple(sorted(s.items())))
        return ("aconst", name, args)

    def constbody(self, st, b, s):
        # straight line constant body
        fr = ("const", s, 0, None, None)
        tmp = State()
        tmp.frames, tmp.cells, tmp.facts, tmp.G, tmp.ghost = [], {}, {}, None, {}
        d = 0
        bb = b["blocks"][0]
        for x in bb["s"]:
            if "r" in x:
                c, p = self.resolve(tmp, d, x["p"])
                self.store(tmp, c, p, self.rvalue(tmp, d, x["r"], fr))
        return self.deep(tmp, tmp.cells.get((0, 0), ("top",)))

    def promoted(self, st, k, fr):
        # the owning fn may be an ancestor of this frame (inlined) -> look up by id
        f = self.prog.fns.get(k["d"])
        if not f or k["i"] >= len(f.get("promoted", [])):
            return ("promoted", k["d"], k["i"])
        b = f["promoted"][k["i"]]
        if len(b["blocks"]) > 2:
            return ("promoted", k["d"], k["i"])
        args = tuple(subst(T(x), S(fr)) for x in k["a"])
        names = [g["n"] for g in f["gen"]]
        s = tuple(sorted(zip(names, args)))
        pfr = ("const", s, 0, None, None)
        tmp = State()
        tmp.frames, tmp.cells, tmp.facts, tmp.G, tmp.ghost = [], {}, {}, None, {}
        for x in b["blocks"][0]["s"]:
            if "r" in x:
                c, p = self.resolve(tmp, 0, x["p"])
                self.store(tmp, c, p, self.rvalue(tmp, 0, x["r"], pfr))
        t = b["blocks"][0]["t"]
        if t["t"] != "return":
            return ("promoted", k["d"], k["i"])
        v = tmp.cells.get((0, 0), ("top",))
        # a promoted is a reference to a constant: represent as reference to a constant cell
        dv = self.deep(tmp, v)
        cell = ("K", k["d"], k["i"], s)
        st.cells[cell] = dv
        return ("ref", cell, (), False)

    def operand(self, st, depth, o, fr):
        if "c" in o:
            return self.read(st, depth, o["c"])
        if "m" in o:
            return self.read(st, depth, o["m"])
        if "k" in o:
            return self.const(st, o["k"], fr)
        return ("bool", False)   # runtime checks (overflow) are assumed off

    def rvalue(self, st, depth, r, fr):
        k = r["r"]
        if k == "use":
            return self.operand(st, depth, r["o"], fr)
        if k == "ref" or k == "rawptr":
            c, p = self.resolve(st, depth, r["p"])
            if c[0] == "T" and not p:
                return c[1]       # &*x of an opaque reference
            return ("ref", c, p, bool(r.get("m", True)))
        if k == "bin":
            x = self.operand(st, depth, r["x"], fr)
            y = self.operand(st, depth, r["y"], fr)
            return self.binop(st, r["op"], x, y)
        if k == "un":
            x = self.operand(st, depth, r["o"], fr)
            if r["op"] == "Not":
                return NOT(x)
            if r["op"] == "Neg":
                return add(("int", 0), x, -1)
            if r["op"] == "PtrMetadata":
                return ("len", self.deep(st, x))
            return ("un", r["op"], x)
        if k == "discr":
            v = self.read(st, depth, r["p"])
            return self.discr(st, v)
        if k == "agg":
            fs = tuple(self.operand(st, depth, o, fr) for o in r["fs"])
            kk = r["k"]
            if kk == "adt":
                return ("agg", SHORT.get(r["p"], r["p"]), r["v"], fs)
            if kk == "closure":
                a = tuple(subst(T(x), S(fr)) for x in r["a"])
                return ("clo", r["p"], a, fs)
            return ("agg", kk, 0, fs)
        if k == "cast":
            v = self.operand(st, depth, r["o"], fr)
            ck = r["ck"]
            if ck.startswith("IntToInt") or ck.startswith("Transmute") or ck.startswith("PtrToPtr") \
                    or ck.startswith("PointerCoercion") or ck.startswith("Subtype") \
                    or ck.startswith("BoxDeref"):
                if v[0] == "fld" and v[3] == 0 and v[1][0] == "fld" and ck.startswith(("Transmute", "BoxDeref")):
                    return v[1][1]
                if ck.startswith("BoxDeref"):
                    return ("boxptr", v[1] if v[0] == "fld" and v[3] == 0 else v)
                if v[0] == "char":
                    return ("int", ord(v[1]))
                return v
            return ("cast", ck, v)
        if k == "repeat":
            return ("repeat", self.operand(st, depth, r["o"], fr), T(r["n"]))
        return ("rv", k)

    def binop(self, st, op, x, y):
        base = op.replace("WithOverflow", "").replace("Unchecked", "")
        if base in ("Add", "Sub"):
            if x[0] == "char" or y[0] == "char":
                v = ("bin", base, x, y)
            else:
                v = add(x, y, 1 if base == "Add" else -1)
        elif base in ("Lt", "Gt", "Le", "Ge", "Eq", "Ne"):
            v = self.compare(st, base, x, y)
        elif base in ("BitAnd", "BitOr") and (x[0] == "bool" or y[0] == "bool"):
            if y[0] == "bool":
                x, y = y, x
            if base == "BitAnd":
                v = y if x[1] else ("bool", False)
            else:
                v = ("bool", True) if x[1] else y
        elif base == "Mul" and x[0] == "int" and y[0] == "int":
            v = ("int", x[1] * y[1])
        else:
            if base in ("BitAnd", "BitOr", "BitXor", "Mul") and repr(y) < repr(x):
                x, y = y, x
            v = ("bin", base, x, y)
        if op.endswith("WithOverflow"):
            return ("agg", "tuple", 0, (v, ("bool", False)))
        return v

    def ordv(self, x):
        return ("int", ord(x[1])) if x[0] == "char" else x

    def compare(self, st, op, x, y):
        x, y = self.ordv(x), self.ordv(y)
        if op == "Lt":
            c = LT(x, y)
        elif op == "Gt":
            c = LT(y, x)
        elif op == "Ge":
            c = NOT(LT(x, y))
        elif op == "Le":
            c = NOT(LT(y, x))
        elif op == "Eq":
            c = EQ(x, y)
        else:
            c = NOT(EQ(x, y))
        return self.simplify(st, c)

    gcap = 3

    def simplify(self, st, c):
        """comparisons that only involve the ghost counter: G >= gcap once widened"""
        neg = False
        if c[0] == "not":
            neg, c = True, c[1]
        if c[0] in ("gt0", "eq0", "eq") and st.G == "+":
            l = None
            if c[0] in ("gt0", "eq0"):
                l = lin(c[1])
            elif ("G",) in c[1:]:
                l = lin(add(c[1], c[2], -1))
            if l and set(l[0]) == {("G",)}:
                k = l[0][("G",)]
                b = k * self.gcap + l[1]      # value at the smallest G
                if k > 0 and b > 0:
                    c = ("bool", c[0] == "gt0")
                elif k < 0 and b <= 0 and c[0] == "gt0":
                    c = ("bool", False)
                elif k < 0 and b < 0:
                    c = ("bool", False)
                elif abs(l[1]) > (1 << 30):   # against usize::MAX: never reached
                    c = ("bool", (l[1] > 0) == (c[0] == "gt0") if c[0] == "gt0" else False)
        return NOT(c) if neg else c

    def discr(self, st, v):
        if v[0] == "agg":
            return ("int", v[2])
        return ("discr", v)

    # -------------------------------------------------- stepping
    def top(self, st):
        return len(st.frames) - 1

    def push_frame(self, st, fnid, sub, args, dest, target):
        d = len(st.frames)
        if d >= self.maxdepth:
            raise Unsupported("inlining too deep at %s" % (fnid,))
        st.frames.append((fnid, tuple(sorted(sub.items())), 0, dest, target))
        if not isinstance(fnid, tuple):
            self.visited_fns.add(fnid)
        for i, a in enumerate(args):
            st.cells[(d, i + 1)] = a

    def pop_frame(self, st):
        d = len(st.frames) - 1
        v = st.cells.get((d, 0), UNIT)
        fr = st.frames.pop()
        for k in [k for k in st.cells if k[0] == d]:
            del st.cells[k]
        return fr, v

    def setbb(self, st, bb):
        fr = st.frames[-1]
        st.frames[-1] = fr[:2] + (bb,) + fr[3:]
        lv = self.live(fr[0])[bb]
        d = len(st.frames) - 1
        for k in [k for k in st.cells if k[0] == d and k[1] not in lv and k[1] != "clo"]:
            del st.cells[k]

    def emit_ret(self, st, v):
        return ("ret", self.deep(st, v))

    def run(self, st):
        """advance until events; yields list of (labels, state|None)"""
        steps = 0
        work = [st]
        out = []
        while work:
            st = work.pop()
            while True:
                steps += 1
                if steps > 20000:
                    raise Budget("too many steps without an effect")
                r = self.step(st)
                if r is None:
                    continue
                for labels, s2 in r:
                    if labels or s2 is None:
                        out.append((labels, s2))
                    else:
                        work.append(s2)
                break
        return out

    def step(self, st):
        """execute one basic block.  None: continue with st; else list of (labels, st')"""
        depth = len(st.frames) - 1
        fr = st.frames[-1]
        b = self.body(fr[0])
        bb = b["blocks"][fr[2]]
        for s in bb["s"]:
            if "r" in s:
                v = self.rvalue(st, depth, s["r"], fr)
                c, p = self.resolve(st, depth, s["p"])
                self.store(st, c, p, v)
            elif "sd" in s:
                c, p = self.resolve(st, depth, s["sd"])
                v = self.load(st, c, p)
                fs = v[3] if v[0] == "agg" else ()
                nm = v[1] if v[0] == "agg" else "?"
                self.store(st, c, p, ("agg", nm, s["v"], fs))
        t = bb["t"]
        k = t["t"]
        if k == "goto":
            self.setbb(st, t["to"])
            return None
        if k == "drop":
            r = self.do_drop(st, depth, t)
            if r is not None:
                return r
            self.setbb(st, t["to"])
            return None
        if k == "assert":
            self.setbb(st, t["to"])
            return None
        if k == "return":
            return self.do_return(st)
        if k == "switch":
            v = self.operand(st, depth, t["d"], fr)
            return self.do_switch(st, v, t)
        if k == "call":
            return self.do_call(st, depth, fr, t)
        if k in ("unreachable", "resume", "abort"):
            return []
        raise Unsupported("terminator " + k)

    def do_drop(self, st, depth, t):
        v = self.read(st, depth, t["p"])
        if v[0] == "agg" and isinstance(v[1], str) and v[1].startswith("pest3"):
            for f in self.prog.trait_fns.get(("core::ops::drop::Drop", "drop"), []):
                if f["self"]["k"] == "adt" and f["self"]["p"] == v[1]:
                    c, p = self.resolve(st, depth, t["p"])
                    fr = st.frames[-1]
                    self.push_frame(st, f["id"], {}, [("ref", c, p, True)],
                                    ((depth, "drop"), ()), t["to"])
                    return [((), st)]
        return None

    def do_return(self, st):
        fr, v = self.pop_frame(st)
        if not st.frames:
            lab = self.emit_ret(st, v)
            return [(((lab,) if lab is not None else ()), None)]
        c, p = fr[3]
        self.store(st, c, p, v)
        self.setbb(st, fr[4])
        return None

    def fact(self, st, c):
        if c[0] == "bool":
            return c[1]
        neg = False
        if c[0] == "not":
            neg, c = True, c[1]
        r = st.facts.get(c)
        if r is None:
            return None
        return (not r) if neg else r

    def setfact(self, st, c, v):
        if c[0] == "not":
            c, v = c[1], not v
        st.facts[c] = v

    def guard_labels(self, st, c, v):
        """labels for deciding condition c as v; counters are postponed"""
        if c[0] == "not":
            c, v = c[1], not v
        if self.on_guard:
            r = self.on_guard(self, st, c, v)
            if r is not None:
                return r
        return (("if", self.deep(st, c), v),)

    def do_switch(self, st, v, t):
        if v[0] == "not" or v[0] in ("gt0", "eq", "eq0", "lt", "bool") or T(t["dt"]) == ("prim", "bool"):
            tv = self.fact(st, v)
            tgt = {c[0]: c[1] for c in t["cs"]}
            ft = tgt.get(0, t["el"])
            tt = tgt.get(1, t["el"])
            if tv is not None:
                self.setbb(st, tt if tv else ft)
                return None
            out = []
            for b, bb in ((True, tt), (False, ft)):
                s2 = st.copy()
                self.setfact(s2, v, b)
                labs = self.guard_labels(s2, v, b)
                self.setbb(s2, bb)
                out.append((labs, s2))
            return out
        if v[0] == "int" or v[0] == "char":
            n = v[1] if v[0] == "int" else ord(v[1])
            for c, bb in t["cs"]:
                if c == n:
                    self.setbb(st, bb)
                    return None
            self.setbb(st, t["el"])
            return None
        if v[0] != "discr" and T(t["dt"]) in INTS:
            # the same as a chain of comparisons
            out, pre = [], ()
            for c, bb in t["cs"]:
                q = self.compare(st, "Eq", v, ("int", c))
                tv = self.fact(st, q)
                if tv is None:
                    s2 = st.copy()
                    self.setfact(s2, q, True)
                    out.append((pre + tuple(self.guard_labels(s2, q, True)), s2))
                    self.setbb(s2, bb)
                    st = st.copy()
                    self.setfact(st, q, False)
                    pre += tuple(self.guard_labels(st, q, False))
                elif tv:
                    self.setbb(st, bb)
                    break
            else:
                self.setbb(st, t["el"])
            if not out:
                return None
            return out + [(pre, st)]
        known = st.facts.get(v)
        out = []
        b = self.body(st.frames[-1][0])
        excl = []
        for c, bb in t["cs"]:
            if isinstance(known, int) and not isinstance(known, bool) and known != c:
                continue
            if isinstance(known, tuple) and c in known:
                continue
            s2 = st.copy()
            excl.append(c)
            if known == c and not isinstance(known, bool):
                labs = ()
            else:
                s2.facts[v] = c
                labs = self.switch_labels(s2, v, c)
            self.setbb(s2, bb)
            out.append((labs, s2))
        el = b["blocks"][t["el"]]
        if not (el["t"]["t"] == "unreachable") and not (isinstance(known, int) and not isinstance(known, bool) and known in [c for c, _ in t["cs"]]):
            s2 = st.copy()
            prev = known if isinstance(known, tuple) else ()
            if isinstance(known, int) and not isinstance(known, bool):
                labs = ()
            else:
                s2.facts[v] = tuple(sorted(set(prev) | set(excl)))
                labs = self.switch_labels(s2, v, ("other",) + tuple(sorted(set(prev) | set(excl))))
            self.setbb(s2, t["el"])
            out.append((labs, s2))
        return out

    def switch_labels(self, st, v, c):
        if self.on_guard:
            r = self.on_guard(self, st, v, c)
            if r is not None:
                return r
        return (("if", self.deep(st, v), c),)

    # -------------------------------------------------- calls
    def finish(self, st, dest, target, v):
        c, p = dest
        self.store(st, c, p, v)
        self.setbb(st, target)
        return st

    def do_call(self, st, depth, fr, t):
        self.calls_seen += 1
        args = [self.operand(st, depth, a, fr) for a in t["a"]]
        if "to" not in t:
            return [((("panic",),), None)]
        dest = self.resolve(st, depth, t["p"])
        if "cp" not in t:
            fv = self.operand(st, depth, t["f"], fr)
            return self.call_value(st, fv, args, dest, t["to"])
        sub = S(fr)
        cid = t["cp"]
        ca = tuple(subst(T(x), sub) for x in t["ca"])
        call = Call(cid, t["cpp"], ca, args, dest, t["to"], t.get("tr"), t["l"], fr[0])
        return self.dispatch(st, call, t, sub)

    def dispatch(self, st, call, t=None, sub=None):
        cid = call.id
        # closures
        if call.trait in ("core::ops::function::FnOnce", "core::ops::function::FnMut",
                          "core::ops::function::Fn"):
            f = call.args[0]
            a = call.args[1]
            a = list(a[3]) if a[0] == "agg" else [a]
            return self.call_value(st, f, a, call.dest, call.target, call)
        h = self.hooks.get(cid)
        if h is None:
            n = norm(call.path)
            h = self.hooks.get(n)
            if h is None:
                h = self.models.get(n)
        if h is None and t is not None and "rp" in t:
            rp = t["rp"]
            h = self.hooks.get(rp)
        if h is None and self.on_call:
            h2 = self.on_call(self, st, call)
            if h2 is not None:
                return h2
        if h is not None:
            if isinstance(h, str):
                return self.call_model(st, h, call)
            r = h(self, st, call)
            if r is not NotImplemented:
                return r
        # resolved by rustc
        if t is not None and "rp" in t and t["rp"] in self.prog.fns:
            f = self.prog.fns[t["rp"]]
            ra = tuple(subst(T(x), sub) for x in t["ra"])
            return self.enter(st, f, ra, call)
        if call.trait is not None:
            f, s = self.resolve_trait(call)
            if f is not None:
                # try hooks on the resolved function as well
                h = self.hooks.get(f["id"])
                if h is not None:
                    if isinstance(h, str):
                        return self.call_model(st, h, call)
                    return h(self, st, call)
                return self.enter_sub(st, f, s, call)
            selfty = call.targs[0] if call.targs else None
            if selfty and selfty[0] == "param" and self.on_param:
                r = self.on_param(self, st, call)
                if r is True:             # a frame was entered
                    return None
                if r is not None:
                    return r
        if cid in self.prog.fns:
            f = self.prog.fns[cid]
            return self.enter(st, f, call.targs, call)
        return self.unknown_call(st, call)

    on_call = None

    def resolve_trait(self, call):
        name = call.id.split("::")[-1]
        self_t = call.targs[0] if call.targs else None
        if self_t is None or self_t[0] in ("param", "proj"):
            return None, None
        for f in self.prog.trait_fns.get((call.trait, name), []):
            s = {}
            tp = [T(x) for x in f["targs"]]
            if len(tp) <= len(call.targs) and all(unify(a, b, s) for a, b in zip(tp, call.targs)):
                if f["self"]["k"] == "param":
                    continue  # blanket impl: only when nothing else applies
                own = len(call.targs) - len(tp)
                names = [g["n"] for g in f["gen"]]
                if own:
                    for n, a in zip(names[-own:], call.targs[len(tp):]):
                        s[n] = a
                return f, s
        for f in self.prog.trait_fns.get((call.trait, name), []):
            s = {}
            tp = [T(x) for x in f["targs"]]
            if f["self"]["k"] == "param" and len(tp) <= len(call.targs) and all(
                    unify(a, b, s) for a, b in zip(tp, call.targs)):
                own = len(call.targs) - len(tp)
                names = [g["n"] for g in f["gen"]]
                if own:
                    for n, a in zip(names[-own:], call.targs[len(tp):]):
                        s[n] = a
                return f, s
        return None, None

    def enter(self, st, f, targs, call):
        names = [g["n"] for g in f["gen"]]
        s = dict(zip(names, targs))
        return self.enter_sub(st, f, s, call)

    def enter_sub(self, st, f, s, call):
        if not self.inline(f):
            return self.unknown_call(st, call)
        # no recursion
        for x in st.frames:
            if x[0] == f["id"]:
                return self.recursive_call(st, f, s, call)
        self.push_frame(st, f["id"], s, call.args, call.dest, call.target)
        return None

    def recursive_call(self, st, f, s, call):
        return self.unknown_call(st, call)

    def call_model(self, st, mid, call):
        f = self.prog.fns.get("models::" + mid)
        if f is None:
            raise Unsupported("no model " + mid)
        names = [g["n"] for g in f["gen"]]
        s = dict(zip(names, call.targs))
        self.push_frame(st, f["id"], s, call.args, call.dest, call.target)
        return None

    def call_value(self, st, f, args, dest, target, call=None):
        n = 0
        clo = f
        while clo[0] == "ref" and n < 5:
            clo = self.load(st, clo[1], clo[2])
            n += 1
        if clo[0] == "clo":
            fn = self.prog.fns.get(clo[1])
            if fn is None:
                raise Unsupported("closure body " + clo[1])
            for x in st.frames:
                if x[0] == fn["id"]:
                    raise Unsupported("recursive closure")
            names = [g["n"] for g in fn["gen"]]
            s = dict(zip(names, clo[2]))
            # closure self by value or by reference
            want_ref = fn["body"]["locals"][1]["k"] == "ref"
            selfv = f
            if want_ref:
                if f[0] != "ref":
                    cell = (len(st.frames), "clo")
                    st.cells[cell] = clo
                    selfv = ("ref", cell, (), True)
                else:
                    # collapse double references
                    g = f
                    while True:
                        v = self.load(st, g[1], g[2])
                        if v[0] != "ref":
                            break
                        g = v
                    selfv = g
            else:
                selfv = clo
            self.push_frame(st, fn["id"], s, [selfv] + list(args), dest, target)
            return None
        if clo[0] == "fndef":
            cid = clo[1]
            f2 = self.prog.fns.get(cid)
            tr = None
            path = cid
            if f2 is None or "in_trait" in f2:
                tr = cid.rsplit("::", 1)[0]
                if tr not in self.prog.traits and not (f2 and "in_trait" in f2):
                    tr = self.ext_trait(cid)
            c = Call(cid, self.ext_path(cid), clo[2], list(args), dest, target, tr,
                     call.loc if call else "", "")
            # constructor functions
            ctor = self.ctor(cid)
            if ctor is not None:
                return [((), self.finish(st, dest, target, ("agg", ctor[0], ctor[1], tuple(args))))]
            return self.dispatch(st, c)
        if self.on_opaque_fn:
            r = self.on_opaque_fn(self, st, clo, args, dest, target)
            if r is not None:
                return r
        return [((), self.finish(st, dest, target, ("app", self.deep(st, clo), tuple(self.deep(st, a) for a in args))))]

    on_opaque_fn = None

    def ext_trait(self, cid):
        return None

    EXT = (("core::char::methods::", "char"), ("core::str::", "str"), ("core::option::", "Option"),
           ("core::result::", "Result"), ("alloc::string::", "String"), ("alloc::vec::", "Vec"), ("alloc::str::", "str"),
           ("core::slice::", "slice"), ("alloc::slice::", "slice"))

    def ext_path(self, cid):
        if "::{impl#" in cid:
            for p, n in self.EXT:
                if cid.startswith(p):
                    return n + "::" + cid.split("::")[-1]
        return cid

    def ctor(self, cid):
        parts = cid.split("::")
        if parts[-1] == "{constructor#0}" or parts[-1].startswith("{ctor"):
            parts = parts[:-1]
        # Option/Result constructors
        tail = parts[-1]
        if cid.startswith("core::option::Option::Some"):
            return ("Option", 1)
        if cid.startswith("core::result::Result::Ok"):
            return ("Result", 0)
        if cid.startswith("core::result::Result::Err"):
            return ("Result", 1)
        p = "::".join(parts)
        a = self.prog.adts.get(p)
        if a and len(a["v"]) == 1:
            return (p, 0)
        a = self.prog.adts.get("::".join(parts[:-1]))
        if a:
            for i, v in enumerate(a["v"]):
                if v["n"] == tail:
                    return (a["id"], i)
        return None

    def unknown_call(self, st, call):
        self.unknown.add(call.path)
        if self.on_unknown:
            r = self.on_unknown(self, st, call)
            if r is not None:
                return r
        a = tuple(self.deep(st, x) for x in call.args)
        res = ("call", call.path, call.targs, a)
        # mutable arguments are havocked
        for i, x in enumerate(call.args):
            if x[0] == "ref" and x[3]:
                self.store(st, x[1], x[2], ("mutby", call.path, i, a))
        return [((), self.finish(st, call.dest, call.target, res))]


def norm(path, memo={}):
    """std::option::Option::<T>::map -> Option::map ; core::str::<impl str>::len -> str::len"""
    r = memo.get(path)
    if r is None:
        segs, cur, d = [], "", 0
        i = 0
        while i < len(path):
            ch = path[i]
            if ch in "<([":
                d += 1
            elif ch in ">)]" and not (ch == ">" and path[i - 1] == "-"):
                d -= 1
            if d == 0 and path.startswith("::", i):
                segs.append(cur)
                cur = ""
                i += 2
                continue
            cur += ch
            i += 1
        segs.append(cur)
        out = []
        for x in segs:
            if x.startswith("<impl "):
                x = x[6:-1]
                if x.startswith("["):
                    x = "array" if ";" in x else "slice"
                if " for " in x:
                    x = x.split(" for ")[0]
                x = x.split("<")[0].split("::")[-1]
            elif x.startswith("<"):
                if " as " in x:
                    x = x[1:-1].split(" as ")[1].split("<")[0].split("::")[-1]
                else:
                    continue
            out.append(x)
        r = "::".join(out[-2:])
        memo[path] = r
    return r


class Call:
    __slots__ = ("id", "path", "targs", "args", "dest", "target", "trait", "loc", "caller")

    def __init__(self, id, path, targs, args, dest, target, trait, loc, caller):
        self.id, self.path, self.targs, self.args = id, path, targs, args
        self.dest, self.target, self.trait, self.loc, self.caller = dest, target, trait, loc, caller

    def ret(self, ip, st, v, labels=()):
        """helper for hooks: one outcome"""
        s2 = st
        ip.finish(s2, self.dest, self.target, v)
        return (labels, s2)


def new_state(ip, fnid, sub, args, heap=None, G=None, ghost=None):
    st = State()
    st.frames, st.cells, st.facts = [], dict(heap or {}), {}
    st.G = G
    st.ghost = dict(ghost or {})
    ip.push_frame(st, fnid, sub, args, None, None)
    return st


def explore(ip, st0, normalize=None):
    """fixpoint over abstract states; returns an NFA"""
    from automata import NFA
    nfa = NFA()
    ids = {}
    work = []

    def node(s):
        if normalize:
            s = normalize(ip, s)
        k = s.key()
        if k not in ids:
            ids[k] = nfa.new()
            if len(ids) > ip.maxstates:
                raise Budget("state budget exceeded")
            work.append((ids[k], s))
        return ids[k]
    nfa.start = node(st0)
    end = Clock.begin()
    while work:
        Clock.check(end)
        q, s = work.pop()
        for labels, s2 in ip.run(s.copy()):
            cur = q
            dst = nfa.final if s2 is None else node(s2)
            if not labels:
                nfa.edge(cur, None, dst)
                continue
            for l in labels[:-1]:
                n = nfa.new()
                nfa.edge(cur, l, n)
                cur = n
            nfa.edge(cur, labels[-1], dst)
    nfa.states = len(ids)
    return nfa
