"""Finite automata over effect labels: projection, comparison with witness."""
from interp import Clock, Budget


class NFA:
    def __init__(self):
        self.n = 0
        self.e = {}
        self.final = self.new()
        self.start = None
        self.states = 0

    def new(self):
        self.n += 1
        return self.n - 1

    def edge(self, a, l, b):
        self.e.setdefault(a, []).append((l, b))

    def nedges(self):
        return sum(len(v) for v in self.e.values())

    def labels(self):
        return {l for v in self.e.values() for l, _ in v if l is not None}

    def project(self, f):
        """f(label) -> label | None(erased) | list of labels"""
        m = NFA()
        m.n, m.final, m.start, m.states = self.n, self.final, self.start, self.states
        for a, v in self.e.items():
            for l, b in v:
                if l is not None:
                    l = f(l)
                if isinstance(l, list):
                    cur = a
                    if not l:
                        m.edge(cur, None, b)
                        continue
                    for x in l[:-1]:
                        k = m.new()
                        m.edge(cur, x, k)
                        cur = k
                    m.edge(cur, l[-1], b)
                else:
                    m.edge(a, l, b)
        return m

    def closure(self, S):
        S = set(S)
        st = list(S)
        while st:
            x = st.pop()
            for l, b in self.e.get(x, ()):
                if l is None and b not in S:
                    S.add(b)
                    st.append(b)
        return frozenset(S)

    def moves(self, S):
        r = {}
        for x in S:
            for l, b in self.e.get(x, ()):
                if l is not None:
                    r.setdefault(l, set()).add(b)
        return r

    def dfa(self):
        """determinize, trim, minimize (Moore); returns (start, trans, acc)"""
        s0 = self.closure([self.start])
        ids = {s0: 0}
        trans = []
        work = [s0]
        acc = set()
        trans.append({})
        while work:
            tick()
            S = work.pop()
            i = ids[S]
            if self.final in S:
                acc.add(i)
            for l, t in self.moves(S).items():
                t = self.closure(t)
                if t not in ids:
                    ids[t] = len(trans)
                    trans.append({})
                    work.append(t)
                trans[i][l] = ids[t]
        # trim states that cannot reach acceptance
        rev = {}
        for i, d in enumerate(trans):
            for l, j in d.items():
                rev.setdefault(j, set()).add(i)
        good = set(acc)
        st = list(acc)
        while st:
            x = st.pop()
            for y in rev.get(x, ()):
                if y not in good:
                    good.add(y)
                    st.append(y)
        trans = [{l: j for l, j in d.items() if j in good} for d in trans]
        return 0, trans, acc


def reduce_guards(dfa):
    """A decision whose outcomes lead to equivalent continuations is no decision:
    merge states, drop don't-care guards, until stable."""
    s, trans, acc = dfa
    while True:
        # Moore partition refinement
        cls = [1 if i in acc else 0 for i in range(len(trans))]
        while True:
            sig = {}
            new = []
            tick()
            for i, d in enumerate(trans):
                k = (cls[i], frozenset((l, cls[j]) for l, j in d.items()))
                new.append(sig.setdefault(k, len(sig)))
            if len(set(new)) == len(set(cls)):
                cls = new
                break
            cls = new
        n = len(set(cls))
        remap = {}
        t2 = [None] * n
        order = {}
        for i in range(len(trans)):
            c = cls[i]
            order.setdefault(c, len(order))
        t2 = [None] * len(order)
        a2 = set()
        for i, d in enumerate(trans):
            c = order[cls[i]]
            if t2[c] is None:
                t2[c] = {l: order[cls[j]] for l, j in d.items()}
            if i in acc:
                a2.add(c)
        s2 = order[cls[s]]
        # don't-care guards
        alias = {}
        for i, d in enumerate(t2):
            ls = list(d)
            if len(ls) >= 2 and all(l[0] == "if" for l in ls) and len({l[1] for l in ls}) == 1 \
                    and len(set(d.values())) == 1:
                alias[i] = next(iter(d.values()))
        alias = {a: b for a, b in alias.items() if a != b}
        if not alias:
            return s2, t2, a2

        def res(x):
            seen = set()
            while x in alias and x not in seen:
                seen.add(x)
                x = alias[x]
            return x
        t3 = [{l: res(j) for l, j in d.items()} for d in t2]
        s, trans, acc = res(s2), t3, a2


NUMVAR = ("chr", "param", "slen", "len")


def _numeric(c):
    """(kind, dict var->coef, const) of a numeric condition, or None"""
    from interp import lin
    if c[0] in ("gt0", "eq0"):
        d, k = lin(c[1])
        if all(x[0] in NUMVAR for x in d):
            return c[0], d, k
        return None
    if c[0] == "eq":
        x, y = c[1], c[2]
        if all(t[0] in NUMVAR + ("int", "char") for t in (x, y)):
            d, k = {}, 0
            for t, sg in ((x, 1), (y, -1)):
                if t[0] == "int":
                    k += sg * t[1]
                elif t[0] == "char":
                    k += sg * ord(t[1])
                else:
                    d[t] = d.get(t, 0) + sg
            return "eq0", d, k
    return None


GRID = range(0, 6)
MAXVAL = 30000


def _valuations(guards):
    """guards: set of (cond, outcome).  All consistent assignments of outcomes."""
    import itertools
    conds = {}
    for c, o in guards:
        conds.setdefault(c, set()).add(o)
    num, free = {}, {}
    vars_ = set()
    for c, os in conds.items():
        n = _numeric(c) if all(isinstance(o, bool) for o in os) else None
        if n:
            num[c] = n
            vars_ |= set(n[1])
        elif all(isinstance(o, bool) for o in os):
            free[c] = (True, False)
        else:
            dom = sorted({o for o in os if isinstance(o, int) and not isinstance(o, bool)})
            for o in os:
                if isinstance(o, tuple):
                    dom = sorted(set(dom) | set(o[1:]))
            free[c] = tuple(dom) + ("other",)
    vars_ = sorted(vars_, key=repr)
    numvals = set()
    consts = sorted({abs(n[2]) for n in num.values()} - {0})
    grid = sorted(set(GRID) | {x + d for x in consts for d in (-1, 0, 1)})
    if len(grid) ** len(vars_) > 200000:
        return None
    ks = list(num)
    for vs in itertools.product(grid, repeat=len(vars_)):
        env = dict(zip(vars_, vs))
        r = []
        for c in ks:
            kind, d, k = num[c]
            t = sum(env[v] * x for v, x in d.items()) + k
            r.append(t > 0 if kind == "gt0" else t == 0)
        numvals.add(tuple(r))
    fk = list(free)
    total = len(numvals)
    for c in fk:
        total *= len(free[c])
    if total > MAXVAL:
        return None
    out = []
    for nv in sorted(numvals):
        base = dict(zip(ks, nv))
        for fv in itertools.product(*(free[c] for c in fk)):
            v = dict(base)
            v.update(zip(fk, fv))
            out.append(v)
    return out


def _match(val, o):
    if isinstance(o, tuple):
        return val == "other" or val not in o[1:]
    return val == o and isinstance(val, bool) == isinstance(o, bool)


class _Walk:
    def __init__(self, dfa):
        self.s, self.t, self.acc = dfa

    def guards(self, S):
        r, seen, st = set(), set(S), list(S)
        while st:
            x = st.pop()
            for l, j in self.t[x].items():
                if l[0] == "if":
                    r.add((l[1], l[2]))
                    if j not in seen:
                        seen.add(j)
                        st.append(j)
        return r

    def settle(self, S, val):
        """states reached by taking the guards that hold under val"""
        out, seen, st = set(), set(S), list(S)
        while st:
            x = st.pop()
            g = False
            for l, j in self.t[x].items():
                if l[0] == "if":
                    g = True
                    if _match(val.get(l[1]), l[2]) and j not in seen:
                        seen.add(j)
                        st.append(j)
            if not g or any(l[0] != "if" for l in self.t[x]) or x in self.acc:
                out.add(x)
        return frozenset(out)

    def moves(self, S):
        r = {}
        for x in S:
            for l, j in self.t[x].items():
                if l[0] != "if":
                    r.setdefault(l, set()).add(j)
        return {l: frozenset(v) for l, v in r.items()}


def one_pos(t):
    """all positions taken for the same"""
    if not isinstance(t, tuple):
        return t
    if t and t[0] == "pos":
        return ("pos", "*")
    return tuple(one_pos(x) for x in t)


def unclear(path, oa, ob, accepts):
    """a difference found under comparisons of offsets is none if the outcome makes both sides alike,
    or if it only leads to an assertion"""
    from nodes import soft
    gs = [(l[1], l[2]) for l in path if l[0] == "if" and isinstance(l[1], tuple) and soft(l[1])]
    if not gs:
        return False
    if all(l[0] == "panic" for l in oa) and all(l[0] == "panic" for l in ob):
        return True
    if any(v is True and c[0] != "gt0" for c, v in gs):
        return {one_pos(l) for l in oa} == {one_pos(l) for l in ob} and not accepts
    return False


def compare(a, b):
    """None if both have the same effects under every outcome of the guards; else
    (path, effects only in a, effects only in b)"""
    try:
        return _compare(a, b)
    except Budget as e:
        return "undecided", str(e), ()


def tick():
    if _end[0] is not None:
        Clock.check(_end[0])


_end = [None]


def _compare(a, b):
    _end[0] = Clock.begin()
    A, B = _Walk(reduce_guards(a.dfa())), _Walk(reduce_guards(b.dfa()))
    s0 = (frozenset([A.s]), frozenset([B.s]))
    seen = {s0}
    work = [(s0, ())]
    while work:
        nxt = []
        for (x, y), pre in work:
            tick()
            gs = A.guards(x) | B.guards(y)
            vals = _valuations(gs) if gs else [{}]
            if vals is None:
                return "undecided", "too many guard combinations", ()
            done = set()
            for v in vals:
                x2, y2 = (A.settle(x, v), B.settle(y, v)) if gs else (x, y)
                if (x2, y2) in done:
                    continue
                done.add((x2, y2))
                ma, mb = A.moves(x2), B.moves(y2)
                fa, fb = bool(x2 & A.acc), bool(y2 & B.acc)
                p2 = pre + tuple(("if", c, o) for c, o in sorted(v.items(), key=repr))
                if set(ma) != set(mb) or fa != fb:
                    # a path that stops (diverges / is infeasible) on one side only counts too
                    oa = [l for l in ma if l not in mb]
                    ob = [l for l in mb if l not in ma]
                    if unclear(p2, oa, ob, fa != fb):
                        return "undecided", "whether both agree depends on how the offsets compare: " + "; ".join(show(l) for l in p2), ()
                    return list(p2), oa, ob
                for l in ma:
                    p = (ma[l], mb[l])
                    if p not in seen:
                        seen.add(p)
                        nxt.append((p, p2 + (l,)))
        work = nxt
    return None


def show(l):
    """readable label"""
    if isinstance(l, tuple):
        if l and l[0] == "ret":
            return "return " + term(l[1])
        if l and l[0] == "if":
            return "[%s is %s]" % (term(l[1]), term(l[2]) if isinstance(l[2], tuple) else l[2])
        return "%s(%s)" % (l[0], ", ".join(term(x) for x in l[1:]))
    return str(l)


def term(t):
    if not isinstance(t, tuple):
        return str(t)
    if not t:
        return "()"
    k = t[0]
    if k == "agg":
        n = t[1].split("::")[-1]
        if n == "Option":
            return "None" if t[2] == 0 else "Some(%s)" % term(t[3][0])
        if n == "Result":
            return "%s(%s)" % ("Ok" if t[2] == 0 else "Err", term(t[3][0]))
        if n == "tuple":
            return "(" + ", ".join(term(x) for x in t[3]) + ")"
        return "%s#%d(%s)" % (n, t[2], ", ".join(term(x) for x in t[3]))
    if k in ("int", "bool", "str", "char", "param"):
        return repr(t[1]) if k in ("str", "char") else str(t[1])
    if k == "pos":
        return {"E": "entry", "N": "cur"}.get(t[1], t[1])
    if k == "res":
        return "node<%s>" % term(t[1])
    if k == "gt0":
        return term(t[1]) + " > 0"
    if k == "eq0":
        return term(t[1]) + " == 0"
    if k == "sum":
        return " + ".join(("%s" if c == 1 else str(c) + "*%s") % term(x) for x, c in t[1]) + (" + %d" % t[2] if t[2] else "")
    if k == "G":
        return "#matched"
    if len(t) == 1:
        return str(k)
    if not isinstance(k, str):
        return "(" + ", ".join(term(x) for x in t) + ")"
    return "%s(%s)" % (k, ", ".join(term(x) for x in t[1:]))


def dump(nfa, out=None):
    s, t, acc = reduce_guards(nfa.dfa())
    lines = []
    for i, d in enumerate(t):
        for l, j in sorted(d.items(), key=lambda x: repr(x)):
            lines.append("%s%d -> %s%d : %s" % (">" if i == s else " ", i, "*" if j in acc else "", j, show(l)))
    return "\n".join(lines)
