"""Automata of parser nodes (TypedNode implementations) and their references."""
from interp import *
import vocab
from vocab import HOOKS, MODELS, PARSE, sub_call
import automata
from automata import NFA

TN = "pest3_core::typed::traits::TypedNode"
NF = "pest3_core::typed::traits::NeverFailedTypedNode"

FOREIGN = ("fld", "with", "call", "top", "undef", "mutby", "rv", "upd", "mem", "konst", "promoted", "app",
           "bin", "idx", "cast", "zst", "siterend", "inlen")


class NodeInterp(Interp):
    """opaque(ty): is a concrete node type treated as an opaque sub-parser"""
    assume_first_char = True

    def __init__(self, prog, opaque=None, **kw):
        super().__init__(prog, HOOKS, MODELS, **kw)
        self.opaque = opaque or (lambda t: False)
        self.depth_class = None

    def stack_len(self, st, s):
        return st.ghost.get("len")

    def on_call(self, ip, st, call):
        n = norm(call.path)
        k = PARSE.get(n)
        if k and call.targs:
            t = call.targs[0]
            if t[0] == "param" or self.opaque(t):
                return sub_call(ip, st, call, k[0], k[1], vocab.canon_ty(t))
        return None

    def simplify(self, st, c):
        """an offset that is zero, or that is the length of the input, is the start or the end"""
        c = super().simplify(st, c)
        neg = c[0] == "not"
        b = c[1] if neg else c
        if b[0] in ("eq", "eq0", "gt0"):
            l = lin(b[1] if b[0] != "eq" else add(b[1], b[2], -1)) if b[0] != "eq" or lin(b[1]) and lin(b[2]) else None
            if l and b[0] == "gt0" and l[1] == 1:
                # 1 - d > 0 says that d > 0 is false
                l, neg = ({t: -x for t, x in l[0].items()}, 0), not neg
            if l and l[1] == 0:
                d = dict(l[0])
                ps = [t for t in d if offset_of(t) == "pos"]
                if len(ps) == 1:
                    p, k = ps[0], d.pop(ps[0])
                    r = None
                    if not d:
                        r = ("atstart", p[1]) if b[0] != "gt0" else ("not", ("atstart", p[1])) if k > 0 else ("bool", False)
                    elif d == {("inlen",): -k}:
                        r = ("atend", p[1]) if b[0] != "gt0" else ("not", ("atend", p[1])) if k < 0 else ("bool", False)
                    if r is not None:
                        r = NOT(r) if neg else r
                        t = self.fact(st, r)
                        return r if t is None else ("bool", t)
        return c

    def on_opaque_fn(self, ip, st, f, args, dest, target):
        return None


def offset_of(t):
    """'pos' or 'stk' if t is an offset of a position or of the top of the stack"""
    if t[0] == "fld" and t[1][0] == "pos" and t[2:] == (0, 1):
        return "pos"
    if t[0] == "fld" and t[1] in (("deref", ("stktop",)), ("stktop",)) and t[3] in (1, 2):
        return "stk"
    return None


def soft(c):
    """A comparison of offsets that either outcome is possible for whatever else is known:
    two positions may be equal or not, and what lies on the stack may start and end anywhere."""
    from interp import lin
    if c[0] == "eq":
        ks = [offset_of(t) for t in c[1:3]]
        return all(ks) and c[1] != c[2]
    if c[0] in ("gt0", "eq0"):
        l = lin(c[1])
        if l is None:
            return False
        ks = [offset_of(t) for t in l[0]]
        return len(ks) == 2 and all(ks) and sorted(l[0].values()) == [-1, 1] and (c[0] == "eq0" or "stk" in ks) and ks != ["stk", "stk"]
    return False


def foreign(x):
    if isinstance(x, tuple):
        if len(x) == 3 and x[0] == "if" and isinstance(x[1], tuple) and soft(x[1]):
            return False
        if x and isinstance(x[0], str) and x[0] in FOREIGN:
            # PhantomData and unit-like zero sized values are fine
            return True
        return any(foreign(y) for y in x)
    return False


PHANTOM = ("PhantomData", "Phantom")


def norm_value(v, st):
    """canonical shape of a returned value"""
    if not isinstance(v, tuple) or not v:
        return v
    if v[0] == "agg":
        k = v[1]
        if k == "Box":
            return norm_value(v[3][0], st)
        fs = tuple(norm_value(x, st) for x in v[3] if not is_phantom(x))
        if k in ("Option", "Result", "ControlFlow", "tuple"):
            return ("agg", k, v[2], fs)
        if k == "core::ops::range::Range":
            return ("agg", "range", 0, fs)
        return ("node", v[2], fs)
    if v[0] == "vec":
        n = v[1]
        if st.G == "+":
            d = add(n, ("G",), -1)
        else:
            d = add(n, ("int", st.G or 0), -1)
        if d == ("int", 0):
            return ("items", v[2])
        return ("items", v[2], d)
    return tuple(norm_value(x, st) if isinstance(x, tuple) else x for x in v)


def is_phantom(x):
    if x[0] == "agg" and isinstance(x[1], str):
        n = x[1].split("::")[-1]
        if n == "PhantomData":
            return True
        if n == "Phantom":
            return True
    return False


class RetInterp(NodeInterp):
    def emit_ret(self, st, v):
        return ("ret", norm_value(self.deep(st, v), st))


def self_args(t):
    return t[2] if t[0] == "adt" else ()


def run_node(prog, f, sub, item=None, gcap=3, stack_len=None, opaque=None, maxstates=20000):
    """NFA of a node function.  Returns (nfa, interp)"""
    ip = RetInterp(prog, opaque, maxstates=maxstates)
    ip.gcap = gcap
    n = f["body"]["argc"]
    args = [vocab.IN, ("ref", vocab.STACK, (), True), ("ref", vocab.TRK, (), True)][:n]
    heap = {vocab.STACK: ("stk", "main"), vocab.TRK: ("trk", "main")}
    ghost = {}
    if item:
        ghost["item"] = item
    if stack_len is not None:
        ghost["len"] = stack_len
    st = new_state(ip, f["id"], sub, args, heap, 0 if item else None, ghost)
    nfa = explore(ip, st)
    return nfa, ip


def node_sub(f, inst=None):
    """generic substitution of an impl method: parameters of Self become P0.. / constants"""
    inst = inst or {}
    s = {}
    selft = T(f["self"])
    for i, a in enumerate(self_args(selft)):
        if a[0] == "param":
            s[a[1]] = inst.get(i, ("param", "P%d" % i))
    for g in f["gen"]:
        s.setdefault(g["n"], ("param", "X_" + g["n"]))
    return s


def ref_sub(f, inst=None):
    inst = inst or {}
    return {g["n"]: inst.get(i, ("param", "P%d" % i)) for i, g in enumerate(f["gen"])}


def cint(n):
    return ("cval", "usize", str(n))


# -------------------------------------------------- projections
def proj_stack(l):
    """stack operations, sub-parsers, guards, result; tracker erased"""
    if l[0] == "sub":
        return l[:4] + l[5:]
    if l[0] in ("begin_positive", "begin_negative", "end_polarity", "begin_rule", "end_rule",
                "e_empty", "e_oob", "e_rep"):
        return None
    return l


def proj_track(l):
    if l[0] == "sub":
        return l[:3] + l[4:]
    if l[0] in ("snapshot", "restore", "clear", "push", "pop", "next"):
        return None
    return l


def drop_value(l):
    """forget the node built by a successful parse"""
    if l[0] == "ret":
        v = l[1]
        if v[0] == "agg" and v[1] == "Option" and v[2] == 1:
            x = v[3][0]
            if x[0] == "agg" and x[1] == "tuple" and len(x[3]) == 2:
                return ("ret", ("agg", "Option", 1, (x[3][0],)))
        if v[0] == "agg" and v[1] == "tuple" and len(v[3]) == 2:
            return ("ret", v[3][0])
    return l


def bad_labels(nfa):
    return [l for l in nfa.labels() if foreign(l)]
