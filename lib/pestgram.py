"""An independent reader of pest3 grammars: text -> syntax tree -> the type each rule should have.

It follows the documentation of the grammar language, not the code of pest3_meta, and serves as the
oracle for the type-level witnesses (witness/)."""
import os, re


class Bad(Exception):
    pass


TOKEN = re.compile(r"""
   (?P<ws>[ \t\r\n]+|//(?![/!])[^\n]*)
 | (?P<doc>//[/!][^\n]*)
 | (?P<raw>r(?P<h>\#*)"(?:.|\n)*?"(?P=h))
 | (?P<ins>i"(?:\\.|[^"\\])*")
 | (?P<str>"(?:\\.|[^"\\])*")
 | (?P<chr>'(?:\\u\{[0-9a-fA-F]+\}|\\x[0-9a-fA-F]{2}|\\.|[^\\])')
 | (?P<num>[0-9]+)
 | (?P<id>[A-Za-z_][A-Za-z0-9_]*)
 | (?P<op>\.\.|::|[-~^|?*+&!=(){}\[\],])
""", re.X)


def lex(s):
    i, out, depth = 0, [], 0
    while i < len(s):
        if s.startswith("/*", i):
            j, d = i + 2, 1
            while d:
                if s.startswith("/*", j):
                    d += 1; j += 2
                elif s.startswith("*/", j):
                    d -= 1; j += 2
                else:
                    j += 1
            i = j
            continue
        m = TOKEN.match(s, i)
        if not m:
            raise Bad("lex at %r" % s[i:i + 20])
        i = m.end()
        k = m.lastgroup
        if k == "h":
            k = "raw"
        if k != "ws":
            out.append((k, m.group()))
    return out + [("end", "")]


def unescape(s):
    out, i = "", 0
    while i < len(s):
        c = s[i]
        if c != "\\":
            out += c
            i += 1
            continue
        e = s[i + 1]
        if e == "x":
            out += chr(int(s[i + 2:i + 4], 16))
            i += 4
        elif e == "u":
            j = s.index("}", i)
            out += chr(int(s[i + 3:j], 16))
            i = j + 1
        else:
            out += {'"': '"', "\\": "\\", "r": "\r", "n": "\n", "t": "\t", "0": "\0", "'": "'"}[e]
            i += 2
    return out


class Grammar:
    def __init__(self):
        self.docs, self.rules, self.imports = [], [], []

    def rule(self, n):
        for r in self.rules:
            if r["name"] == n:
                return r


class Parser:
    def __init__(self, text):
        self.t = lex(text)
        self.i = 0

    def peek(self, k=0):
        return self.t[min(self.i + k, len(self.t) - 1)]

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def at(self, *ops):
        k, v = self.peek()
        return k == "op" and v in ops

    def eat(self, op):
        k, v = self.next()
        if v != op:
            raise Bad("expected %s, found %s" % (op, v))

    def grammar(self):
        g = Grammar()
        while self.peek()[0] == "doc" and self.peek()[1].startswith("//!"):
            g.docs.append(self.next()[1][3:].strip())
        while self.peek()[0] != "end":
            k, v = self.peek()
            if k == "id" and v == "use" and self.peek(1)[0] == "id":
                self.next()
                path = [self.next()[1]]
                while self.at("::"):
                    self.next()
                    path.append(self.next()[1])
                file = alias = None
                if self.peek() == ("id", "in"):
                    self.next()
                    file = unescape(self.next()[1][1:-1])
                if self.peek() == ("id", "as"):
                    self.next()
                    alias = self.next()[1]
                g.imports.append(dict(path=path, file=file, alias=alias or path[-1]))
                continue
            docs = []
            while self.peek()[0] == "doc":
                docs.append(self.next()[1][3:].strip())
            name = self.next()[1]
            args = []
            if self.at("("):
                self.next()
                while not self.at(")"):
                    args.append(self.next()[1])
                    if self.at(","):
                        self.next()
                self.next()
            self.eat("=")
            silent = False
            if self.peek() == ("id", "_"):
                self.next()
                silent = True
            braces = self.at("{")
            if braces:
                self.next()
            e = self.expr()
            if braces:
                self.eat("}")
            g.rules.append(dict(name=name, args=args, silent=silent, docs=docs, expr=e))
        return g

    # choice binds weaker than the sequences; the sequence operators share one level
    def expr(self):
        if self.at("|"):
            self.next()
        alts = [self.seq()]
        while self.at("|"):
            self.next()
            alts.append(self.seq())
        if len(alts) == 1:
            return alts[0]
        # a choice in last position continues the choice
        if alts[-1][0] == "choice":
            alts[-1:] = alts[-1][1]
        return ("choice", alts)

    def starts_rule(self):
        """`^ =`, `~ =` after a complete expression begin the next rule"""
        return self.at("~", "^") and self.peek(1) == ("op", "=")

    def seq(self):
        xs = [("-", self.term())]
        while self.at("-", "~", "^") and not self.starts_rule():
            op = self.next()[1]
            xs.append((op, self.term()))
        if len(xs) == 1:
            return xs[0][1]
        op, last = xs[-1]
        if last[0] == "seq":
            ys = last[1]
            xs[-1:] = [(op, ys[0][1])] + ys[1:]
        return ("seq", xs)

    def term(self):
        pre = []
        while self.at("&", "!"):
            pre.append(self.next()[1])
        e = self.atom()
        while True:
            tr = "-"
            if self.at("~", "^") and self.peek(1)[0] == "op" and self.peek(1)[1] in "?*+{":
                tr = self.next()[1]
            if self.at("?"):
                self.next()
                e = ("opt", e)
            elif self.at("*"):
                self.next()
                e = ("rep", e, tr, 0, None)
            elif self.at("+"):
                self.next()
                e = ("rep", e, tr, 1, None)
            elif self.at("{"):
                self.next()
                a = b = None
                if self.peek()[0] == "num":
                    a = b = int(self.next()[1])
                if self.at(".."):
                    self.next()
                    b = int(self.next()[1]) if self.peek()[0] == "num" else None
                self.eat("}")
                e = ("rep", e, tr, a or 0, b)
            else:
                break
        for p in reversed(pre):
            e = ("pos" if p == "&" else "neg", e)
        return e

    def atom(self):
        k, v = self.next()
        if v == "(" and k == "op":
            e = self.expr()
            self.eat(")")
            return e
        if k == "str":
            return ("str", unescape(v[1:-1]))
        if k == "ins":
            return ("insens", unescape(v[2:-1]))
        if k == "raw":
            h = len(v) - len(v[1:].lstrip("#")) - 1
            return ("str", v[2 + h:len(v) - 1 - h])
        if k == "chr":
            self.eat("..")
            return ("range", unescape(v[1:-1]), unescape(self.next()[1][1:-1]))
        if k == "id":
            path = [v]
            while self.at("::"):
                self.next()
                path.append(self.next()[1])
            if self.at("("):
                self.next()
                args = []
                while not self.at(")"):
                    args.append(self.expr())
                    if self.at(","):
                        self.next()
                self.next()
                return ("path", path, ("call", args))
            if self.at("["):
                self.next()
                b = []
                while not self.at("]"):
                    t = ""
                    while not self.at("..", "]"):
                        t += self.next()[1]
                    b.append(int(t) if t else None)
                    if self.at(".."):
                        self.next()
                        b.append(None) if self.at("]") else None
                self.next()
                b = (b + [None, None])[:2]
                return ("path", path, ("slice", b[0], b[1]))
            return ("path", path, None)
        raise Bad("unexpected " + v)


def read(path):
    with open(path, newline="") as f:
        return Parser(f.read()).grammar()


# ------------------------------------------------------------------ expected types
CORE = "pest3_core::"
TPL = CORE + "typed::template::"
EMPTY = ("adt", TPL + "Empty", ())
MAX = ("cval", "usize", str(2 ** 64 - 1))


def usz(n):
    return ("cval", "usize", str(n))


class Module:
    """a grammar as a Rust module"""

    def __init__(self, g, rust, file, rules_mod="rules", root=True, prog=None):
        self.g, self.rust, self.file, self.rules_mod, self.root, self.prog = g, rust, file, rules_mod, root, prog
        self.children = {}
        self.builtin = {}
        for im in g.imports:
            if im["path"][0] == "pest":
                self.builtin[im["alias"]] = im["path"]
                continue
            d = os.path.dirname(file)
            f = im["file"] and os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "witness", im["file"]) or os.path.join(d, *[".." if x == "super" else x for x in im["path"]]) + ".pest"
            self.children[im["alias"]] = Module(read(f), "%s::%s::%s" % (rust, rules_mod, im["alias"]), f, rules_mod, False, prog)
        self.inline = {r["name"]: r for r in g.rules if r["silent"] and r["args"]} if root else {}

        if root:
            for r in g.rules:
                if r["name"] not in self.inline:
                    r["expr"] = self.expand(r["expr"], r["args"])

    def expand(self, e, params):
        """`e` with the silent rules that have parameters expanded in place; `params` are those of the rule it is in"""
        k = e[0]
        go = lambda x: self.expand(x, params)
        if k in ("opt", "pos", "neg", "rep"):
            return (k, go(e[1])) + e[2:]
        if k == "choice":
            return (k, flat_choice([go(x) for x in e[1]]))
        if k == "seq":
            return (k, flat_seq([(o, go(x)) for o, x in e[1]]))
        if k == "path" and e[2] and e[2][0] == "call":
            args = [go(x) for x in e[2][1]]
            if len(e[1]) == 1 and e[1][0] in self.inline:
                r = self.inline[e[1][0]]
                b = outside(self.expand(r["expr"], r["args"]), set(r["args"]), set(params))
                return subst(b, dict(zip(r["args"], args)))
            return ("path", e[1], ("call", args))
        return e

    def rules(self):
        return [r for r in self.g.rules if r["name"] not in "~^" and r["name"] not in self.inline]

    def trivia(self, op):
        if op == "-":
            return EMPTY
        r = self.g.rule(op)
        return self.type(r["expr"], r) if r else EMPTY

    def rule_type(self, r):
        return self.type(r["expr"], r)

    def path(self, name):
        return "%s::%s::%s" % (self.rust, self.rules_mod, name)

    def type(self, e, rule):
        k = e[0]
        ty = lambda x: self.type(x, rule)
        if k == "str":
            return ("Str", e[1])
        if k == "insens":
            return ("Insens", e[1])
        if k == "range":
            return ("adt", TPL + "CharRange", (("cval", "char", str(ord(e[1]))), ("cval", "char", str(ord(e[2])))))
        if k == "opt":
            return ("adt", "core::option::Option", (ty(e[1]),))
        if k == "rep":
            return ("adt", TPL + "repetition::RepMinMax", (ty(e[1]), self.trivia(e[2]), usz(e[3]), usz(e[4]) if e[4] is not None else MAX))
        if k == "pos":
            return ("adt", TPL + "Positive", (ty(e[1]),))
        if k == "neg":
            return ("adt", TPL + "Negative", (ty(e[1]),))
        if k == "choice":
            return ("adt", "Choice", tuple(ty(x) for x in e[1]))
        if k == "seq":
            return ("adt", "Sequence", tuple(y for op, x in e[1] for y in (ty(x), self.trivia(op))))
        assert k == "path", e
        path, args = e[1], e[2]
        if len(path) == 1 and path[0] in rule["args"]:
            return ("param", path[0])
        if path[0] in self.builtin:
            path = self.builtin[path[0]] + path[1:]
        if path[0] == "#self":
            path = path[1:]
        targs = tuple(ty(x) for x in args[1]) if args and args[0] == "call" else ()
        if path[0] == "pest":
            return self.builtin_type(path[1:], args, targs)
        m = self
        for s in path[:-1]:
            m = m.children[s]
        return ("adt", m.path(path[-1]), targs)

    def builtin_type(self, path, args, targs):
        if path[0] == "unicode":
            return ("adt", CORE + "typed::unicode::" + path[1].upper(), ())
        n = path[-1]
        if args and args[0] == "slice":
            c = lambda x: ("cval", "isize", str(x))
            if args[2] is None:
                return ("adt", TPL + "PeekSlice1", (c(args[1] or 0),))
            return ("adt", TPL + "PeekSlice2", (c(args[1] or 0), c(args[2])))
        return ("builtin", n, targs)


def outside(e, own, params):
    """mark the names in an expanded body that are not its own parameters but are named like the caller's"""
    k = e[0]
    go = lambda x: outside(x, own, params)
    if k in ("opt", "pos", "neg", "rep"):
        return (k, go(e[1])) + e[2:]
    if k == "choice":
        return (k, [go(x) for x in e[1]])
    if k == "seq":
        return (k, [(o, go(x)) for o, x in e[1]])
    if k == "path":
        p = e[1]
        if len(p) == 1 and p[0] in params and p[0] not in own:
            p = ["#self"] + p
        a = e[2]
        if a and a[0] == "call":
            a = ("call", [go(x) for x in a[1]])
        return ("path", p, a)
    return e


def subst(e, m):
    k = e[0]
    if k == "path":
        if len(e[1]) == 1 and e[2] is None and e[1][0] in m:
            return m[e[1][0]]
        if e[2] and e[2][0] == "call":
            return ("path", e[1], ("call", [subst(x, m) for x in e[2][1]]))
        return e
    if k in ("opt", "pos", "neg"):
        return (k, subst(e[1], m))
    if k == "rep":
        return (k, subst(e[1], m)) + e[2:]
    if k == "choice":
        return (k, flat_choice([subst(x, m) for x in e[1]]))
    if k == "seq":
        return (k, flat_seq([(o, subst(x, m)) for o, x in e[1]]))
    return e


def flat_seq(xs):
    op, last = xs[-1]
    if last[0] == "seq":
        ys = last[1]
        return xs[:-1] + [(op, ys[0][1])] + ys[1:]
    return xs


def flat_choice(xs):
    return xs[:-1] + xs[-1][1] if xs[-1][0] == "choice" else xs
