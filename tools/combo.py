#!/usr/bin/env python3
"""Writes witness/g/combo.pest and witness/g/nest.pest: every operator around every operator."""
import os
G = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "witness", "g")
POST = ["?", "*", "+", "{3}", "{2..}", "{..3}", "{1..2}", "~*", "^*", "~+", "^+", "~{2}", "^{2}", "~{2..}", "^{2..}", "~{..2}", "^{..2}", "~{1..3}", "^{1..3}"]
PRE = ["&", "!"]
CALL = ["pest::stack::push(%s)", "own(%s)", "shown(%s)", "both(%s, d)", "both(d, %s)"]
BIN = ["-", "~", "^", "|"]
U = [("%s" + p, "post") for p in POST] + [(p + "%s", "pre") for p in PRE] + [(c, "call") for c in CALL]
U = [(u.replace("%s{", "%s{"), k) for u, k in U]


def app(u, x, kind):
    """operator u around the expression x of the given kind"""
    t, k = u
    if k != "call" and kind == "bin" or k == "post" and kind == "pre":
        x = "(" + x + ")"
    return t % x


def binary(op, l, lk, r, rk, keep):
    if lk == "bin" and (keep or True):
        l = "(" + l + ")"
    if rk == "bin":
        r = "(" + r + ")"
    return "%s %s %s" % (l, op, r)


def leaves():
    i = 0
    ls = ["a", '"x%d"', "b", "'c'..'f'", 'i"Y%d"', "c", "pest::any", "pest::stack::pop", "pest::stack::peek[0..1]", "d"]
    while True:
        l = ls[i % len(ls)]
        yield l % i if "%d" in l else l
        i += 1


def combos():
    lv = leaves()
    for u1 in U:
        for u2 in U:
            yield app(u1, app(u2, next(lv), "leaf"), u2[1]), u1[1]
    for u in U:
        for op in BIN:
            yield app(u, binary(op, next(lv), "leaf", next(lv), "leaf", 0), "bin"), u[1]
            yield binary(op, app(u, next(lv), "leaf"), u[1], next(lv), "leaf", 0), "bin"
            yield binary(op, next(lv), "leaf", app(u, next(lv), "leaf"), u[1], 0), "bin"
    for o1 in BIN:
        for o2 in BIN:
            x, y, z = next(lv), next(lv), next(lv)
            yield binary(o1, binary(o2, x, "leaf", y, "leaf", 0), "bin", z, "leaf", 0), "bin"
            yield binary(o1, x, "leaf", binary(o2, y, "leaf", z, "leaf", 0), "bin", 0), "bin"
            yield "%s %s %s %s %s" % (x, o1, y, o2, z), "bin"


HEAD = '''a = "a"
b = "b"
c = "c"
d = "d"
own(x)   = x - "o"
shown(x) = _{ x - "s" }
both(x, y) = _{ (x ~ y | x) - y? }
~ = " "*
^ = " "+
'''


def main():
    out, row, n = [HEAD], [], 0
    items = list(combos())
    per = 11
    for i in range(0, len(items), per):
        part = items[i:i + per]
        op = [" | ", " - ", " ~ "][n % 3]
        out.append("r_%d = %s\n" % (n, op.join("(%s)" % x if k == "bin" else x for x, k in part)))
        n += 1
    with open(os.path.join(G, "combo.pest"), "w") as f:
        f.write("".join(out))
    # the same within a silent rule, around a parameter
    out, n = [HEAD], 0
    V = [("%s?", "post"), ("%s*", "post"), ("%s~{2}", "post"), ("%s^{1..3}", "post"), ("&%s", "pre"), ("!%s", "pre"),
         ("%s - c", "bin"), ("c ~ %s", "bin"), ("%s | c", "bin"), ("c | %s", "bin"), ("own(%s)", "call"), ("shown(%s)", "call"),
         ("(c - %s)*", "post")]
    for i, u1 in enumerate(V):
        for j, u2 in enumerate(V):
            out.append("n_%d_%d = %s\n" % (i, j, app(u1, app(u2, "a" if (i + j) % 2 else "a - b" if u2[1] == "call" else "b", "leaf"), u2[1])))
    with open(os.path.join(G, "nest.pest"), "w") as f:
        f.write("".join(out))


main()
