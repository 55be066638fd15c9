"""Pretty printer of the JSON MIR (for people)."""
import sys


def ty(t):
    k = t["k"]
    if k == "prim":
        return t["n"]
    if k == "adt":
        n = t["p"].split("::")[-1]
        return n + ("<" + ",".join(map(ty, t["a"])) + ">" if t["a"] else "")
    if k == "ref":
        return "&" + ("mut " if t["m"] else "") + ty(t["t"])
    if k == "ptr":
        return "*" + ty(t["t"])
    if k == "slice":
        return "[" + ty(t["t"]) + "]"
    if k == "array":
        return "[" + ty(t["t"]) + ";" + ty(t["n"]) + "]"
    if k == "tuple":
        return "(" + ",".join(map(ty, t["a"])) + ")"
    if k in ("param", "cparam"):
        return t["n"]
    if k == "cval":
        return str(t["v"])
    if k in ("closure", "fndef", "proj"):
        return k + ":" + "::".join(t["p"].split("::")[-2:]) + ("<" + ",".join(map(ty, t["a"])) + ">" if k != "closure" and t["a"] else "")
    return t.get("v", k)


def place(p):
    s = "_%d" % p["l"]
    for e in p["p"]:
        if e == "*":
            s = "(*%s)" % s
        elif "f" in e:
            s += ".%d" % e["f"]
        elif "d" in e:
            s += "@%d" % e["d"]
        elif "i" in e:
            s += "[_%d]" % e["i"]
        elif "ci" in e:
            s += "[%s%d]" % ("-" if e["fe"] else "", e["ci"])
        else:
            s += str(e)
    return s


def const(c):
    k = c["k"]
    if k == "int":
        return "%s_%s" % (c["v"], ty(c["t"]))
    if k in ("str", "bytes"):
        return repr(c["v"])
    if k == "zst":
        return "zst:" + ty(c["t"])
    if k == "uneval":
        return "uneval:" + c["d"].split("::")[-1] + "<" + ",".join(map(ty, c["a"])) + ">" + (("=" + const(c["v"])) if "v" in c else "")
    if k == "promoted":
        return "promoted%d" % c["i"]
    if k == "ref":
        return "&" + const(c["v"])
    if k == "cparam":
        return c["n"]
    return str(c)


def op(o):
    if "c" in o:
        return place(o["c"])
    if "m" in o:
        return "move " + place(o["m"])
    if "k" in o:
        return const(o["k"])
    return str(o)


def rv(r):
    k = r["r"]
    if k == "use":
        return op(r["o"])
    if k == "ref":
        return "&" + ("mut " if r["m"] else "") + place(r["p"])
    if k == "bin":
        return "%s(%s, %s)" % (r["op"], op(r["x"]), op(r["y"]))
    if k == "un":
        return "%s(%s)" % (r["op"], op(r["o"]))
    if k == "discr":
        return "discr(%s)" % place(r["p"])
    if k == "agg":
        n = r["k"]
        if n == "adt":
            n = r["p"].split("::")[-1] + "#%d" % r["v"]
        if n == "closure":
            n = "closure " + r["p"]
        return n + "(" + ", ".join(map(op, r["fs"])) + ")"
    if k == "cast":
        return "%s as %s [%s]" % (op(r["o"]), ty(r["t"]), r["ck"][:20])
    return str(r)


def body(b, out, ind="  "):
    nm = {}
    for n in b["names"]:
        nm.setdefault(place(n["p"]), n["n"])
    for i, t in enumerate(b["locals"]):
        out.append("%slet _%d: %s%s" % (ind, i, ty(t), "  // " + nm["_%d" % i] if "_%d" % i in nm else ""))
    for k, v in nm.items():
        if not k[1:].isdigit():
            out.append("%sname %s = %s" % (ind, v, k))
    for i, bb in enumerate(b["blocks"]):
        if bb.get("cl"):
            continue
        out.append("%sbb%d:" % (ind, i))
        for s in bb["s"]:
            if "r" in s:
                out.append("%s  %s = %s" % (ind, place(s["p"]), rv(s["r"])))
            else:
                out.append("%s  %s" % (ind, s))
        t = bb["t"]
        k = t["t"]
        if k == "goto":
            out.append("%s  goto bb%d" % (ind, t["to"]))
        elif k == "switch":
            out.append("%s  switch %s %s else bb%d" % (ind, op(t["d"]), ["%d->bb%d" % tuple(c) for c in t["cs"]], t["el"]))
        elif k == "call":
            c = t.get("cp", op(t["f"]))
            extra = "<" + ",".join(map(ty, t.get("ca", []))) + ">"
            if "rp" in t:
                extra += " => " + t["rp"]
            out.append("%s  %s = %s%s(%s) -> %s   [%s]" % (ind, place(t["p"]), c, extra, ", ".join(map(op, t["a"])), t.get("to"), t["l"].split("/")[-1]))
        elif k == "drop":
            out.append("%s  drop %s -> bb%d" % (ind, place(t["p"]), t["to"]))
        elif k == "assert":
            out.append("%s  assert %s == %s %s -> bb%d" % (ind, op(t["c"]), t["e"], t["msg"], t["to"]))
        else:
            out.append("%s  %s" % (ind, k))


def fn(f):
    out = ["fn %s  [%s] %s" % (f["path"], f["id"], f["loc"])]
    if "self" in f:
        out.append("  impl %s for %s" % (f.get("trait"), ty(f["self"])))
    body(f["body"], out)
    for i, p in enumerate(f.get("promoted", [])):
        out.append("  promoted %d" % i)
        body(p, out, "    ")
    return "\n".join(out)


if __name__ == "__main__":
    import facts
    P = facts.program()
    for f in P.fns.values():
        if sys.argv[1] in f["path"] or sys.argv[1] == f["id"]:
            print(fn(f))
            print()
