#!/usr/bin/env python3
"""mkseed.py ID PROPERTY FILE <spec on stdin>: write a planted change.
spec: sections '@@old', '@@new' (replacement in FILE; repeatable, '@@file X' switches), '@@needs', '@@breaks',
'@@main' (main.rs of the demo), '@@demo' (demo.sh instead), '@@dep' (extra Cargo dependency lines)."""
import os, subprocess, sys, json, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "/tmp/seedrepo"
DEMO = '''#!/bin/bash
# builds a small program against the tree in the current directory and runs it
D="$(cd "$(dirname "$0")" && pwd)"; R="$PWD"; T="$(mktemp -d)"
trap 'rm -rf "$T"' EXIT
mkdir -p "$T/src"
sed "s#@REPO@#$R#g" "$D/Cargo.toml.in" > "$T/Cargo.toml"
cp "$R/Cargo.lock" "$T/Cargo.lock"
cp "$D/main.rs" "$T/src/main.rs"
cd "$T" && CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$T/target" cargo run --offline -q
'''
TOML = '''[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
pest3 = { path = "@REPO@/pest" }
pest3_core = { path = "@REPO@/core" }
pest3_derive = { path = "@REPO@/derive" }
%s
[workspace]
'''


def sh(*c):
    return subprocess.run(c, stdout=subprocess.PIPE, text=True, check=True).stdout


def main(i, prop, file):
    if not os.path.exists(S):
        sh("cp", "-a", "/repo", S)
    h = sh("git", "-C", "/repo", "rev-parse", "HEAD").strip()
    sh("git", "-C", S, "fetch", "-q", "/repo", "HEAD")
    sh("git", "-C", S, "checkout", "-q", "-f", h)
    sec = re.split(r"^@@(\w+)(?: (.*))?\n", sys.stdin.read(), flags=re.M)[1:]
    d = os.path.join(V, "seeded", i)
    os.makedirs(d, exist_ok=True)
    meta = {"property": prop}
    old = None
    deps = ""
    for k in range(0, len(sec), 3):
        t, arg, body = sec[k], sec[k + 1], sec[k + 2]
        if t == "file":
            file = arg.strip()
        elif t == "old":
            old, nth = body.rstrip("\n"), int(arg or 0)
        elif t == "new":
            p = os.path.join(S, file)
            s = open(p).read()
            n = s.count(old)
            assert n >= 1, "old text not found: " + old
            assert n == 1 or nth, "old text occurs %d times" % n
            if nth:
                parts = s.split(old)
                s = old.join(parts[:nth]) + body.rstrip("\n") + old.join(parts[nth:])
            else:
                s = s.replace(old, body.rstrip("\n"))
            open(p, "w").write(s)
        elif t == "needs":
            meta["needs"] = " ".join(body.split())
        elif t == "breaks":
            meta["what_it_breaks"] = " ".join(body.split())
        elif t == "main":
            open(os.path.join(d, "main.rs"), "w").write(body)
            open(os.path.join(d, "demo.sh"), "w").write(DEMO)
        elif t == "demo":
            open(os.path.join(d, "demo.sh"), "w").write(body)
        elif t == "dep":
            deps = body
        else:
            raise SystemExit("unknown section " + t)
    if os.path.exists(os.path.join(d, "main.rs")):
        open(os.path.join(d, "Cargo.toml.in"), "w").write(TOML % deps)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    open(os.path.join(d, "patch.diff"), "w").write(sh("git", "-C", S, "diff"))
    json.dump(meta, open(os.path.join(d, "meta.json"), "w"), indent=1)
    sh("git", "-C", S, "checkout", "-q", "-f", h)
    print(open(os.path.join(d, "patch.diff")).read())


main(*sys.argv[1:4])
