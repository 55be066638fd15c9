#!/usr/bin/env python3
"""seedtest.py [-n] ID...: validate planted changes in a scratch copy and run the checks on them.
-n: only run the checks (all properties), skip tests and demos."""
import json, os, subprocess, sys, shutil, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "/tmp/seedrepo"


def sh(c, **k):
    r = subprocess.run(c, shell=isinstance(c, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
    return r.returncode, r.stdout


def reset():
    if not os.path.exists(S):
        sh(["cp", "-a", "/repo", S])
    h = sh(["git", "-C", "/repo", "rev-parse", "HEAD"])[1].strip()
    sh(["git", "-C", S, "fetch", "-q", "/repo", "HEAD"])
    sh(["git", "-C", S, "checkout", "-q", "-f", h])
    sh("rm -f %s/generator/tests/generated*.rs" % S)


def tests():
    env = ". /opt/vp/env.sh; cd %s; rm -f generator/tests/generated*.rs; " % S
    rc, o = sh(["bash", "-c", env + "timeout -k 10 840 cargo test --workspace --no-fail-fast --offline -- --test-threads 8 > /tmp/seed.log 2>&1; rm -f generator/tests/generated*.rs; python3 /opt/vp/results.py /tmp/seed.json cargo:/tmp/seed.log"])
    try:
        r = json.load(open("/tmp/seed.json"))
    except Exception:
        return ["no results: " + o[-300:]]
    st = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    return [t for t in st if t not in set(r["passed"])]


def demo(i):
    return sh(["timeout", "300", "bash", os.path.join(V, "seeded", i, "demo.sh")], cwd=S)


def main(a):
    only = "-n" in a
    ids = [x for x in a if not x.startswith("-")]
    if not ids:
        ids = sorted(os.listdir(os.path.join(V, "seeded")))
    for i in ids:
        d = os.path.join(V, "seeded", i)
        prop = json.load(open(os.path.join(d, "meta.json")))["property"]
        reset()
        msg = []
        if not only:
            rc, o = demo(i)
            if rc:
                msg.append("demo fails on base: " + o[-600:])
        rc, o = sh(["git", "-C", S, "apply", os.path.join(d, "patch.diff")])
        if rc:
            print(i, "patch does not apply:", o)
            continue
        if not only:
            f = tests()
            if f:
                msg.append("tests fail: " + str(f[:5]))
            rc, o = demo(i)
            if rc == 0:
                msg.append("demo passes with the patch")
            if "error: could not compile" in o and "--show" in a:
                msg.append(o[-500:])
        e = dict(os.environ, VERIF_REPO=S)
        rc, o = sh([sys.executable, os.path.join(V, "check.py"), prop if not "--all" in a else "--all"], env=e)
        caught = re.findall(r"VIOLATION property=(\S+)", o)
        print("%-22s %s %s %s %s" % (i, prop, "CAUGHT" if prop in caught else "MISSED", [c for c in caught if c != prop], "; ".join(msg) or "valid"))
        if "-v" in a or (prop not in caught):
            print("   ", o.strip()[-700:])
        sys.stdout.flush()
    reset()


main(sys.argv[1:])
