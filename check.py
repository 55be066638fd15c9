#!/usr/bin/env python3
"""check.py <property id> | --setup | --all"""
import gc, os, signal, sys, time
gc.disable()      # millions of small tuples: collecting them dominates the run time
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "lib"))
import facts
from interp import Clock
from report import Report


def registry():
    import props_core, props_values, props_rt, props_gen, props_lint, props_misc
    r = dict(props_core.PROPS)
    r.update(props_values.PROPS)
    r.update(props_rt.PROPS)
    r.update(props_gen.PROPS)
    r.update(props_lint.PROPS)
    r.update(props_misc.PROPS)
    return r


def run(pid):
    reg = registry()
    if pid not in reg:
        print("unknown property", pid)
        return 2
    try:
        prog = facts.program()
    except facts.BuildError as e:
        print("cannot analyse the tree: %s" % e)
        return 2
    rep = Report(pid)
    Clock.start = time.monotonic()

    def late(*_):
        raise TimeoutError("the analysis takes too long")
    signal.signal(signal.SIGALRM, late)
    signal.alarm(600)
    try:
        reg[pid](rep, prog)
        signal.alarm(0)
    except Exception:
        # code the analysis cannot digest leaves the question open; what was found before stands
        import traceback
        traceback.print_exc()
        rep.unsure("internal", "", traceback.format_exc()[-600:])
    signal.alarm(0)
    return rep.finish()


def main(a):
    if a == ["--setup"]:
        try:
            facts.program()
        except facts.BuildError as e:
            print(e)
            return 1
        print("ready")
        return 0
    if a == ["--all"]:
        rc = 0
        for p in sorted(registry()):
            rc |= run(p)
        return rc
    return run(a[0])


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
