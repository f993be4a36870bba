#!/usr/bin/env python3
"""check.py <property id> [--deep]: decide one property from /repo's current source."""
import importlib, os, signal, sys, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import run


def main():
    pid = sys.argv[1]
    if pid == "--setup":
        run.build_driver()
        run.analyse({"entries": ["nothing"]})
        print("driver built")
        return 0
    m = importlib.import_module("rules." + pid.lower())
    ck = run.Check(pid, m.WHAT, getattr(m, "ASSUMES", ()))
    ck.deep = "--deep" in sys.argv[2:]

    def late(*_):
        raise TimeoutError

    signal.signal(signal.SIGALRM, late)
    signal.alarm(780)           # what is not decided by then is reported as undecided
    try:
        m.check(ck)
    except TimeoutError:
        ck.undecided("the rest of the rule", "time")
    except run.Broken as e:
        print(e)
        return 2
    except Exception as e:      # the rule met something it was not written for
        traceback.print_exc()
        ck.undecided("the rest of the rule", f"{type(e).__name__}: {e}"[:300])
    signal.alarm(0)
    return ck.finish()


if __name__ == "__main__":
    sys.exit(main())
