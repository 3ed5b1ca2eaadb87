#!/usr/bin/env python3
"""python3 bin/check.py C01 [--thorough]   decides one property against /repo's working tree."""
import importlib, os, signal, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "checks"))
if "--thorough" in sys.argv:
    os.environ["VERIF_TIER"] = "thorough"
sys.dont_write_bytecode = True
import vf

class TimeUp(BaseException):
    pass


def time_up(*_):
    raise TimeUp()


def main():
    pid = sys.argv[1]
    mod = importlib.import_module(pid.lower())
    if vf.TIER != "thorough":              # an answer on what was explored rather than none
        signal.signal(signal.SIGALRM, time_up)
        signal.alarm(680)
    try:
        rc = mod.main()
    except vf.Stop as e:
        rc = e.args[0].finish("stopped at the first violation")
    except TimeUp:
        chk = vf.Check.current
        chk.degraded.append("stopped after 680 seconds")
        rc = chk.finish("stopped after 680 seconds")
    except Exception:
        traceback.print_exc()
        print("ERROR: the check of %s could not be carried out" % pid)
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)

main()
