#!/usr/bin/env python3
"""check.py <property id>: decides one property (see DESIGN.md)."""
import sys, os, json, traceback, warnings, signal
sys.dont_write_bytecode = True
os.environ.setdefault("OMP_NUM_THREADS", "2")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "2")
PY = "/opt/venv/bin/python"
if os.path.exists(PY) and not sys.prefix.startswith("/opt/venv"):
    os.execv(PY, [PY] + sys.argv)
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, "harness"))
warnings.simplefilter("ignore")
import importlib
import qv


def main():
    pid = sys.argv[1]
    chk = qv.Check(pid)
    signal.signal(signal.SIGALRM, lambda *a: (_ for _ in ()).throw(qv.MachineryError("time limit")))
    signal.alarm(870)
    qv.watch(450)
    try:
        mod = importlib.import_module("checks." + pid.lower())
        mod.run(chk)
    except qv.MachineryError as e:
        if chk.viol:
            sys.exit(chk.finish())
        print("MACHINERY-ERROR " + str(e)[:4000])
        sys.exit(2)
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        txt = traceback.format_exc()
        # an exception out of the code under test, in a situation where none may occur
        if isinstance(e, (qv.LibraryError, qv.Hang)) or any(os.path.realpath(f.filename).startswith(os.path.realpath(qv.REPO) + "/") for f in tb) or \
           isinstance(e, ImportError) and "blueqat" in str(e):
            chk.violation("unexpected exception from the library: " + repr(e), {"traceback": txt})
            print(txt[-1500:])
            sys.exit(chk.finish())
        if chk.viol:
            print(txt[-1500:])
            sys.exit(chk.finish())
        print(txt)
        print("MACHINERY-ERROR")
        sys.exit(2)
    sys.exit(chk.finish())


main()
