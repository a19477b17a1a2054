"""Runs cases of one property against the real code (imported from /repo/src) and
writes the recorded sessions.   worker.py PROP CASES.json OUT.json [--limit S]"""
import importlib
import json
import os
import signal
import sys
import traceback
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
sys.path.insert(0, os.environ.get("VF_REPO", "/repo") + "/src")
sys.dont_write_bytecode = True
warnings.filterwarnings("ignore")


class CaseTimeout(BaseException):
    pass


def _alarm(sig, frame):
    raise CaseTimeout()


def main():
    prop, cases_file, out_file = sys.argv[1:4]
    limit = int(sys.argv[4]) if len(sys.argv) > 4 else 60
    with open(cases_file) as f:
        cases = json.load(f)
    import numpy as np

    np.seterr(all="ignore")
    sink = open(os.devnull, "w")
    sys.stdout = sink
    mod = importlib.import_module("harness.props." + prop.lower())
    # the limit is on processor time, so that a busy machine is not mistaken for a fit that hangs
    signal.signal(signal.SIGPROF, _alarm)
    signal.signal(signal.SIGALRM, _alarm)
    with open(out_file, "w") as out:
        for case in cases:
            np.random.seed(12345)
            signal.setitimer(signal.ITIMER_PROF, limit)
            signal.alarm(6 * limit)
            try:
                events = mod.run_case(case)
                err = None
            except CaseTimeout:
                events, err = [], "timeout"
            except Exception:
                events, err = [], traceback.format_exc()
            finally:
                signal.setitimer(signal.ITIMER_PROF, 0)
                signal.alarm(0)
            rec = {"id": case["id"], "events": events}
            if err:
                rec["error"] = err
            out.write(json.dumps(rec) + "\n")
            out.flush()


if __name__ == "__main__":
    main()
