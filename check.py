#!/usr/bin/env python3
"""check.py ID: decides one property of /repo's current working tree."""
import importlib, os, signal, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
from sa.common import Report, load_program, CheckError
from sa.registry import CHECKS


LIMIT = 700     # seconds: what is not decided by then is reported as undecided


class Timeout(BaseException):
    pass


def late(*_):
    raise Timeout()


def main():
    pid = sys.argv[1]
    if len(sys.argv) > 2:
        os.environ['VERIF_TIER'] = sys.argv[2]
    mod, fn, needs, technique = CHECKS[pid]
    rep = Report(pid, technique)
    try:
        p = load_program() if needs else None
        m = importlib.import_module('sa.' + mod)
        signal.signal(signal.SIGALRM, late)
        signal.alarm(LIMIT)
        getattr(m, fn)(p, rep)
    except CheckError as e:
        print('ERROR: %s' % e)
        return 2
    except Timeout:
        rep.unk('the analysis was stopped after %d s; what it had not reached is undecided' % LIMIT)
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)[-1]
        rep.unk('the analysis stopped: %s %s (%s:%d)' % (type(e).__name__, e, os.path.basename(tb.filename), tb.lineno))
    signal.alarm(0)
    return rep.finish()


if __name__ == '__main__':
    sys.exit(main())
