#!/usr/bin/env python3
"""Run one property check:  check.py --prop C01 [--tier quick|thorough]"""
import argparse
import ctypes
import importlib
import os
import sys
import time
import traceback

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)

from sa.props import PROPS            # noqa: E402
from sa.project import Project, AnalysisBroken   # noqa: E402
from sa.report import Report, finish  # noqa: E402


class TimeUp(BaseException):
    """the time for one check is over: what was decided so far is reported"""


LIMIT = float(os.environ.get('VERIF_LIMIT', '660'))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--prop', required=True)
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--trace', action='store_true')
    a = ap.parse_args()
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    spec = PROPS[a.prop]
    rep = Report(a.prop)
    try:
        p = Project()
        for modname in spec['rules']:
            m = importlib.import_module('sa.rules.' + modname.split(':')[0])
            fn = getattr(m, modname.split(':')[1] if ':' in modname else 'check')
            fn(p, rep, a.tier)
    except TimeUp:
        rep.undec('time', a.prop, 'stopped after %d s; the rest was not examined' % (time.time() - t0))
    except AnalysisBroken as e:
        rep.broken.append('anchor lost: %s' % e)
    except Exception:
        if a.trace:
            raise
        rep.broken.append('internal error: ' + traceback.format_exc(limit=-6))
    return finish(rep, a.tier, seed, t0, 'other', spec['explanation'])


if __name__ == '__main__':
    import threading
    threading.stack_size(512 * 1024 * 1024)
    box = []
    t = threading.Thread(target=lambda: box.append(main()))
    t.start()
    t.join(LIMIT)
    while t.is_alive():
        ctypes.pythonapi.PyThreadState_SetAsyncExc(ctypes.c_ulong(t.ident), ctypes.py_object(TimeUp))
        t.join(20)
    sys.stdout.flush()
    sys.exit(box[0] if box else 2)
