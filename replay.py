#!/opt/venv/bin/python
"""Replay one counterexample against the real, unmodified code.

usage: replay.py FILE.json      exit 1: the property is violated, 0: it holds,
                                3: the counterexample does not apply
       replay.py --list MODULE TIER   print the harness table as JSON
"""
import importlib
import json
import os
import signal
import sys
import traceback
import warnings
import logging

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
sys.path.insert(0, REPO)
warnings.simplefilter('ignore')
logging.disable(logging.CRITICAL)


def endless(signum, frame):
    """Loops of the code under test must not outlive the check."""
    print('VIOLATED on the real code: it does not end within 75 s')
    sys.stdout.flush()
    os._exit(1)


def main():
    if sys.argv[1] == '--list':
        m = importlib.import_module(sys.argv[2])
        out = {}
        for k, h in m.HARNESSES.items():
            tier = sys.argv[3]
            ps = h.get(tier) or h.get('quick') or [{}]
            b = h.get('bounds', '')
            out[k] = {'params': ps, 'bounds': b}
        print(json.dumps(out))
        return 0
    from symx.driver import dec
    from symx import ctx
    with open(sys.argv[1]) as f:
        d = json.load(f)
    m = importlib.import_module(d['module'])
    h = m.HARNESSES[d['harness']]
    signal.signal(signal.SIGALRM, endless)
    signal.alarm(75)
    c = ctx.RealCtx(d['params'], dec(d['inputs']), d['picks'], [tuple(u) for u in dec(d['uf'])])
    try:
        h['fn'](c)
    except ctx.AssumeFail:
        print('not applicable: an assumption of the harness does not hold for these values')
        return 3
    except ctx.ReplayFail as ex:
        c.restore()
        print('VIOLATED on the real code: %s' % ex)
        print('values: %r' % (c.used,))
        for n in c.notes:
            print('note: %r' % (n,))
        return 1
    except Exception as ex:
        c.restore()
        tb = traceback.extract_tb(ex.__traceback__)
        traceback.print_exc(file=sys.stdout)
        print('values: %r' % (c.used,))
        if any(os.path.abspath(f.filename).startswith(REPO + '/') for f in tb):
            print('VIOLATED on the real code: unexpected exception escapes')
            return 1
        return 4
    c.restore()
    print('holds for these values')
    return 0


if __name__ == '__main__':
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 4
    sys.exit(rc)
