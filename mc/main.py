"""python -m mc.main C01 [quick|thorough]  |  python -m mc.main --replay FILE"""
import importlib
import json
import os
import signal
import sys

from mc import core


def load(pid):
    return importlib.import_module('mc.checks.' + pid.lower())


def main(argv):
    core.import_repo()
    if argv[0] == '--replay':
        with open(argv[1]) as f:
            v = json.load(f)
        m = load(v['property'])
        layer = [l for l in m.LAYERS if l.name == v['layer']][0]
        signal.signal(signal.SIGALRM, core._alarm)
        ctx = core.Ctx(v.get('tier', 'quick'))
        ctx.case(layer, v['case'])
        for w in ctx.violations:
            print(w['message'])
            print('VIOLATION property=%s replay=%s' % (v['property'], argv[1]))
        if not ctx.violations:
            print('no violation on this tree')
        return 1 if ctx.violations else 0
    pid = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    m = load(pid)
    rc = core.run(pid, m.LAYERS, tier, assumptions=getattr(m, 'ASSUMPTIONS', ()))
    for line in getattr(m, 'KNOWN', lambda: [])():
        print(line)
    return rc


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
