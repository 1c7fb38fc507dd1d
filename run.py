#!/usr/bin/env python3
"""run.py <property id> [quick|thorough]: static check of one property of /repo"""
import importlib
import os
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, 'lib'), os.path.join(HERE, 'checks')]
sys.setrecursionlimit(20000)
import chk
import ir


def main():
    if sys.argv[1:] == ['--setup']:
        p = ir.load()
        print('%d translation units, %d functions' % (len(p.units), len(p.funcs)))
        return 0
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    try:
        os.remove(os.path.join(HERE, 'evidence', prop + '.json'))
    except OSError:
        pass
    try:
        c = chk.Check(prop, tier, seed)
        prog = ir.load()
        c.counts['translation units'] = len(prog.units)
        try:
            importlib.import_module(prop.lower()).run(c, prog)
        except Exception as e:
            traceback.print_exc()
            c.err(str(e) or repr(e))
        return c.finish()
    except Exception as e:
        traceback.print_exc()
        print('ANALYSIS-ERROR property=%s %s' % (prop, e))
        return 2


if __name__ == '__main__':
    sys.exit(main())
