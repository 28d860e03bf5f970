#!/usr/bin/env python3
"""check.py <property> [quick|thorough]        run the property's check
   check.py --replay <file>                     re-run one saved failing case"""
import json
import os
import resource
import sys

sys.setrecursionlimit(20000)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mpv import engine, checks            # noqa: E402


def replay(path):
    d = json.load(open(path))
    ctx = engine.Ctx(d['property'], 'quick', 0)
    try:
        case = engine.Case.registry[d['class']].from_json(d['case'])
        bad = ctx.fails(case, engine.CFGS[d['config']])
    finally:
        ctx.close()
    print(case.show())
    if bad:
        print('detail ' + bad)
        print('VIOLATION property=%s replay=%s' % (d['property'], path))
        return 1
    print('the case passes')
    return 0


def main(argv):
    if len(argv) >= 2 and argv[0] == '--replay':
        return replay(argv[1])
    prop = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    ctx = engine.Ctx(prop, tier, seed)
    try:
        checks.CHECKS[prop](ctx)
        return ctx.finish()
    finally:
        ctx.close()


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
