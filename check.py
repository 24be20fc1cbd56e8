#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough]   decide one property from /repo's current source"""
import argparse, importlib, os, sys, time, traceback
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from lms import facts, rule


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    a = ap.parse_args()
    t0 = time.time()
    try:
        from lms.rules import REGISTRY
        modname = REGISTRY[a.pid]
        mod = importlib.import_module('lms.rules.' + modname)
        P = facts.load_all()
        rep = rule.Report(a.pid, P)
        mod.run(rep, P, a.tier)
        rc = rule.finish(rep, a.tier, t0, mod.RULE, getattr(mod, 'LEVEL', 'other'), getattr(mod, 'ASSUME', []))
    except facts.AnalysisBroken as e:
        print('ANALYSIS-BROKEN %s: %s' % (a.pid, e)); rc = 2
    except Exception:
        traceback.print_exc(); print('ANALYSIS-BROKEN %s' % a.pid); rc = 2
    sys.stdout.flush()
    return rc


if __name__ == '__main__':
    sys.exit(main())
