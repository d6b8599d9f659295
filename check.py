#!/usr/bin/env python3
"""python3 check.py ID [--repo DIR] [--tier quick|thorough]: decide one property from /repo's source."""
import argparse
import importlib
import os
import sys
import traceback

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)

from sa.framework import run_check          # noqa: E402
from sa.project import AnalysisBroken       # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--repo', default=os.environ.get('VERIF_REPO', '/repo'))
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--no-evidence', action='store_true', help='do not rewrite the evidence file')
    args = ap.parse_args()
    mod = importlib.import_module('sa.rules.' + args.prop.lower())
    try:
        return run_check(args.prop, mod.run, args.repo, args.tier, mod.EXPLANATION, mod.TECHNIQUE,
                         write=not args.no_evidence)
    except AnalysisBroken as err:
        print(f'ANALYSIS-BROKEN property={args.prop}: {err}')
        return 2
    except Exception:
        traceback.print_exc()
        print(f'ANALYSIS-BROKEN property={args.prop}: internal error of the checker')
        return 2


if __name__ == '__main__':
    sys.exit(main())
