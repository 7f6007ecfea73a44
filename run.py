#!/usr/bin/env python3
"""Decides one property from the repository's current source.

usage: run.py PROPERTY... [--tier quick|thorough] [--repo DIR]
"""
import importlib
import os
import sys
import time
import traceback

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from sa.program import AnalysisError, Program
from sa.query import Analysis
from sa.report import Check, finish
from sa import registry


def main(argv):
    tier = os.environ.get('VERIF_TIER') or 'quick'
    repo = '/repo'
    props = []
    it = iter(argv)
    for a in it:
        if a == '--tier':
            tier = next(it)
        elif a == '--repo':
            repo = next(it)
        else:
            props.append(a)
    sys.setrecursionlimit(20000)
    code = 0
    for prop in props or sorted(registry.PROPS):
        started = time.time()
        spec = registry.PROPS[prop]
        try:
            prog = Program(repo)
            chk = Check(prop, Analysis(prog), tier)
            for fn in spec.rules:
                try:
                    fn(chk)
                except AnalysisError as e:
                    chk.undecided.append(f'{chk.cur or fn.__name__}: {e}')
                except Exception as e:
                    tb = traceback.extract_tb(e.__traceback__)[-1]
                    chk.undecided.append(f'{chk.cur or fn.__name__}: {type(e).__name__}: {e} '
                                         f'({os.path.basename(tb.filename)}:{tb.lineno})')
                    if os.environ.get('VERIF_DEBUG'):
                        traceback.print_exc()
            if chk.undecided and not chk.obs:
                raise AnalysisError('; '.join(chk.undecided))
            c = finish(chk, started, explanation=spec.explanation, assumptions=spec.assumptions)
        except AnalysisError as e:
            print(f'{prop}: analysis broken: {e}')
            c = 2
        except Exception:
            traceback.print_exc()
            print(f'{prop}: internal error')
            c = 3
        code = max(code, c)
    return code


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
