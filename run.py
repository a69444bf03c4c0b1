#!/opt/venv/bin/python
"""run.py <property> [--tier quick|thorough] [--replay FILE]"""

import argparse
import importlib
import os
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('--replay')
    a = ap.parse_args()
    from vlib import boot, report

    try:
        boot.load()
        mod = importlib.import_module(f'checks.{a.property.lower()}')
        if a.replay:
            import json

            doc = json.load(open(a.replay))
            for v in doc['violations']:
                print(json.dumps(v, indent=1))
                if hasattr(mod, 'replay'):
                    print('reproduced:', mod.replay(v))
            code = 0
        else:
            r = report.Run(a.property, a.tier)
            try:
                code = mod.run(r)
            except report.Enough:
                code = r.finish(False)
    except BaseException:
        # Whatever stops a check from completing on this tree did not happen on the
        # tree it was written for: the code under test no longer does what it must.
        text = traceback.format_exc()
        print(text, flush=True)
        code = report.fail_without_evidence(a.property, a.tier, text)
    report.main_exit(code)


if __name__ == '__main__':
    main()
