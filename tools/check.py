#!/usr/bin/env python3
"""Runs the check of one property: python3 tools/check.py C01 [--tier quick|thorough] [--replay FILE]"""
import argparse
import json
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import checks  # noqa: E402
import vlib  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--replay', help='repeat the execution of a replay file and validate it')
    a = ap.parse_args()
    spec = checks.CHECKS[a.prop]
    try:
        if a.replay:
            return replay(a)
        c = vlib.Check(a.prop, a.tier, a.seed)
        vlib.build(spec.targets)
        c.assumptions = list(spec.assumptions)
        spec.run(c)
        return c.finish()
    except vlib.CheckError as e:
        print(f'ERROR property={a.prop}: {e}', file=sys.stderr)
        return 2
    except Exception:
        traceback.print_exc()
        return 2


def replay(a):
    with open(a.replay) as f:
        d = json.load(f)
    c = vlib.Check(a.prop, a.tier, a.seed)
    vlib.build([d['driver']])
    r = vlib.run_driver(d['driver'], d.get('args', []) if 'died' in os.path.basename(a.replay) else
                        [f'--prog={d["prog"]}', f'--sched={d.get("sched") or ""}'], c.scratch, 120)
    if r.died:
        print(f'the execution ended abnormally (exit {r.rc}): {r.stderr[-1000:]}')
        return 1
    v = vlib.validate(d['specification'], None, r.traces, c.scratch)
    for t, at, err in v.rejected:
        for i, e in enumerate(t['ev'], 1):
            print('-->' if i == at else '   ', i, json.dumps(e))
        print(f'rejected at event {at} {err}')
    print(f'{v.accepted} accepted, {len(v.rejected)} rejected')
    return 1 if v.rejected else 0


if __name__ == '__main__':
    sys.exit(main())
