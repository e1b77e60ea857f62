"""
check <ID> [--tier quick|thorough] [--replay FILE]

exit 0: the property held on everything explored
exit 1: VIOLATION property=<id> replay=<path>
exit 2: the check itself failed
"""

import argparse
import importlib
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)

from mc import env                                      # noqa: E402
from mc.engine import Ctx, describe_exc, show                         # noqa: E402


def known_findings(prop):
    """[(section, text of case, description)] of known findings"""
    out = []
    path = os.path.join(HERE, 'KNOWN_FINDINGS.txt')
    if os.path.exists(path):
        for line in open(path):
            if line.startswith('known: property=%s ' % prop):
                _, _, rest = line.strip().split(' ', 2)
                key, _, desc = rest.partition(' :: ')
                section, _, case = key.partition(' | ')
                out.append((section.strip(), case.strip(), desc.strip()))
    return out


def find_check(prop):
    folder = os.path.join(HERE, 'mc', 'checks')
    names = [f[:-3] for f in sorted(os.listdir(folder)) if f.lower().startswith(prop.lower() + '_') and f.endswith('.py')]
    if len(names) != 1:
        raise SystemExit('no check for %s' % prop)
    return 'mc.checks.' + names[0]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('--replay')
    ap.add_argument('-v', action='store_true')
    args = ap.parse_args()
    prop = args.prop.upper()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    replay = json.load(open(args.replay)) if args.replay else None
    if replay:
        args.tier = replay.get('tier', args.tier)
    t0 = time.time()
    env.setup()
    ctx = Ctx(prop, args.tier, seed, replay)
    try:
        importlib.import_module(find_check(prop)).run(ctx)
    except Exception as err:
        # Preparing the cases failed.  If the code under test raised, this is a violation, else a bug in the check.
        traceback.print_exc()
        files = [os.path.realpath(f.filename) for f in traceback.extract_tb(err.__traceback__)]
        if not any(f.startswith(os.path.realpath(env.REPO) + os.sep) for f in files):
            raise
        ctx.violations.append(('prepare', 0, '', describe_exc(err)))
    known = known_findings(prop)
    out_dir = os.path.join(HERE, 'evidence', 'replay')
    os.makedirs(out_dir, exist_ok=True)
    bad = 0
    reported = set()
    for n, (section, index, case, msg) in enumerate(ctx.violations):
        case_text = case if isinstance(case, str) else show(case)
        match = [k for k in known if k[0] == section and k[1] == case_text]
        if match:
            if match[0] not in reported:
                reported.add(match[0])
                print('KNOWN-FINDING: property=%s %s' % (prop, match[0][2]))
            continue
        path = os.path.join(out_dir, '%s-%d.json' % (prop, n))
        with open(path, 'w') as f:
            json.dump(dict(property=prop, tier=args.tier, section=section, index=index, case=case_text, message=msg),
                      f, indent=1)
        print('%s: %s: %s\n    case: %s' % (prop, section, msg, case_text))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        bad += 1
    for s in ctx.sections:
        print('%s %-28s runs=%-8d states=%-8d transitions=%-9d %5.1fs  %s' % (
            prop, s.name, s.runs, len(s.states), s.transitions, s.wall, s.bounds))
    if not replay:
        evidence(ctx, bad, time.time() - t0)
    return 1 if bad else 0


def evidence(ctx, bad, wall):
    states = sum(len(s.states) for s in ctx.sections)
    data = dict(
        property=ctx.prop, tier=ctx.tier, seed=ctx.seed, level='model_checking',
        coverage=dict(
            states=states,
            transitions=sum(s.transitions for s in ctx.sections),
            traces_validated_against_impl=sum(s.runs for s in ctx.sections),
            samples=[x for s in ctx.sections for x in s.samples][:40],
            exhaustive=all(s.complete for s in ctx.sections),
            sections=[dict(name=s.name, kind=s.kind, about=s.about, bounds=s.bounds, traces=s.runs,
                           states=len(s.states), transitions=s.transitions, wall_s=round(s.wall, 2))
                      for s in ctx.sections],
            meaning='states: distinct canonical states (or outcomes) reached, per section; transitions: operations '
                    'performed on the real code; traces: complete cases and operation histories executed on the real '
                    'code and compared with the reference model at every step',
        ),
        assumptions=ctx.assumptions,
        wall_s=round(wall, 2),
        violations=bad,
    )
    path = os.path.join(HERE, 'evidence', ctx.prop + '.json')
    with open(path + '.tmp', 'w') as f:
        json.dump(data, f, indent=1)
    os.replace(path + '.tmp', path)


if __name__ == '__main__':
    code = 2
    try:
        code = main()
    except SystemExit as e:
        code = e.code if isinstance(e.code, int) else 2
        if not isinstance(e.code, int):
            print(e.code)
    except BaseException:
        traceback.print_exc()
    sys.stdout.flush()
    os._exit(code)
