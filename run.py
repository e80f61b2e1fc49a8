#!/opt/venv/bin/python
"""Run one check:  run.py ID [--tier quick|thorough] [--replay FILE]
[--workers N] [--no-evidence]

Exit 0: the property held on everything explored.  Exit 1: violation (a line
``VIOLATION property=<id> replay=<path>`` is printed).
"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('PARAGAMI_REPO', '/repo')

_PYTHON = '/opt/venv/bin/python'


def _reexec():
    """Fix what the environment could change, in a fresh interpreter."""
    env = dict(os.environ)
    env.update({
        'PYTHONHASHSEED': '0', 'PYTHONDONTWRITEBYTECODE': '1',
        'OPENBLAS_NUM_THREADS': '1', 'OMP_NUM_THREADS': '1',
        'MKL_NUM_THREADS': '1', 'PARAGAMI_MC_CHILD': '1',
        'PYTHONWARNINGS': 'ignore', 'PYTHONNOUSERSITE': '1'})
    env.pop('PYTHONPATH', None)
    exe = _PYTHON if os.path.exists(_PYTHON) else sys.executable
    os.execve(exe, [exe, os.path.abspath(__file__)] + sys.argv[1:], env)


if __name__ == '__main__' and os.environ.get('PARAGAMI_MC_CHILD') != '1':
    _reexec()

import argparse
import importlib
import json
import shutil
import tempfile
import time
import traceback
import warnings

sys.path.insert(0, HERE)
sys.path.insert(0, REPO)
warnings.simplefilter('ignore')


def known_findings():
    """Findings recorded in known_findings.txt: (property, key, text).  Lines
    starting with ``fixed:`` suppress nothing."""
    out = []
    path = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(path):
        with open(path) as fh:
            for line in fh:
                line = line.strip()
                if line.startswith('finding: property='):
                    head, _, key = line.partition(' key=')
                    out.append((head[len('finding: property='):].strip(),
                                key.strip()))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default='quick', choices=['quick', 'thorough'])
    ap.add_argument('--replay')
    ap.add_argument('--workers', type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument('--no-evidence', action='store_true')
    args = ap.parse_args()
    prop = args.prop
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix='paragami_mc_')
    replay_dir = os.path.join(HERE, 'replays')
    os.makedirs(replay_dir, exist_ok=True)

    def violation(vlist, tier):
        path = os.path.join(replay_dir, '{}.json'.format(prop))
        with open(path, 'w') as fh:
            json.dump({
                'property': prop, 'tier': tier, 'violations': vlist,
                'how': '/opt/venv/bin/python /verif/run.py {} --replay {}'
                       .format(prop, path)}, fh, indent=1)
        for v in vlist[:6]:
            print('  case: {}'.format(v['key'][:600]))
            print('    {}'.format(v['detail'][:900]))
        print('VIOLATION property={} replay={}'.format(prop, path))
        sys.stdout.flush()

    rc = 1
    try:
        from mc import engine
        import autograd.numpy, autograd.scipy, scipy.sparse  # noqa: E401,F401
        # Never trust byte code that something else left next to the source.
        sys.pycache_prefix = os.path.join(scratch, 'pycache')
        sys.dont_write_bytecode = True
        import paragami
        where = os.path.realpath(os.path.dirname(paragami.__file__))
        if where != os.path.realpath(os.path.join(REPO, 'paragami')):
            raise RuntimeError('paragami was imported from ' + where)
        mod = importlib.import_module('checks.' + prop.lower())

        if args.replay:
            with open(args.replay) as fh:
                rep = json.load(fh)
            bad = []
            for v in rep['violations']:
                ctx = engine.Ctx(prop, rep['tier'], scratch=scratch,
                                 replay=[[p[0], p[1]] for p in v['path']])
                try:
                    mod.run(ctx)
                except engine.StopExploration:
                    pass
                bad += ctx.violations
                print('replayed {} transitions: {}'.format(
                    ctx.transitions,
                    'VIOLATED' if ctx.violations else 'held'))
            if bad:
                for v in bad[:6]:
                    print('  case: {}\n    {}'.format(v['key'], v['detail']))
                print('VIOLATION property={} replay={}'.format(
                    prop, args.replay))
                return 1
            return 0

        hang = 780 if args.tier == 'quick' else None
        res = engine.explore(mod.run, prop, args.tier, args.workers, scratch,
                             hang)
        wall = time.time() - t0
        known = {k for p, k in known_findings() if p == prop}
        fresh, old = [], []
        for v in res.violations:
            (old if v['key'] in known else fresh).append(v)
        for key in sorted({v['key'] for v in old}):
            print('KNOWN-FINDING: property={} {}'.format(prop, key))

        evidence = {
            'property': prop, 'tier': args.tier,
            'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
            'level': 'model_checking',
            'coverage': {
                'states': len(res.states),
                'transitions': res.transitions,
                'traces_validated_against_impl': res.traces,
                'samples': res.samples[:8] or [{'path': [], 'observed': ''}],
                'exhaustive': True,
                'bounds': mod.BOUNDS,
                'explored_histories': res.bounds,
                'choice_points': dict(
                    sorted(res.nodes.items(), key=lambda kv: -kv[1])[:40]),
                'distinct_outcomes': len(res.outcomes),
                'outcomes': dict(res.outcomes.most_common(40)),
                'violations_known': len(old),
            },
            'assumptions': mod.ASSUMPTIONS,
            'wall_s': round(wall, 3),
            'violations': len(fresh),
        }
        if not args.no_evidence:
            os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
            tmp = os.path.join(HERE, 'evidence', prop + '.json.tmp')
            with open(tmp, 'w') as fh:
                json.dump(evidence, fh, indent=1, default=str)
            os.replace(tmp, os.path.join(HERE, 'evidence', prop + '.json'))
        print('{} {}: {} states, {} transitions, {} executions compared with '
              'the reference, {} outcomes, {:.1f} s'.format(
                  prop, args.tier, len(res.states), res.transitions,
                  res.traces, len(res.outcomes), wall))
        if fresh:
            violation(fresh, args.tier)
            return 1
        if res.traces == 0 or res.transitions == 0:
            violation([{'key': 'vacuous', 'what': 'vacuous', 'path': [],
                        'detail': 'nothing was explored'}], args.tier)
            return 1
        rc = 0
        return 0
    except SystemExit:
        raise
    except BaseException:
        violation([{'key': 'unhandled', 'what': 'unhandled', 'path': [],
                    'detail': traceback.format_exc()[-3000:]}], args.tier)
        return 1
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == '__main__':
    code = main()
    sys.stdout.flush()
    sys.exit(code)
