#!/opt/venv/bin/python
"""
usage: check.py ID [--tier quick|thorough] [--replay FILE] [--workers N]

Decides one property by generated-input search. Exit 0: it held on
everything explored. Exit 1: it doesn't hold, and a line
    VIOLATION property=ID replay=PATH
says which file reproduces that (check.py ID --replay PATH).
Exit 2: something is wrong with the check itself.
"""
import argparse
import collections
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

from pbt import core

PYTHON = '/opt/venv/bin/python'
LEVEL = 'exploration'
# Generating stops after this long, in seconds, whatever's left to do.
TIME_LIMIT = {'quick': 200, 'thorough': 3000}
# How many times as many cases each tier runs as @sub asks for.
SCALE = {'quick': 4, 'thorough': 1}

ASSUMPTIONS = [
    'Beautiful Soup, lxml, pysrt and the Python standard library as installed',
    'the reference models in /verif/pbt say what the property says',
    'the generated cases stand for the ones not generated',
]


def worker_env(index, workers):
    env = dict(os.environ)
    for k in list(env):
        if k.startswith(('LC_', 'LANG', 'PYTHON', 'HYPOTHESIS')):
            del env[k]
    env.update(
        PYTHONHASHSEED=str(index), PYTHONDONTWRITEBYTECODE='1',
        PYTHONIOENCODING='utf-8', PYTHONCOERCECLOCALE='0', TZ='UTC',
    )
    if index % 2:
        # where the default encoding is ASCII
        env.update(LC_ALL='C', PYTHONUTF8='0')
    else:
        env.update(LC_ALL='C.UTF-8', PYTHONUTF8='1')
    return env


def load_checks():
    core.import_repo()
    import pbt.checks


def worker(prop, seed, index, workers, tier, outfile):
    load_checks()
    core.import_hypothesis()
    result = {'subs': {}, 'failure': None, 'error': None}
    try:
        started = time.monotonic()
        subs = core.SUBS[prop]
        for i, s in enumerate(subs):
            total = s.quick if tier == 'quick' else s.thorough
            examples = max(1, round(total*SCALE[tier]/workers))
            remaining = TIME_LIMIT[tier]-(time.monotonic()-started)
            report = {}
            result['subs'][s.name] = report
            failure = core.run_sub(
                s, seed=(seed*1000+index)*100+i, examples=examples,
                time_limit=max(1, remaining/(len(subs)-i)), report=report)
            if failure is not None:
                failure['worker'] = index
                result['failure'] = failure
                break
    except core.HarnessError as e:
        result['error'] = str(e)
    except BaseException as e:
        import traceback
        result['error'] = traceback.format_exc()
    with open(outfile+'.tmp', 'w') as f:
        json.dump(result, f)
    os.rename(outfile+'.tmp', outfile)


def replay(prop, filename, quiet=False):
    """Exit status: 1 if it still fails, 0 if it doesn't."""
    load_checks()
    with open(filename) as f:
        r = json.load(f)
    subs = [s for s in core.SUBS[prop] if s.name == r['sub']]
    if not subs:
        print(f'There is no {r["sub"]} in {prop}.')
        return 2
    _, failure = core.run_case(subs[0], r['case'])
    if failure is None:
        print('The property held on this case.')
        return 0
    print(failure)
    return 1


def run(prop, tier, workers):
    started = time.monotonic()
    seed = int(os.environ.get('VERIF_SEED') or '1')
    load_checks()   # so that we find out now if we can't
    if prop not in core.SUBS:
        print(f'There is no check for {prop}.')
        return 2

    scratch = tempfile.mkdtemp(prefix=f'verif-{prop}-')
    try:
        return _run(prop, tier, workers, seed, scratch, started)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def _run(prop, tier, workers, seed, scratch, started):
    procs = []
    for i in range(workers):
        env = worker_env(i, workers)
        env['TMPDIR'] = scratch
        out = os.path.join(scratch, f'worker-{i}.json')
        err = open(os.path.join(scratch, f'worker-{i}.err'), 'w')
        procs.append((out, subprocess.Popen(
            [PYTHON, os.path.join(HERE, 'check.py'), prop, '--worker', str(i),
             '--seed', str(seed), '--workers', str(workers), '--tier', tier,
             '--out', out],
            env=env, stdout=err, stderr=err, stdin=subprocess.DEVNULL,
            cwd=scratch, start_new_session=True)))

    grace_until = None
    while any(p.poll() is None for _, p in procs):
        time.sleep(0.05)
        if grace_until is None:
            for out, p in procs:
                if p.poll() is not None and os.path.exists(out):
                    with open(out) as f:
                        if json.load(f)['failure'] is not None:
                            grace_until = time.monotonic()+10
                            break
        elif time.monotonic() > grace_until:
            break
        if time.monotonic()-started > TIME_LIMIT[tier]+300:
            break
    for _, p in procs:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        p.wait()

    results = []
    for i, (out, p) in enumerate(procs):
        if os.path.exists(out):
            with open(out) as f:
                results.append(json.load(f))
        elif grace_until is None:
            with open(os.path.join(scratch, f'worker-{i}.err')) as f:
                print(f'Worker {i} gave no answer (exit {p.returncode}):\n'
                      + f.read()[-3000:])
            results.append({'subs': {}, 'failure': None,
                            'error': 'no answer'})

    failures = [r['failure'] for r in results if r['failure']]
    errors = [r['error'] for r in results if r['error']]

    # ------------------------------------------------------- evidence
    evaluations = 0
    hashes = set()
    samples = []
    subs = {}
    for s in core.SUBS[prop]:
        labels = collections.Counter()
        n, h, early = 0, set(), 0
        for r in results:
            rep = r['subs'].get(s.name)
            if rep:
                n += rep.get('evaluations', 0)
                h.update(rep.get('hashes', []))
                labels.update(rep.get('labels', {}))
                early += bool(rep.get('stopped_early'))
                if len(samples) < 12 and rep.get('samples'):
                    mine = [x for x in samples if x['sub'] == s.name]
                    if len(mine) < 2:
                        samples.append({'sub': s.name,
                                        'case': rep['samples'][-1]})
        evaluations += n
        hashes |= h
        subs[s.name] = {'evaluations': n, 'distinct_nontrivial': len(h),
                        'classes': dict(labels.most_common()),
                        'rule': s.rule}
        if early:
            subs[s.name]['workers_stopped_by_time'] = early
    evidence = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': LEVEL,
        'coverage': {
            'evaluations': evaluations,
            'distinct_nontrivial': len(hashes),
            'rule': 'cases are drawn by Hypothesis from the generators in '
                    '/verif/pbt and are distinct if their JSON differs; '
                    'non-trivial: ' +
                    '; '.join(f'{s.name}: {s.rule}' for s in core.SUBS[prop]),
            'samples': samples[:12] or ['none: the run failed at once'],
            'sub_checks': subs,
        },
        'assumptions': ASSUMPTIONS,
        'wall_s': round(time.monotonic()-started, 2),
        'violations': len(failures),
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', f'{prop}.json'), 'w') as f:
        json.dump(evidence, f, indent=1)

    # -------------------------------------------------------- verdict
    status = 0
    if failures:
        best = min(failures, key=lambda f: len(core.dumps(f['case'])))
        os.makedirs(os.path.join(HERE, 'out'), exist_ok=True)
        path = os.path.join(HERE, 'out', 
                            f'{prop}-{best["sub"].replace(" ", "-")}.json')
        best.update(seed=seed, tier=tier, worker_env={
            k: v for k, v in worker_env(best['worker'], workers).items()
            if k.startswith(('LC_', 'PYTHON'))})
        with open(path, 'w') as f:
            json.dump(best, f, indent=1)
        again = subprocess.run(
            [PYTHON, os.path.join(HERE, 'check.py'), prop, '--replay', path],
            env=worker_env(best['worker'], workers), cwd=HERE,
            stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        print(f'{prop}/{best["sub"]}: {best["failure"][:3000]}')
        print('Case:', core.dumps(best['case'])[:3000])
        if again.returncode != 1:
            print('(This case alone does not fail in a fresh process: '
                  'it needs what ran before it. Rerun with the same '
                  'VERIF_SEED.)')
        print(f'VIOLATION property={prop} replay={path}')
        status = 1
    elif errors:
        print(f'{prop}: the check failed:\n{errors[0]}')
        status = 2
    else:
        print(f'{prop}: held on {evaluations} cases, {len(hashes)} of them '
              f'distinct and non-trivial ({evidence["wall_s"]} s)')

    if status == 0:
        for line in known_findings(prop):
            print(line)
    return status


def known_findings(prop):
    """
    Lines for the listed findings which still fail. The cases which are
    listed are not generated (see KNOWN_FINDINGS.md), so they can't
    hide anything else.
    """
    import pbt.findings
    for f in pbt.findings.FINDINGS:
        if f['property'] == prop and f['still_fails']():
            yield f'KNOWN-FINDING: property={prop} {f["what"]}'


def main():
    p = argparse.ArgumentParser()
    p.add_argument('property')
    p.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    p.add_argument('--workers', type=int, default=8)
    p.add_argument('--replay')
    p.add_argument('--worker', type=int)
    p.add_argument('--seed', type=int)
    p.add_argument('--out')
    args = p.parse_args()

    if args.worker is not None:
        worker(args.property, args.seed, args.worker, args.workers,
               args.tier, args.out)
        return 0
    if args.replay:
        return replay(args.property, args.replay)
    return run(args.property, args.tier, args.workers)


if __name__ == '__main__':
    try:
        status = main()
    except core.HarnessError as e:
        print(f'error: {e}')
        status = 2
    except Exception:
        import traceback
        traceback.print_exc(file=sys.stdout)
        status = 2
    sys.exit(status)
