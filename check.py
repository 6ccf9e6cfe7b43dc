#!/usr/bin/env python3
"""Decides one property: check.py C01 [--tier quick|thorough] [--replay FILE]

Builds the harness from /repo's working tree, runs the specification's behaviours on the real code with the
Quint-driven machine (tools/driver.cjs), and reports the violations of this property only.
Exit 0: held on everything explored. Exit 1 + "VIOLATION property=<id> replay=<path>": broken. Else: error.
"""
import json, os, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'tools'))
import suites  # noqa: E402

GO = '/opt/veriftools/go1.27.3/bin'
ENV = dict(os.environ, PATH=GO + ':' + os.environ.get('PATH', ''), GOTOOLCHAIN='local', GOPROXY='off',
           GOFLAGS='-mod=mod -buildvcs=false', HOME=os.environ.get('HOME', '/root'))


class CheckError(Exception):
    pass


def build(out, race=False):
    cmd = ['go', 'build'] + (['-race'] if race else []) + ['-o', out, '.']
    r = subprocess.run(cmd, cwd=os.path.join(HERE, 'harness'), env=ENV, capture_output=True, text=True, timeout=600)
    if r.returncode != 0:
        raise CheckError('harness does not build:\n' + r.stdout + r.stderr)


def drive(job, harness, extra, env=None, timeout=3600):
    out = tempfile.mktemp(suffix='.json', dir=os.path.dirname(harness))
    cmd = ['node', '--max-old-space-size=3000', os.path.join(HERE, 'tools', 'driver.cjs'),
           '--spec', os.path.join(HERE, 'spec', job['spec']), '--module', job['module'],
           '--suite', job['suite'], '--harness', harness, '--out', out]
    for k, v in extra.items():
        cmd += ['--' + k, str(v)]
    e = dict(ENV)
    e.update(env or {})
    r = subprocess.run(cmd, env=e, capture_output=True, text=True, timeout=timeout)
    try:
        with open(out) as f:
            s = json.load(f)
    except Exception:
        raise CheckError('driver failed: ' + ' '.join(cmd) + '\n' + r.stdout[-2000:] + r.stderr[-4000:])
    if s.get('error'):
        raise CheckError('driver error: ' + s['error'] + '\nlast requests: ' + json.dumps(s.get('errorOps')))
    return s


def known_findings():
    k = []
    try:
        with open(os.path.join(HERE, 'findings', 'known.json')) as f:
            k = json.load(f)['known']
    except FileNotFoundError:
        pass
    return k


def main():
    args = [a for a in sys.argv[1:] if not a.startswith('--')]
    prop = args[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
        args = [a for a in args if a != tier]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    started = time.time()
    plan = suites.plan(prop, tier)
    tmp = tempfile.mkdtemp(prefix='verif-' + prop + '-')
    try:
        return run(prop, tier, seed, plan, tmp, started)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def run(prop, tier, seed, plan, tmp, started):
    harness = os.path.join(tmp, 'harness')
    build(harness)
    races = any(j.get('race') for j in plan['jobs'])
    if races:
        build(harness + '-race', race=True)
    binary = lambda j: harness + ('-race' if j.get('race') else '')
    env = {'HARNESS_CWD': tmp, 'HARNESS_REPO': '/repo', 'GORACE': 'halt_on_error=1'}
    prepared = {}
    for name in plan.get('prepare', []):
        prepared[name] = suites.PREPARE[name](tmp, ENV, prop, tier, seed)
        env.update(prepared[name].get('env', {}))
    if '--replay' in sys.argv:
        rf = sys.argv[sys.argv.index('--replay') + 1]
        rp = json.load(open(rf))
        job = rp['job']
        s = drive(job, binary(job), {'replay': rf} if rp['mode'] == 'ops' else
                  {'seed': rp['vseed'], 'worker': rp['worker'], 'runs': rp['runs'], 'steps': rp['steps'], 'time': 3600,
                   **rp.get('options', {})}, env)
        labels = sorted({b for v in s['violations'] for b in v['labels'] if b.startswith(prop)})
        print('\n'.join(labels) if labels else 'not reproduced')
        if labels:
            print(f'VIOLATION property={prop} replay={rf}')
        return 1 if labels else 0
    # ---- run all jobs
    tasks = []
    worker = 0
    for job in plan['jobs']:
        for _ in range(job['workers']):
            opt = {'seed': seed, 'worker': worker, 'time': job['time'], 'steps': job.get('steps', 60), 'focus': prop}
            opt.update(job.get('options', {}))
            tasks.append((job, opt))
            worker += 1
    results = []
    errors = []

    def run_all(tasks):
        with ThreadPoolExecutor(max_workers=plan.get('parallel', 8)) as ex:
            futs = [(j, o, ex.submit(drive, j, binary(j), o, env)) for j, o in tasks]
            for j, o, f in futs:
                try:
                    results.append((j, o, f.result()))
                except (CheckError, subprocess.TimeoutExpired) as e:
                    errors.append(str(e))

    jobs_started = time.time()
    run_all(tasks)
    # a busy machine explores less: once more, with other choices, before giving no answer
    if suites.vacuous(prop, plan, results) and time.time() - jobs_started < 250 and not any(
            b.startswith(prop) for _, _, s in results for v in s['violations'] for b in v['labels']):
        run_all([(j, {**o, 'worker': o['worker'] + 1000}) for j, o in tasks])
    extra_cov = {}
    violations = []
    for name in plan.get('after', []):
        r = suites.AFTER[name](tmp, dict(ENV, **env), prop, tier, seed, harness)
        extra_cov.update(r.get('coverage', {}))
        if r.get('error'):
            errors.append(r['error'])
        for v in r.get('violations', []):
            violations.append(v)
    known = [k for k in known_findings() if k['property'] == prop]
    known_hits = {}
    rdir = os.path.join(HERE, 'replays')
    os.makedirs(rdir, exist_ok=True)
    done_labels = set()
    for job, opt, s in results:
        for v in s['violations']:
            mine = [b for b in v['labels'] if b.startswith(prop)]
            if not mine:
                continue
            hit = [k for k in known if k.get('match') and all(v['ops'][-1].get(a) == b for a, b in k['match'].items()) and set(mine) <= set(k['labels'])]
            if hit:
                known_hits[hit[0]['what']] = True
                continue
            if set(mine) <= done_labels or len(done_labels) >= 6:
                continue
            # confirm on a fresh harness
            path = os.path.join(rdir, f'{prop}-{tier}-{seed}-{len(violations)}.json')
            j = {k: job[k] for k in ('spec', 'module', 'suite', 'race') if k in job}
            rp = {'property': prop, 'mode': 'ops', 'job': j, 'labels': mine, 'seed': int(v['seed']), 'ops': v['ops'], 'answer': v['answer']}
            with open(path, 'w') as f:
                json.dump(rp, f)
            try:
                c = drive(j, binary(j), {'replay': path}, env)
                again = {b for w in c['violations'] for b in w['labels'] if b.startswith(prop)}
                if not again & set(mine):
                    rp.update(mode='run', vseed=seed, worker=opt['worker'], steps=opt['steps'], runs=s['runs'] + 1,
                              options={k: opt[k] for k in opt if k not in ('seed', 'worker', 'steps', 'time')})
                    with open(path, 'w') as f:
                        json.dump(rp, f)
                    c = drive(j, binary(j), {'seed': seed, **opt, 'runs': rp['runs'], 'time': 600}, env)
                    again = {b for w in c['violations'] for b in w['labels'] if b.startswith(prop)}
                # runs that interfere do so in some interleavings only: a race report or a differing result stands
                raced = prop == 'C22' and (not v.get('ctl') or 'DATA RACE' in (v.get('stderr') or ''))
                if not again & set(mine) and raced:
                    print('seen once, not in the same interleaving again: ' + '; '.join(mine) + ' ' + (v.get('stderr') or '')[:1500])
                elif not again & set(mine):
                    errors.append(f'violation not reproduced: {mine} {path}')
                    continue
            except CheckError as e:
                errors.append(str(e))
                continue
            done_labels |= set(mine)
            violations.append({'labels': mine, 'path': path, 'last': v['ops'][-1]})
    # ---- evidence
    cov = suites.coverage(prop, plan, results)
    cov.update(extra_cov)
    for k, p in prepared.items():
        cov.update(p.get('coverage', {}))
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': plan['level'], 'coverage': cov,
          'assumptions': plan.get('assumptions', []), 'wall_s': round(time.time() - started, 1), 'violations': len(violations)}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for w in known_hits:
        print(f'KNOWN-FINDING: property={prop} {w}')
    for v in violations:
        print('; '.join(v['labels']) + ' at ' + json.dumps(v.get('last')))
        print(f"VIOLATION property={prop} replay={v['path']}")
    if violations:
        return 1
    if errors:
        print('ERROR: ' + '\n'.join(errors[:3]), file=sys.stderr)
        return 2
    missing = suites.vacuous(prop, plan, results)
    if missing:
        print('ERROR: not exercised: ' + ', '.join(missing), file=sys.stderr)
        return 2
    print(f"{prop} held on {sum(s['steps'] for _, _, s in results)} steps in {round(time.time() - started, 1)} s")
    return 0


if __name__ == '__main__':
    try:
        sys.exit(main())
    except CheckError as e:
        print('ERROR: ' + str(e), file=sys.stderr)
        sys.exit(2)
