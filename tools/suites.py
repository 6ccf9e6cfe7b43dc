"""Which suites decide which property, with what effort, and how coverage is reported."""
import json, os, subprocess

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

POOL = dict(spec='pooltrace.qnt', module='pooltrace', suite='pool')
# profiles (pooltrace.qnt, WEIGHTS): 0 mixed 1 swaps 2 liquidity 3 fees 4 clones 5 inadmissible 6 flashes; +7: huge liquidity
# 14-20: extreme liquidity and tiny swaps, 21-23: few small positions and many collections
PROFILES = {
    'C01': '1,8,1,0,1,8,7,2', 'C02': '1,8,1,0,1,8,7,2', 'C03': '2,2,1,0,9,5,4,3', 'C04': '1,0,2,8,5,1,7,4',
    'C05': '2,9,3,2,0,9,2,1', 'C06': '3,3,6,10,0,3,1,13', 'C07': '2,3,0,5,9,2,4,10', 'C08': '3,10,3,0,3,4,2,3',
    'C09': '6,13,6,3,6,13,0,5', 'C10': '21,0,23,3,22,10,2,1,21,17,9,23,6,22', 'C11': '4,11,4,0,4,11,5,4', 'C12': '5,12,5,2,5,12,0,1',
}
POOL_NEED = {
    'C01': ['swapin: crosses several ticks', 'swapout: crosses several ticks', 'swapin: ends on a tick', 'swapout: stops at limit',
            'swapin: ends without liquidity', 'swapin: negative tick'],
    'C02': ['swapin: stops at limit', 'swapout: stops at limit', 'swapin: up', 'swapin: down', 'swapin: >50 steps'],
    'C03': ['mints: a tick nets to nothing', 'burn: clears a tick', 'burns: clears a tick', 'swapin: crosses several ticks'],
    'C04': ['swapin: ends on a tick', 'new: accepted', 'swapout: ends on a tick', 'clone: at the upper end of the tick', 'swapin: stays on the upper end of the tick',
            'mints: at the upper end of the tick'],
    'C05': ['mints: range above', 'mints: range around', 'mints: range below', 'burns: range above', 'burns: range around', 'burns: range below', 'burns: comes out even'],
    'C06': ['burns: poke', 'flash: accepted', 'flash: fee growth goes round', 'swapin: crosses several ticks', 'collect: pays'],
    'C07': ['mints: accepted', 'burns: accepted', 'mint: accepted', 'burn: accepted'],
    'C08': ['collect: pays'],
    'C09': ['flash: accepted', 'flash: refused', 'flash: huge'],
    'C10': ['collect: pays', 'swapin: crosses several ticks', 'burns: accepted'],
    'C11': ['clone: accepted', 'swapin: crosses several ticks'],
    'C12': ['mints: refused', 'burns: refused', 'mint: refused', 'burn: refused', 'swapin: refused', 'swapout: refused', 'flash: refused', 'new: refused'],
}
TICKS = dict(spec='ticksearch.qnt', module='ticksearch', suite='ticks')
RANDOM_TICKS = '0,1,2,3,4,5,6,7,8,9'
PREPARE = {}
AFTER = {}


def overlay_build(tmp, env, name, files, extra=()):
    """Builds /repo's program with files of /verif added to package main; None when they no longer fit the code."""
    ov = os.path.join(tmp, name + '.overlay.json')
    with open(ov, 'w') as f:
        json.dump({'Replace': {'/repo/zz_verif_' + os.path.basename(x): os.path.join(HERE, 'harness', 'overlay', x) for x in files}}, f)
    out = os.path.join(tmp, name)
    r = subprocess.run(['go', 'build', *extra, '-overlay', ov, '-o', out, '.'], cwd='/repo', env=env, capture_output=True, text=True, timeout=600)
    return (out, '') if r.returncode == 0 else (None, r.stdout + r.stderr)


def reader(tmp, env, prop, tier, seed):
    out, err = overlay_build(tmp, env, 'reader', ['reader.go'])
    return {'env': {'VERIF_READER': out or ''}, 'coverage': {'program_reader': 'bound' if out else 'not bound: ' + err[-300:]}}


def program(tmp, env, prop, tier, seed):
    out, err = overlay_build(tmp, env, 'pipeline', ['pipeline.go'], ['-race'] if prop == 'C22' else [])
    prog = os.path.join(tmp, 'program')
    r = subprocess.run(['go', 'build', '-o', prog, '.'], cwd='/repo', env=env, capture_output=True, text=True, timeout=600)
    if r.returncode != 0:
        raise RuntimeError('the program does not build: ' + r.stderr[-500:])
    return {'env': {'VERIF_PIPELINE': out or '', 'VERIF_PROGRAM': prog},
            'coverage': {'result_pipeline': 'bound' if out else 'not bound: ' + err[-300:], 'program': 'bound'}}


MODELS = {
    # property: [(model, module, how, arguments, expected to hold)]
    'C01': [('poolmodel', 'poolmodel', 'run', ['--max-steps', '30'], True)],
    'C02': [('swaploop', 'swaploop', 'verify', ['--inductive-invariant', 'inductive', '--invariant', 'inv'], True),
            ('poolmodel', 'poolmodel', 'run', ['--max-steps', '30'], True)],
    'C03': [('liquidity', 'liquidity', 'verify', ['--inductive-invariant', 'inductive', '--invariant', 'inv'], True),
            ('poolmodel', 'poolmodel', 'run', ['--max-steps', '30'], True)],
    'C04': [('swaploop', 'swaploop', 'verify', ['--inductive-invariant', 'inductive', '--invariant', 'inv'], True),
            ('poolmodel', 'poolmodel', 'run', ['--max-steps', '30'], True)],
    'C05': [('poolmodel', 'poolmodel', 'run', ['--max-steps', '30'], True),
            ('roundings', 'roundings', 'run', ['--max-samples', '1', '--max-steps', '400'], True)],
    'C06': [('feegrowth', 'feegrowth', 'verify', ['--inductive-invariant', 'inductive', '--invariant', 'inv'], True),
            ('poolmodel', 'poolmodel', 'run', ['--max-steps', '30'], True)],
    'C07': [('ledger', 'apart', 'verify', ['--inductive-invariant', 'inductive', '--invariant', 'inv'], True),
            ('ledger', 'summed', 'verify', ['--invariant', 'inv', '--max-steps', '4'], False)],
    'C08': [('ledger', 'apart', 'verify', ['--inductive-invariant', 'inductive', '--invariant', 'inv'], True),
            ('poolmodel', 'poolmodel', 'run', ['--max-steps', '30'], True)],
    'C10': [('solvency', 'solvency', 'verify', ['--inductive-invariant', 'inductive', '--invariant', 'inv'], True),
            ('roundings', 'roundings', 'run', ['--max-samples', '1', '--max-steps', '400'], True)],
    'C11': [('sharing', 'copied', 'verify', ['--inductive-invariant', 'inductive', '--invariant', 'inv'], True),
            ('sharing', 'shared', 'verify', ['--invariant', 'inv', '--max-steps', '4'], False),
            ('sharing', 'kept', 'verify', ['--invariant', 'inv', '--max-steps', '4'], False)],
    'C15': [('roundings', 'roundings', 'run', ['--max-samples', '1', '--max-steps', '400'], True)],
    'C16': [('roundings', 'roundings', 'run', ['--max-samples', '1', '--max-steps', '400'], True)],
    'C12': [('refusal', 'checkedfirst', 'verify', ['--inductive-invariant', 'inductive', '--invariant', 'inv'], True),
            ('refusal', 'checkedlate', 'verify', ['--invariant', 'inv', '--max-steps', '8'], False)],
    'C14': [('wordsearch', 'wordsearch', 'verify', ['--inductive-invariant', 'inductive', '--invariant', 'inv'], True)],
    'C17': [('liquidation', 'cleared', 'verify', ['--inductive-invariant', 'inductive', '--invariant', 'inv'], True),
            ('liquidation', 'listed', 'verify', ['--invariant', 'inv', '--max-steps', '4'], False)],
    'C25': [('batches', 'batches', 'verify', ['--inductive-invariant', 'inductive', '--invariant', 'inv'], True)],
    'C19': [('schedule', 'schedule', 'verify', ['--invariant', 'inv', '--max-steps', '5'], True),
            ('timers', 'kept', 'verify', ['--inductive-invariant', 'inductive', '--invariant', 'inv'], True),
            ('timers', 'rebased', 'verify', ['--invariant', 'inv', '--max-steps', '4'], False)],
    'C20': [('replay', 'valuedbefore', 'verify', ['--inductive-invariant', 'inductive', '--invariant', 'inv'], True)],
    'C21': [('replay', 'valuedbefore', 'verify', ['--inductive-invariant', 'inductive', '--invariant', 'inv'], True),
            ('replay', 'valuedafter', 'verify', ['--invariant', 'inv', '--max-steps', '6'], False)],
    'C22': [('isolation', 'isolated', 'verify', ['--inductive-invariant', 'inductive', '--invariant', 'inv'], True),
            ('isolation', 'entangled', 'verify', ['--invariant', 'inv', '--max-steps', '12'], False)],
    'C23': [('window', 'window', 'verify', ['--inductive-invariant', 'inductive', '--invariant', 'inv'], True)],
}
DEEPER = {'schedule': 8}   # steps at the thorough tier


def models(tmp, env, prop, tier, seed, harness):
    """The design-level models: what the specification's own state machines promise, apart from the code."""
    import random
    from concurrent.futures import ThreadPoolExecutor

    def one(m):
        model, module, how, args, holds = m
        args = list(args)
        if tier == 'thorough' and module in DEEPER:
            args[args.index('--max-steps') + 1] = str(DEEPER[module])
        f = os.path.join(HERE, 'spec', 'models', model + '.qnt')
        said = 'not run'
        for _ in range(2):
            cmd = ['quint', how, f, '--main', module]
            if how == 'run':
                cmd += ['--invariant', 'inv', '--seed', str(seed)] + args
                if '--max-samples' not in args:
                    cmd += ['--max-samples', '100' if tier == 'quick' else '3000']
            else:
                cmd += ['--server-endpoint', 'localhost:%d' % random.SystemRandom().randint(20000, 60000)] + args
            try:
                r = subprocess.run(cmd, cwd=tmp, env=env, capture_output=True, text=True, timeout=200 if tier == 'quick' else 3000)
            except subprocess.TimeoutExpired:
                said = 'no answer in time'
                continue
            out = r.stdout + r.stderr
            if r.returncode == 0 and '[ok]' in out:
                said = 'holds'
            elif '[violation]' in out:
                said = 'violated'
            else:
                said = 'not run: ' + out[-300:]
                continue
            break
        name = f'model {module} ({how} ' + ' '.join(args) + ')'
        # a model that could not be run says nothing; one that answers otherwise than expected is a mistake in /verif
        return name, said, f'model {module}: {said}' if said in ('holds', 'violated') and (said == 'holds') != holds else None
    with ThreadPoolExecutor(3) as ex:
        said = list(ex.map(one, MODELS[prop]))
    cov = {n: s for n, s, _ in said}
    error = next((e for _, _, e in said if e), None)
    return {'coverage': {'models': cov}, 'error': error}


AFTER['models'] = models
PREPARE['reader'] = reader
PREPARE['program'] = program


def pool_plan(prop, tier):
    t = 25 if tier == 'quick' else 600
    more = 1 if prop in ('C03', 'C06', 'C11') else 0
    jobs = [dict(POOL, workers=6 - more, time=t, steps=60, options={'profiles': PROFILES[prop]}),
            dict(POOL, workers=2, time=t, steps=200, options={'profiles': PROFILES[prop]})]
    if prop == 'C11':
        jobs.append(dict(STRAT, workers=1, time=t, steps=50, options={'profiles': ALL_KINDS}))
    elif more:
        jobs.append(dict(TICKS, workers=1, time=t, steps=100, options={'profiles': RANDOM_TICKS}))
    return dict(jobs=jobs, level='model_checking', need=POOL_NEED[prop])


MATH = dict(spec='mathtrace.qnt', module='mathtrace', suite='math')
TABLE = dict(spec='ticktable.qnt', module='ticktable', suite='math')


def c13(prop, tier):
    jobs = [dict(TABLE, workers=1, time=800, steps=10**6, options={'profiles': str(k), 'runs': 1}) for k in range(16)]
    jobs += [dict(MATH, workers=8, time=6 if tier == 'quick' else 300, steps=100, options={'profiles': '5'})]
    return dict(jobs=jobs, level='model_checking',
                need=[f'complete: segment {k}' for k in range(16)] +
                     ['tickof: on a tick', 'tickof: just below a tick', 'tickof: between ticks', 'tickof: outside', 'round: negative', 'ceil: negative',
                      'floor: negative', 'round: not negative'],
                note='Every one of the 1,774,545 ticks is compared with the specification: price, monotonicity, tick of the price and of the price '
                     'just below it (exhaustive). Prices between ticks and alignment are sampled by the specification.')


def c15(prop, tier):
    return dict(jobs=[dict(MATH, workers=8, time=25 if tier == 'quick' else 600, steps=100, options={'profiles': '0,1,0,2,3'})], level='model_checking',
                need=['step: exact input reaches the target', 'step: exact input stops before the target', 'step: exact output reaches the target',
                      'step: exact output stops before the target', 'step: price does not move', 'muldiv: product needs two words',
                      'nextin: product overflows a word', 'nextin: sum overflows a word', 'nextin: amount beyond 160 bits', 'nextout: accepted', 'amt0r: negative', 'amt1r: negative'])


def c16(prop, tier):
    return dict(jobs=[dict(MATH, workers=8, time=25 if tier == 'quick' else 600, steps=100, options={'profiles': '4'})], level='model_checking',
                need=[f'{k}: {w}' for k in ('liq', 'afford') for w in ('price below the range' if k == 'liq' else 'price inside', 'price on the lower end',
                      'price inside', 'price on the upper end', 'price above the range')])


def c14(prop, tier):
    t = 20 if tier == 'quick' else 600
    jobs = [dict(TICKS, workers=1, time=800, steps=400, options={'profiles': str(10 + k), 'runs': 1}) for k in range(28)]
    jobs += [dict(TICKS, workers=6, time=t, steps=100, options={'profiles': RANDOM_TICKS}),
             dict(POOL, workers=2, time=t, steps=60, options={'profiles': '2,1,9,8'})]
    return dict(jobs=jobs, level='model_checking',
                need=['random: clears a tick', 'random: crosses a tick', 'random: fees inside', 'enum: many ticks'],
                note='All 256 subsets of 8 candidate ticks around each of 28 corners (0, word ends, the ends of the range, every spacing) are searched '
                     'from every candidate in both directions (exhaustive in that bound); beyond that tick lists are drawn at random.')


def c23(prop, tier):
    return dict(jobs=[dict(spec='pricehist.qnt', module='pricehist', suite='prices', workers=8, time=20 if tier == 'quick' else 600, steps=120)],
                level='model_checking',
                need=['add: wrapped more than once', 'add: partly filled', 'add: refused price', 'new: empty'])


def c24(prop, tier):
    return dict(jobs=[dict(spec='txfile.qnt', module='txfile', suite='tx', workers=8, time=20 if tier == 'quick' else 600, steps=100)],
                level='model_checking', prepare=['reader'],
                need=[f'{k}: {w}' for k in ('Swap', 'Mint', 'Burn') for w in ('written', 'negative amount', 'zero tick', 'more than 128 bits')] + ['Flash: written'])


def c26(prop, tier):
    return dict(jobs=[dict(spec='words.qnt', module='words', suite='words', workers=8, time=25 if tier == 'quick' else 600, steps=150,
                           options={'profiles': '0,1,1,2,2,3,4,5,6,7,7,8,9,1,2'})], level='model_checking')


KINDS = ['none', 'v2', 'constant', 'price', 'swap', 'two', 'average', 'fill', 'limit', 'bands', 'bandsfill', 'vol']
STRAT = dict(spec='strattrace.qnt', module='strattrace', suite='strat')
EXEC = dict(spec='exectrace.qnt', module='exectrace', suite='exec')
METRICS = dict(spec='metricstrace.qnt', module='metricstrace', suite='metrics')
ALL_KINDS = ','.join(str(i) for i in range(12))


def c17(prop, tier):
    t = 40 if tier == 'quick' else 900
    need = [f'{k}: {w}' for k in KINDS for w in ('start', 'rebalance', 'burnall', 'amounts')]
    need += [f'{k}: holds one position' for k in KINDS[1:]] + [f'{k}: holds three positions' for k in ('two', 'limit')]
    need += [f'{k}: holds two positions' for k in ('fill', 'bandsfill')]
    need += ['swap: swaps token0', 'swap: swaps token1', "swap: uses up the pool's token0", "swap: uses up the pool's token1"] + [f'{k}: starts with a partly filled history' for k in ('average', 'bands', 'bandsfill', 'vol')]
    need += [f'{k}: at the {e} end of its rule' for k in ('constant', 'average', 'bands', 'bandsfill') for e in ('lower', 'upper')]
    # every worker goes through the kinds, each starting elsewhere
    return dict(jobs=[dict(STRAT, workers=7, time=t, steps=50, options={'profiles': ALL_KINDS}),
                      dict(EXEC, workers=1, time=t, steps=12, options={'profiles': ALL_KINDS})], level='model_checking', need=need)


def c19(prop, tier):
    t = 35 if tier == 'quick' else 900
    need = ['start: never', 'start: first transaction', 'start: later transaction', 'end: before the first transaction', 'end: inside the history',
            'end: after the history', 'schedule: history before the start', 'schedule: tied timestamps', 'schedule: a gap of several value snapshots',
            'schedule: a gap of several rebalances', 'schedule: a gap of several price snapshots', 'alone: stub',
            'call: start moves the price', 'call: another call moves the price'] + \
           ['transaction: ' + x for x in ('Mint', 'Burn', 'Flash', 'flash of token0', 'flash of token1', 'swap of token0', 'swap of token1', 'swap of nothing', 'another kind')]
    own = {'C19': '12,12,0,1,12,5,12,10', 'C20': '12,0,1,12,0,1,12,10', 'C21': '12,0,1,12,5,8,12,10'}[prop]
    jobs = [dict(EXEC, workers=6, time=t, steps=12, options={'profiles': own}),
            dict(EXEC, workers=1 if prop == 'C21' else 2, time=t, steps=12, options={'profiles': ALL_KINDS})]
    if prop == 'C21':
        jobs.append(dict(STRAT, workers=1, time=t, steps=50, options={'profiles': ALL_KINDS}))
    return dict(jobs=jobs, level='model_checking', need=need)


def c22(prop, tier):
    t = 40 if tier == 'quick' else 900
    return dict(jobs=[dict(EXEC, workers=2, time=t, steps=6, options={'profiles': '13,14,13'}),
                      dict(EXEC, workers=3, time=t, steps=6, race=True, options={'profiles': '13,14,13'}),
                      dict(METRICS, workers=1, time=t, steps=10, options={'profiles': '6'}),
                      dict(METRICS, workers=1, time=120 if tier == 'quick' else t, steps=1, options={'profiles': '7', 'runs': 1 if tier == 'quick' else 40}),
                      dict(STRAT, workers=1, time=t, steps=50, options={'profiles': ALL_KINDS})], level='model_checking', prepare=['program'],
                need=['together: ' + k for k in KINDS] + ['call: ' + c for c in ('start', 'snapshot', 'amounts', 'rebalance', 'burnall')],
                need_if={'together: bound': ['together: more than four runs']})


def c25(prop, tier):
    t = 40 if tier == 'quick' else 900
    return dict(jobs=[dict(METRICS, workers=3, time=t, steps=3, options={'profiles': '1'}),
                      dict(METRICS, workers=4, time=t, steps=10, options={'profiles': '0'}),
                      dict(METRICS, workers=1, time=300, steps=1, options={'profiles': '2,3,4,5', 'runs': 4})], level='model_checking', prepare=['program'],
                need=['program: bound', 'program: more than forty values', 'unsaved: no space', 'unsaved: directory is a file', 'unsaved: no such directory', 'unsaved: target is a directory'],
                need_if={'values: bound': ['values: weeks', 'values: days', 'values: more than twenty days', 'values: constant']})


PLANS = {'C17': c17, 'C18': c17, 'C19': c19, 'C20': c19, 'C21': c19, 'C22': c22, 'C25': c25, 'C13': c13, 'C14': c14, 'C15': c15, 'C16': c16, 'C23': c23, 'C24': c24, 'C26': c26}


def plan(prop, tier):
    if prop in PROFILES:
        p = pool_plan(prop, tier)
    elif prop in PLANS:
        p = PLANS[prop](prop, tier)
    else:
        raise SystemExit('no plan for ' + prop)
    if prop in MODELS:
        p['after'] = p.get('after', []) + ['models']
    return p


def coverage(prop, plan, results):
    steps = sum(s['steps'] for _, _, s in results)
    tags, kinds = {}, {}
    for _, _, s in results:
        for k, n in s['tags'].items():
            tags[k] = tags.get(k, 0) + n
        for k, n in s['kinds'].items():
            kinds[k] = kinds.get(k, 0) + n
    return {'states': steps + sum(s['runs'] for _, _, s in results), 'transitions': steps,
            'traces_validated_against_impl': sum(s['runs'] for _, _, s in results),
            'evaluations': steps, 'distinct_nontrivial': sum(s['distinct'] for _, _, s in results),
            'rule': 'requests are chosen by the `choose` action of the specification and judged by its `observe` action '
                    'against the real code; distinct by all arguments',
            'requests_by_kind': dict(sorted(kinds.items())), 'situations': dict(sorted(tags.items())),
            'samples': [x for _, _, s in results[:3] for x in s['samples'][:1]]}


def vacuous(prop, plan, results):
    tags = set()
    for _, _, s in results:
        tags |= set(s['tags'])
    need = plan.get('need', []) + [n for k, l in plan.get('need_if', {}).items() if k in tags for n in l]
    return [n for n in need if n not in tags] + \
        (['OUT OF FUEL in the specification'] if any('OUT OF FUEL' in t for t in tags) else [])

NOTE = ('Every explored step of the real code is compared with the exact result of the Quint specification and judged by its '
        'predicates. Randomized histories chosen by the specification, bounded length; trusts the Quint evaluator and the harness.')
