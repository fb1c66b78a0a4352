"""What is done to decide each property."""
import json, math, os, random, re

from . import core, gen, trace
from .core import QUICK, SEED

CMATRACE = open(os.path.join(core.SPEC, 'CMATrace.cfg')).read().split('\n')

LONGTRACE = open(os.path.join(core.SPEC, 'LongTrace.cfg')).read().split('\n')


def rng(*what):
    return random.Random('%s/%s' % (SEED, '/'.join(str(w) for w in what)))


def run_suite(ck, name, count, batches=1, checked=None, expect=(), **kw):
    """Generates cases with gen.<name>_cases, runs them in the real code, and validates what was
    recorded against CMATrace."""
    for b in range(batches):
        r = rng(name, b)
        cases = kw['runs'] if 'runs' in kw else getattr(gen, name + '_cases')(r, count, '%s-%d-' % (name, b), **kw)
        by_id = {c['id']: c for c in cases}
        what = '%s %d' % (name, b)
        outs = ck.drive(cases, what=what, timeout=240 if QUICK else 900)
        traces = []
        for c in cases:
            o = outs.get(c['id'])
            if o is None:
                continue
            if 'err' in o['init']:
                ck.violation('valid options are rejected: %s' % o['init']['err'], {'case': c})
                continue
            traces.append(trace.trace(c, o))
        if b == 0 and traces:
            t = traces[0]
            ck.samples.append({'suite': name, 'case': c_short(by_id[t['id']]), 'steps': len(t['steps'])})
        ck.validate('CMATrace', CMATRACE, traces, by_id, '%s-%d' % (name, b), checked=checked,
                    expect=sum(t_states(t) for t in traces))
        if ck.violations:
            return


def run_model(ck, cfg, count, deeper):
    """Explores MCRun and replays its behaviours, or count of them, in the real code.  deeper: the depth
    of the exploration in the thorough tier"""
    path = os.path.join(ck.work, cfg + '.nd')
    if not QUICK and deeper:
        ck.model('MCRun', cfg, {'Depth': deeper}, name=cfg + '-deeper', timeout=1800)
    ck.model('MCRun', cfg, {'EmitTo': '"%s"' % path})
    found = sorted(set(open(path)))
    ck.notes['behaviours of ' + cfg] = len(found)
    r = rng(cfg)
    if len(found) > count:
        found = r.sample(found, count)
    os.remove(path)
    size = 1500
    for b in range(0, len(found), size):
        run_suite(ck, cfg, 0, runs=gen.run_behaviours(r, [json.loads(l) for l in found[b:b + size]], '%s-%d-' % (cfg, b)))
        if ck.violations:
            return


def run_long(ck, count, gens, stride, trend=0):
    """Very long runs, against LongTrace"""
    r = rng('long', gens)
    cases = gen.long_cases(r, count, 'long-', gens, trend)
    by_id = {c['id']: {k: v for k, v in c.items()} for c in cases}
    outs = ck.drive(cases, what='long', timeout=240 if QUICK else 1200)
    traces = []
    for c in cases:
        o = outs.get(c['id'])
        if o is None:
            continue
        if 'err' in o['init'] or 'panic' in o['init'] or o['steps'][0]['panic']:
            ck.violation('a long run fails', {'case': c, 'init': o['init']})
            continue
        traces.append(trace.long_trace(c, o, stride))
    ck.notes['generations of long runs'] = sum(len(t['vals']) for t in traces)
    ck.validate('LongTrace', LONGTRACE, traces, by_id, 'long-%d' % gens,
                expect=sum(len(t['samples']) + 1 for t in traces))


def run_options(ck, name, triples, fields=None):
    """Sequences of option calls, against OptTrace"""
    r = rng('options', name)
    cases = [trace.option_case('%s-%d' % (name, i), m, s, c, r.random() < 0.3 if fields is None else fields)
             for i, (m, s, c) in enumerate(triples)]
    outs = ck.drive(cases, what=name)
    traces = [trace.option_trace(c, outs[c['id']]) for c in cases if c['id'] in outs]
    if traces:
        ck.samples.append({'suite': name, 'case': cases[0]['opts']})
    ck.validate('OptTrace', ['SPECIFICATION Spec'], traces, {c['id']: c for c in cases}, name,
                expect=2 * len(traces))


def generated_options(ck, depth, rich):
    """Every sequence of up to depth calls, as enumerated by TLC"""
    path = os.path.join(ck.work, 'options.nd')
    ck.model('MCOptions', 'MCOptions', {'Depth': depth, 'OutFile': '"%s"' % path, 'Rich': rich})
    seen = {}
    for line in open(path):
        seen[line] = 1
    return [(o['mean'], o['sigma'], [[c['k'], c['s']] for c in o['calls']]) for o in map(json.loads, sorted(seen))]


def c10(ck):
    ck.model('MCParams', 'MCParams', None if QUICK else {'MaxN': 40, 'MaxLambda': 60})
    run_options(ck, 'params', gen.params_cases(rng('params'), sized(3000, 30000), 'p', sized(60, 120)))


def c16(ck):
    run_options(ck, 'enumerated', generated_options(ck, sized(1, 2), 'TRUE'))
    run_options(ck, 'pairs', rng('pairs').sample(generated_options(ck, 2, 'FALSE'), 4000) if QUICK
                else generated_options(ck, 2, 'FALSE'))
    run_options(ck, 'calls', gen.option_calls(rng('calls'), sized(2500, 20000)))


def run_sampling(ck, name, cases, timeout=60):
    outs = ck.drive(cases, what=name, timeout=timeout if QUICK else 600)
    traces = []
    for c in cases:
        o = outs.get(c['id'])
        if o is None:
            continue
        t = trace.samp_trace(c, o) if 'err' not in o['init'] and 'panic' not in o['init'] else None
        if t is None:
            ck.violation('a constrained run fails', {'case': c})
        else:
            traces.append(t)
    if traces:
        ck.samples.append({'suite': name, 'case': c_short(cases[0])})
    ck.validate('SampTrace', ['SPECIFICATION Spec'], traces, {c['id']: c for c in cases}, name,
                expect=sum(trace.samp_states(t) for t in traces))


def emitted(ck, model, over=None):
    """What a model writes out with EmitJson, in an order that does not depend on TLC's workers"""
    path = os.path.join(ck.work, model + '.nd')
    ck.model(model, model, dict({'OutFile': '"%s"' % path}, **(over or {})))
    return [json.loads(l) for l in sorted(set(open(path)))]


def c11(ck):
    """The law of the points; every batch has its own runs"""
    pool = os.path.join(ck.work, 'pool.nd')
    lines = []
    batches = [gen.law_cases(rng('law', b), sized(54, 72), 'law-%d-' % b, sized(30000, 50000))
               for b in range(sized(1, 12))]
    batches.append(gen.start_cases(rng('starts'), sized(500, 6000), 'start-'))
    for b, cases in enumerate(batches):
        outs = ck.drive(cases, what='law %d' % b, timeout=sized(240, 900))
        traces = [trace.law_trace(c, outs[c['id']]) for c in cases if c['id'] in outs]
        if not all(traces):
            bad = [c for c in cases if c['id'] in outs and
                   ('err' in outs[c['id']]['init'] or 'panic' in outs[c['id']]['init']
                    or any(s['panic'] for s in outs[c['id']]['steps']))]
            if bad:
                ck.violation('a run fails', {'case': bad[0]})
            ck.notes['runs without hooks'] = traces.count(None) - len(bad)
            traces = [t for t in traces if t]
        if b == 0 and traces:
            ck.samples.append({'suite': 'law', 'case': c_short(cases[0])})
        ck.validate('SampLaw', ['SPECIFICATION Spec'], traces, {c['id']: c for c in cases}, 'law-%d' % b,
                    extra=['  PoolFile = "%s"' % pool], expect=sum(len(t['gens']) + 2 for t in traces))
        if os.path.exists(pool):
            lines += sorted(set(open(pool)))
            os.remove(pool)
    text = open(os.path.join(core.SPEC, 'SampLaw.tla')).read()
    edges = re.findall(r'F\("([^"]+)"\)', re.search(r'Edges ==\s*<<(.*?)>>', text, re.S).group(1))
    outs = ck.drive(gen.cells_cases(rng('cells'), sized(10, 60), edges, sized(3, 10)), what='cells', timeout=sized(120, 900))
    lines += [json.dumps(dict({k: o[k] for k in ('id', 'n', 'hist')}, start={'n': 0})) for o in outs.values()]
    if lines and not ck.violations:
        runs = [json.loads(l) for l in lines]
        ck.validate('SampPool', ['SPECIFICATION Spec'], runs, None, 'pool', expect=len(runs) + 2)


def c12(ck):
    bs = emitted(ck, 'MCSampling', None if QUICK else {'Lambdas': '{2, 3, 4, 5}', 'MaxRounds': '5'})
    ck.notes['behaviours of MCSampling'] = len(bs)
    if len(bs) > sized(6000, 40000):
        bs = rng('behaviours').sample(bs, sized(6000, 40000))
    run_sampling(ck, 'behaviours', gen.behaviour_cases(rng('behaviours', 1), bs, 'mc-'))
    for b in range(sized(2, 10)):
        run_sampling(ck, 'samp-%d' % b, gen.samp_cases(rng('samp', b), sized(900, 1500), 'samp-%d-' % b))
    cases = gen.bounds_cases(rng('bounds'), sized(300, 3000), 'bounds-')
    outs = ck.drive(cases, what='bounds')
    ck.validate('BoundsTrace', ['SPECIFICATION Spec'], list(outs.values()), {c['id']: c for c in cases}, 'bounds',
                expect=2 * len(cases))


def run_pairs(ck, name, pairs, outs=None, checked=None):
    """Pairs of runs, against Pairs"""
    if outs is None:
        # the two runs of a pair end up in different processes
        outs = ck.drive([c for p in pairs for c in (p['a'], p['b'])], what=name, timeout=sized(240, 900))
    traces = []
    for p in pairs:
        a, b = outs.get(p['a']['id']), outs.get(p['b']['id'])
        if a is None or b is None:
            continue
        t = trace.pair_trace(p, a, b)
        if t is None:
            ck.violation('%s: a run fails' % p['kind'], {'case': p})
        else:
            traces.append(t)
    if traces:
        ck.samples.append({'suite': name, 'kind': pairs[0]['kind'], 'a': c_short(pairs[0]['a']), 'b': c_short(pairs[0]['b'])})
    ck.validate('Pairs', ['SPECIFICATION Spec'], traces, {p['id']: p for p in pairs}, name, checked=checked,
                expect=sum(len(t['a']) + 2 for t in traces))


def c13(ck):
    for b in range(sized(1, 10)):
        run_pairs(ck, 'seeds-%d' % b, gen.seed_pairs(rng('seeds', b), sized(400, 900), 'seeds-%d-' % b))
    # seeds that are chosen randomly: each such run, repeated with the seed that it reports
    cases = gen.seedless(rng('seedless'), sized(60, 600), 'seedless-')
    first = ck.drive([c for two in cases for c in two], what='random seeds')
    pairs, again = [], []
    for a, b in cases:
        if a['id'] not in first or b['id'] not in first:
            continue
        pairs.append(gen.pair('random seeds', 'C13', a, b, id=a['id'] + '/differ', rel={'differ': True}))
        p = first[a['id']]['init'].get('params')
        if p:
            c = gen.clone(a, id=a['id'] + '-again')
            c['opts']['seed'] = int(p['seed'])
            again.append(c)
            pairs.append(gen.pair('reported seed', 'C13', a, c, id=c['id']))
    first.update(ck.drive(again, what='reported seeds'))
    run_pairs(ck, 'random-seeds', pairs, first)


def c14(ck):
    for b in range(sized(1, 10)):
        run_pairs(ck, 'threads-%d' % b, gen.parallel_pairs(rng('threads', b), sized(300, 800), 'threads-%d-' % b))
    # every generation of runs with parallel evaluation and parallel updates against the specification
    run_suite(ck, 'parallel', sized(80, 200), sized(1, 8), checked=['C01', 'C02', 'C08', 'C09', 'C14'])
    run_suite(ck, 'dist', sized(30, 80), sized(1, 4), checked=['C08', 'C09', 'C14'], par=1.0)


def c15(ck):
    ck.model('MCPair', 'MCPair', None if QUICK else {'Cfgs': 'CfgsPairMore'})
    for b in range(sized(1, 10)):
        run_pairs(ck, 'symmetry-%d' % b, gen.symmetric_pairs(rng('symmetry', b), sized(500, 900), 'symmetry-%d-' % b))


def c19(ck):
    cases = gen.wrapper_cases(rng('wrappers'), sized(1500, 15000), 'wrap-')
    outs = ck.drive(cases, what='wrappers')
    traces = [trace.scale_trace(c, outs[c['id']]) for c in cases if c['id'] in outs]
    ck.validate('Wrappers', ['SPECIFICATION Spec'], traces, {c['id']: c for c in cases}, 'wrappers',
                expect=sum(len(t['steps']) + 1 for t in traces))
    for b in range(sized(1, 10)):
        run_pairs(ck, 'wrapped-%d' % b, gen.wrapper_pairs(rng('wrapped', b), sized(240, 800), 'wrapped-%d-' % b))
    for b in range(sized(1, 8)):
        cases = gen.conv_cases(rng('conv', b), sized(240, 600), 'conv-%d-' % b)
        outs = ck.drive(cases, what='conv %d' % b)
        plain = []
        for c in cases:
            if c['id'] in outs:
                h = [l for l in trace.parse_lines(outs[c['id']]['out']) if l['t'] == 'header']
                plain.append(gen.conv_plain(c, int(h[0]['seed']) if len(h) == 1 else 1))
        runs = ck.drive(plain, what='plain %d' % b)
        traces = [trace.conv_trace(c, outs[c['id']], runs.get(c['id'] + '-plain')) for c in cases
                  if c['id'] in outs and c['id'] + '-plain' in runs]
        ck.samples.append({'suite': 'conv', 'case': cases[0]})
        ck.validate('Wrappers', ['SPECIFICATION Spec'], traces, {c['id']: c for c in cases}, 'conv-%d' % b,
                    expect=2 * len(traces))


RESTARTS = ['SPECIFICATION Spec', 'CONSTANTS', '  BetterValue <- BetterF', '  MaxIpopRuns = 10']


def run_restarts(ck, name, cases, checked=None, pool=''):
    """Restarters, against RestartTrace"""
    outs = ck.drive(cases, what=name, timeout=sized(240, 900))
    traces = [trace.restart_trace(c, outs[c['id']]) for c in cases if c['id'] in outs]
    if traces:
        ck.samples.append({'suite': name, 'case': cases[0]})
    ck.notes['runs of ' + name] = sum(len(t['runs']) for t in traces)
    ck.validate('RestartTrace', RESTARTS, traces, {c['id']: c for c in cases}, name, checked=checked,
                extra=['  PoolFile = "%s"' % pool],
                expect=sum(trace.restart_states(t) for t in traces))


def restart_plans(ck, quick, thorough, cfgs=('CfgsLocal', 'CfgsIpop', 'CfgsBipop')):
    """Behaviours of MCRestart, replayed in the real code"""
    for k in cfgs:
        path = os.path.join(ck.work, k + '.nd')
        ck.model('MCRestart', 'MCRestart', {'Cfgs': k, 'OutFile': '"%s"' % path})
        plans = [json.loads(l) for l in sorted(set(open(path)))]
        plans = [p for p in plans if not p['cfg']['late']]
        ck.notes['plans of ' + k] = len(plans)
        r = rng('plans', k)
        if len(plans) > sized(quick, thorough):
            plans = r.sample(plans, sized(quick, thorough))
        run_restarts(ck, k, gen.restart_plans(r, plans, k + '-'))


def run_restart_pairs(ck, name, pairs, outs=None):
    if outs is None:
        outs = ck.drive([c for p in pairs for c in (p['a'], p['b'])], what=name, timeout=sized(240, 900))
    traces = [trace.restart_pair_trace(p, outs[p['a']['id']], outs[p['b']['id']]) for p in pairs
              if p['a']['id'] in outs and p['b']['id'] in outs]
    if traces:
        ck.samples.append({'suite': name, 'kind': pairs[0]['kind'], 'a': pairs[0]['a'], 'b': pairs[0]['b']})
    ck.validate('RestartPairs', ['SPECIFICATION Spec'], traces, {p['id']: p for p in pairs}, name,
                expect=sum(3 + (0 if t['rel']['differ'] else len(t['a']['runs'])) for t in traces))


def restart_suites(ck, t, plans, sizes):
    """sizes: (quick, thorough) numbers of cases"""
    for b in range(sized(1, 10)):
        for k, (q, th) in sizes.items():
            f = {'cases': gen.restart_cases, 'whole': gen.restart_whole, 'options': gen.restart_options,
                 'extreme': gen.restart_extreme, 'timed': gen.restart_timed, 'spread': gen.restart_spread}[k]
            kw = {'t': t[b % len(t)]} if k in ('cases', 'whole') and len(t) == 1 else {}
            cs = f(rng(k, t, b), sized(q, th), '%s-%d-' % (k, b), **kw)
            if len(t) == 2:
                cs = [c for c in cs if c['strategy']['t'] in t]
            pool = os.path.join(ck.work, '%s-%d.pool' % (k, b)) if k == 'spread' else ''
            run_restarts(ck, '%s-%d' % (k, b), cs, pool=pool)
            if k == 'spread' and os.path.exists(pool) and not ck.violations:
                lines = [json.loads(l) for l in sorted(set(open(pool)))]
                ck.validate('RestartPool', ['SPECIFICATION Spec'], lines, None, 'pool-%d' % b, expect=len(lines) + 2)


def c20(ck):
    restart_plans(ck, 150, 3000)
    restart_suites(ck, (), None, {'cases': (250, 500), 'timed': (60, 100), 'options': (400, 800)})
    for b in range(sized(1, 10)):
        run_restart_pairs(ck, 'pairs-%d' % b, gen.restart_pairs(rng('rpairs', b), sized(80, 300), 'pairs-%d-' % b, ['limits', 'reversed']))


def c21(ck):
    restart_plans(ck, 100, 2000, ('CfgsLocal', 'CfgsBipop'))
    restart_suites(ck, (), None, {'cases': (600, 1500), 'extreme': (60, 200)})


def c22(ck):
    restart_plans(ck, 100, 2000, ('CfgsLocal', 'CfgsIpop'))
    restart_suites(ck, ('local', 'ipop'), None, {'cases': (400, 1500), 'whole': (60, 300), 'options': (500, 2000), 'extreme': (100, 300)})
    for b in range(sized(1, 10)):
        run_restart_pairs(ck, 'pairs-%d' % b, gen.restart_pairs(rng('rpairs', b), sized(60, 300), 'pairs-%d-' % b, ['explicit']))


def c23(ck):
    ck.model('MCRestart', 'MCRestart_long')
    if not QUICK:
        ck.model('MCRestart', 'MCRestart_long', {'Cfgs': 'CfgsGrow', 'MaxIpopRuns': '4'})
    restart_plans(ck, 300, 4000, ('CfgsBipop',))
    restart_suites(ck, ('bipop',), None, {'cases': (250, 800), 'whole': (40, 100), 'spread': (20, 60)})
    for b in range(sized(1, 10)):
        run_restart_pairs(ck, 'pairs-%d' % b, gen.restart_pairs(rng('rpairs', b), sized(60, 300), 'pairs-%d-' % b, ['explicit']))


def c24(ck):
    restart_suites(ck, (), None, {'cases': (500, 1500), 'whole': (20, 80), 'spread': (12, 40), 'extreme': (30, 100)})
    for b in range(sized(1, 10)):
        run_restart_pairs(ck, 'pairs-%d' % b, gen.restart_pairs(rng('rpairs', b), sized(100, 400), 'pairs-%d-' % b, ['overridden']))


def c25(ck):
    restart_suites(ck, (), None, {'cases': (250, 800)})
    for b in range(sized(1, 10)):
        run_restart_pairs(ck, 'pairs-%d' % b,
                          gen.restart_pairs(rng('rpairs', b), sized(400, 900), 'pairs-%d-' % b,
                                            ['again', 'variant', 'variant', 'printed', 'printed and variant', 'other seed', 'near seed']))
    # seeds that are chosen randomly, and the seeds that are reported
    first, pairs, again = [], [], []
    for i, c in enumerate(gen.restart_cases(rng('seedless'), sized(60, 400), '')):
        if c['obj']['base'] in gen.STATEFUL or c['obj'].get('faults'):
            continue
        c.pop('pupd', 0), c.pop('seed')
        c['obj'] = {'base': 'hash'}
        first.append(gen.restart_pair('random seeds', 'C25', c, c, 'seedless-%d' % i, differ=True))
    outs = ck.drive([c for p in first for c in (p['a'], p['b'])], what='random seeds')
    for p in first:
        if p['a']['id'] in outs and p['b']['id'] in outs:
            pairs.append(p)
            if outs[p['a']['id']].get('seed'):
                q = gen.restart_pair('reported seed', 'C25', p['a'], dict(p['a'], seed=int(outs[p['a']['id']]['seed'])), p['id'] + '-again')
                outs[q['a']['id']] = outs[p['a']['id']]
                again.append(q)
    outs.update(ck.drive([q['b'] for q in again], what='reported seeds'))
    run_restart_pairs(ck, 'random-seeds', pairs + again, outs)


def c_short(c):
    return {k: c[k] for k in ('id', 'opts', 'obj', 'ops') if k in c}


def t_states(t):
    """Number of states of the behaviour that accepts the trace"""
    n = 1
    lam = t['cfg']['lambda']
    if lam < 0:
        lam = 4 + int(3 * math.log(t['cfg']['n']))
    for s in t['steps']:
        if s['op'] in ('run', 'runp') and s['panic'] == '':
            n += max(1, -(-len(s['evs']) // lam))
        else:
            n += 1
    return n


def sized(quick, thorough):
    return quick if QUICK else thorough


def need(ck, labels):
    """The labels that must have been exercised for the check to mean something.  On changed code they
    can be missing for other reasons, so this is only recorded."""
    missing = [l for l in labels if not ck.labels.get(l)]
    if missing:
        ck.notes['not exercised'] = missing
        ck.log('not exercised:', missing)


def c01(ck):
    run_model(ck, 'MCRun_values', sized(1200, 12000), '4')
    run_model(ck, 'MCRun_inf', sized(800, 12000), None)
    if not QUICK:
        ck.model('MCRun', 'MCRun_values3', {'Depth': '3'})
    run_suite(ck, 'values', 350, sized(1, 12))
    run_suite(ck, 'parallel', 80, sized(1, 12))
    run_suite(ck, 'fault', 80, sized(1, 6))
    run_suite(ck, 'dist', sized(20, 60), sized(1, 8))
    run_suite(ck, 'big', 14, sized(1, 10))
    run_suite(ck, 'lengthy', sized(5, 16), sized(1, 4), gens=sized(500, 2000))
    need(ck, ['current best', 'overall best', 'returned individuals', 'returned mean'])


def c02(ck):
    run_model(ck, 'MCRun_budget', sized(1500, 15000), '4')
    run_suite(ck, 'fault', 300, sized(1, 10))
    run_suite(ck, 'budget', 160, sized(1, 10))
    run_suite(ck, 'values', 100, sized(1, 10))
    run_suite(ck, 'parallel', 60, sized(1, 10))
    run_suite(ck, 'posdef', sized(30, 100), sized(1, 8))
    run_suite(ck, 'extremes', 20, sized(1, 10))
    run_suite(ck, 'big', 14, sized(1, 10))
    run_suite(ck, 'lengthy', sized(5, 16), sized(1, 4), gens=sized(500, 2000))


def c03(ck):
    run_model(ck, 'MCRun_budget', sized(1500, 15000), '4')
    run_suite(ck, 'budget', 450, sized(1, 20))
    run_suite(ck, 'fault', 60, sized(1, 6))


def c04(ck):
    run_model(ck, 'MCRun_values', sized(1200, 12000), '4')
    run_model(ck, 'MCRun_inf', sized(600, 12000), None)
    run_suite(ck, 'tolfun', 500, sized(1, 20))
    run_suite(ck, 'values', 60, sized(1, 6))
    run_suite(ck, 'lengthy', sized(5, 16), sized(1, 4), gens=sized(500, 2000))
    need(ck, ['C04/%s fires' % x for x in ('FunTarget', 'TolFun', 'TolFunRel', 'TolFunHist')])


def c05(ck):
    ck.model('MCRun', 'MCRun_stag', None if QUICK else {'Depth': '7'})
    run_suite(ck, 'stag', sized(180, 300), sized(1, 10))
    run_long(ck, sized(5, 8), sized(24000, 30000), sized(80, 60))
    # the longest window and the histories at their greatest length
    run_long(ck, sized(1, 4), 103000, sized(4000, 500), 20)
    if not QUICK:
        run_long(ck, 3, 104000, 500)
    need(ck, ['C05/TolStagnation fires'])


def c06(ck):
    run_suite(ck, 'crit', 400, sized(1, 20))
    run_suite(ck, 'dist', sized(20, 80), sized(1, 10))
    run_suite(ck, 'extremes', 50, sized(1, 10))
    run_suite(ck, 'lengthy', sized(5, 16), sized(1, 4), gens=sized(500, 2000))
    need(ck, [x + ' fires' for x in ('TolX', 'TolXUp', 'TolConditionCov', 'NoEffectAxis', 'NoEffectCoord')])


def c07(ck):
    run_model(ck, 'MCRun_inf', sized(1500, 15000), '5')
    ck.model('MCRun', 'MCRun_other')
    run_suite(ck, 'fault', 450, sized(1, 20))
    run_suite(ck, 'late', 60, sized(1, 10))
    run_suite(ck, 'values', 100, sized(1, 8))


def c08(ck):
    run_suite(ck, 'dist', sized(150, 150), sized(1, 14))
    run_suite(ck, 'parallel', sized(40, 80), sized(1, 8))
    run_suite(ck, 'extremes', 30, sized(1, 10))
    run_suite(ck, 'big', 14, sized(1, 10))
    run_suite(ck, 'lengthy', sized(5, 16), sized(1, 4), gens=sized(500, 2000))
    need(ck, ['mean', 'step size', 'C08/step size, path known to 1e-6'])


def c09(ck):
    ck.arithmetic(None if QUICK else {'Count': '2000', 'MaxN': '12'})
    run_suite(ck, 'dist', sized(150, 150), sized(1, 14))
    run_suite(ck, 'crit', sized(60, 100), sized(1, 8))
    run_suite(ck, 'posdef', sized(24, 100), sized(1, 8))
    run_suite(ck, 'extremes', 30, sized(1, 10))
    run_suite(ck, 'big', 14, sized(1, 10))
    run_suite(ck, 'lengthy', sized(5, 16), sized(1, 4), gens=sized(500, 2000))
    need(ck, ['covariance matrix', 'C09/long step size path', 'refreshed decomposition', 'decomposition kept',
              'C09/covariance matrix known to 1e-6'])


def c17(ck):
    run_model(ck, 'MCRun_print', sized(1500, 15000), '4')
    run_suite(ck, 'plot', 350, sized(1, 16))
    run_suite(ck, 'extremes', 40, sized(1, 10))
    run_suite(ck, 'parallel', 30, sized(1, 4))
    run_suite(ck, 'lengthy', sized(5, 16), sized(1, 4), gens=sized(500, 2000))


def c18(ck):
    run_model(ck, 'MCRun_print', sized(1500, 15000), '4')
    run_suite(ck, 'print', 400, sized(1, 16))
    run_suite(ck, 'extremes', 60, sized(1, 10))
    run_suite(ck, 'parallel', 30, sized(1, 4))
    run_suite(ck, 'lengthy', sized(5, 16), sized(1, 4), gens=sized(500, 2000))


CHECKS = {n.upper(): f for n, f in list(globals().items()) if n[0] == 'c' and n[1:].isdigit()}
