"""Turns what the driver recorded into the traces that spec/CMATrace.tla reads."""
import math, re

from .num import enc, encv, cap

NUM = re.compile(r'^\s*[+-]?(\d+)(?:\.(\d*))?(?:[eE]([+-]?\d+))?\s*$')


def printed(text):
    """A printed number and the error that its number of digits allows"""
    t = text.strip()
    if t in ('inf', '-inf', 'NaN'):
        return {'v': enc(float(t)), 'tol': enc(0.0)}
    m = NUM.match(t)
    if not m:
        return None
    decimals = len(m.group(2) or '')
    exp = int(m.group(3) or 0)
    return {'v': enc(float(t)), 'tol': enc(0.50001 * 10.0 ** (exp - decimals))}


HEADER = re.compile(r'^(a?CMA-ES) with dimension=(\d+), lambda=(\d+), seed=(\d+)$')


def parse_lines(out):
    """Recognizes what is printed; anything else is a line of type "other"."""
    res = []
    lines = out.split('\n')
    i = 0
    while i < len(lines):
        t = lines[i]
        i += 1
        if not t.strip():
            continue
        m = HEADER.match(t)
        if m:
            ok = i + 1 < len(lines) and 'Gen #' in lines[i] and set(lines[i + 1].strip()) == {'-'}
            if ok:
                i += 2
            res.append({'t': 'header' if ok else 'other', 'variant': m.group(1), 'dim': cap(m.group(2)),
                        'lambda': cap(m.group(3)), 'seed': m.group(4)})
            continue
        f = t.split('|')
        if len(f) == 7 and f[0].strip().isdigit() and f[1].strip().isdigit():
            nums = [printed(x) for x in f[3:]]
            best = [] if not f[2].strip() else printed(f[2])
            if None not in nums and best is not None:
                res.append({'t': 'line', 'gen': cap(f[0]), 'evals': cap(f[1]), 'best': best,
                            'ar': nums[0], 'sigma': nums[1], 'min': nums[2], 'max': nums[3]})
                continue
        m = re.match(r'^Terminated with reason\(s\): (.*)$', t)
        if m:
            fin = {'t': 'final', 'reasons': re.findall(r'`(\w+)`', m.group(1)), 'cur': [], 'best': [],
                   'mean': []}
            for key, name in (('cur', 'Current'), ('best', 'Overall')):
                if i < len(lines):
                    m = re.match(r'^%s best function value: (\S+)$' % name, lines[i])
                    if m:
                        fin[key] = enc(float(m.group(1)))
                        i += 1
            if i < len(lines) and lines[i].startswith('Final mean:'):
                rest = lines[i][len('Final mean:'):]
                i += 1
                vals = []
                while i < len(lines):
                    m = re.match(r'^\s*│(.*)│\s*$', lines[i])
                    if m:
                        vals.append(printed(m.group(1)))
                    elif lines[i].strip() and not re.match(r'^\s*[┌└]\s*[┐┘]\s*$', lines[i]):
                        break
                    i += 1
                if rest.strip():
                    vals += [printed(x) for x in rest.strip(' []').split(',')]
                if None in vals:
                    fin['t'] = 'other'
                fin['mean'] = [v for v in vals if v is not None]
            res.append(fin)
            continue
        res.append({'t': 'other', 'text': t})
    return res


FIELDS = ['function_evals', 'best_function_value', 'median_function_value', 'sigma', 'axis_ratio',
          'mean_dimensions', 'sqrt_eigenvalues', 'coord_axis_scales']


def parse_plot(dump, dim):
    """The recorded points from the Debug output of a plot, None if it is not understood"""
    got = {}
    for f in FIELDS:
        m = re.search(r'\b%s: (\[)' % f, dump)
        if not m:
            return None
        # matching bracket
        depth = 0
        for j in range(m.start(1), len(dump)):
            if dump[j] == '[':
                depth += 1
            elif dump[j] == ']':
                depth -= 1
                if depth == 0:
                    break
        text = dump[m.start(1):j + 1]
        text = re.sub(r'-?\binf\b|NaN', lambda t: {'inf': '1e999', '-inf': '-1e999',
                                                   'NaN': '"NaN"'}[t.group(0)], text)
        try:
            import json
            got[f] = json.loads(text)
        except ValueError:
            return None
    fl = lambda x: enc(float(x))
    n = len(got['function_evals'])
    # one history for each dimension; anything else is a layout that is not known here
    if any(len(got[f]) != dim or not all(isinstance(row, list) for row in got[f]) for f in FIELDS[5:]):
        return None
    bad = {'evals': -2, 'best': [0, 0], 'med': [0, 0], 'sigma': [0, 0], 'ar': [0, 0], 'mean': [], 'eig': [], 'scales': []}
    if any(len(got[f]) != n for f in FIELDS[1:5]):
        return [bad]
    if any(len(row) != n for f in FIELDS[5:] for row in got[f]):
        return [bad]
    return [{'evals': got['function_evals'][i], 'best': fl(got['best_function_value'][i]),
             'med': fl(got['median_function_value'][i]), 'sigma': fl(got['sigma'][i]),
             'ar': fl(got['axis_ratio'][i]),
             'mean': [fl(r[i]) for r in got['mean_dimensions']],
             'eig': [fl(r[i]) for r in got['sqrt_eigenvalues']],
             'scales': [fl(r[i]) for r in got['coord_axis_scales']]} for i in range(n)]


def optf(o, k):
    return enc(float(o[k])) if o.get(k) is not None else []


def opti(o, k):
    return cap(o[k]) if o.get(k) is not None else -1


def config(case):
    """What was asked for (not what the code reports)"""
    o = case['opts']
    mean = o.get('set_mean', o['mean'])
    return {
        'n': len(mean), 'mode': o.get('mode', 'min'), 'lambda': opti(o, 'pop'),
        'setting': o.get('weights', 'negative'),
        'maxEvals': opti(o, 'max_evals'), 'maxGens': opti(o, 'max_gens'),
        'maxTimeUs': -1 if o.get('max_time') is None else cap(int(o['max_time']) // 1000),
        'target': optf(o, 'fun_target'), 'tolFun': optf(o, 'tol_fun'),
        'tolFunRel': optf(o, 'tol_fun_rel'), 'tolFunHist': optf(o, 'tol_fun_hist'),
        'tolX': optf(o, 'tol_x'), 'tolStag': opti(o, 'tol_stag'), 'tolXUp': optf(o, 'tol_x_up'),
        'tolCond': optf(o, 'tol_cond'), 'cm': optf(o, 'cm'),
        'plotGap': cap(o['plot'][0]) if o.get('plot') else -1, 'printGap': opti(o, 'print'),
        'sigma0': enc(float(o.get('set_sigma', o['sigma']))), 'mean0': encv(float(x) for x in mean),
        'seed': str(o['seed']) if o.get('seed') is not None else '',
    }


STEP_KEYS = ['op', 't0', 't1', 'calls', 'panic', 'done', 'res', 'gen', 'evals', 'sigma', 'cur', 'best',
             'plot', 'pcap', 'pempty', 'mean']


def trace(case, out, dumps=True):
    """dumps: which operations keep the contents of the plot"""
    if 'err' in out['init']:
        return None
    full = case.get('full', True)
    steps = []
    n = len(out['steps'])
    for i, s in enumerate(out['steps']):
        if s['panic']:
            steps.append({'op': s['op'], 'panic': s['panic']})
            break
        t = {k: s[k] for k in STEP_KEYS}
        t['evs'] = s.get('evs', [])
        if full:
            for k in ('cov', 'eig', 'ar', 'vec'):
                t[k] = s[k]
        t['lines'] = parse_lines(s.get('out', ''))
        t['plotdump'] = []
        if 'plotdump' in s and (i % 7 == 0 or i > n - 8):
            t['plotdump'] = parse_plot(s['plotdump'], len(case['opts']['mean']))
        if 'save' in s:
            t['save'] = s['save']
        steps.append(t)
    unknown = any(t.get('plotdump', []) is None for t in steps)
    for t in steps:
        if 'plotdump' in t and unknown:
            t['plotdump'] = []
    init = dict(out['init'])
    p = init.pop('params', None)
    if 'panic' in init:
        return {'id': case['id'], 'cfg': config(case), 'params': {}, 'full': False, 'hooks': False,
                'init': {'panic': init['panic']}, 'steps': []}
    init['panic'] = ''
    init['lines'] = parse_lines(init.pop('out', ''))
    init.pop('plotdump', None)
    return {'id': case['id'], 'cfg': config(case), 'params': {k: v for k, v in p.items() if k != 'exact'},
            'full': full, 'hooks': bool(init.get('vec')), 'init': init, 'steps': steps}


def long_trace(case, out, stride):
    """A trace for spec/LongTrace.tla"""
    o = case['opts']
    s = out['steps'][0]
    n = len(s['vals'])
    at = {1, n} | {g for g in range(1, n + 1, stride)} | {c['g'] for c in s['counts'][::4]}
    for c in s['changes'][:200]:
        at |= {c['g'] - 1, c['g'], c['g'] + 1}
    at = sorted(g for g in at if 1 <= g <= n)
    counts = {c['g']: c for c in s['counts']}
    samples, j = [], 0
    for g in at:
        while j + 1 < len(s['changes']) and s['changes'][j + 1]['g'] <= g:
            j += 1
        samples.append({'g': g, 'reasons': s['changes'][j]['reasons'],
                        'count': [counts[g]] if g in counts else []})
    return {'id': case['id'], 'n': len(o['mean']), 'lambda': o['pop'], 'mode': o.get('mode', 'min'),
            'maxGens': opti(o, 'max_gens'), 'tolStag': o['tol_stag'], 'tolFun': optf(o, 'tol_fun'),
            'tolFunHist': optf(o, 'tol_fun_hist'), 'vals': s['vals'], 'samples': samples, 'panic': s['panic']}


FLOAT_KEYS = {'set_sigma', 'cm', 'fun_target', 'tol_fun', 'tol_fun_rel', 'tol_fun_hist', 'tol_x', 'tol_x_up',
              'tol_cond'}


def split(text):
    return [x for x in text.split(',') if x]


def driver_call(k, s):
    """A call of a builder method, from its text, for the driver"""
    if k == 'set_mean':
        return [k, split(s)]
    if k == 'pupd':
        return [k, s == 'true']
    if k == 'plot':
        return [k, [s, False]]
    if k == 'bounds':
        return [k, [[x] for x in split(s)]]
    if k == 'max_resamples':
        return [k, int(s)]
    return [k, s]


def spec_call(k, s):
    """The same for spec/Options.tla"""
    v = s
    if k == 'set_mean':
        v = encv(float(x) for x in split(s))
    elif k == 'pupd':
        v = s == 'true'
    elif k == 'pop':
        v = int(s)
    elif k in FLOAT_KEYS:
        v = enc(float(s))
    return {'k': k, 'v': v}


def option_case(cid, mean, sigma, calls, fields=False):
    return {'id': cid, 'kind': 'build', 'text': [mean, sigma, calls],
            'opts': {'mean': split(mean), 'sigma': sigma, 'fields': fields,
                     'calls': [driver_call(k, s) for k, s in calls]}}


def option_trace(case, out):
    mean, sigma, calls = case['text']
    if len(out.get('cov', [])) > 30:
        out['cov'] = []
    return {'id': case['id'], 'mean': encv(float(x) for x in split(mean)), 'sigma': enc(float(sigma)),
            'calls': [spec_call(k, s) for k, s in calls], 'out': out}


def samp_trace(case, out):
    """A trace for spec/SampTrace.tla"""
    o = case['opts']
    want = case.get('want')
    gens = []
    for i, s in enumerate(out['steps']):
        if s['panic']:
            return None
        gens.append({'cons': s['cons'], 'evs': [e['x'] for e in s['evs']], 'par': s['op'] == 'nextp',
                     'whole': not (s['done'] and 'InvalidFunctionValue' in s['res']['reasons']),
                     'want': {'tests': want['tests'], 'kept': want['kept']} if want and i == 0 else []})
    b = o.get('bounds')
    return {'id': case['id'], 'lambda': o['pop'], 'budget': o.get('max_resamples', 10), 'hasCons': 'cons' in o,
            'bounds': [encv(float(x) for x in v) for v in b] if b else [], 'ordered': not o.get('pupd'),
            'distinct': float(o['sigma']) > 1e-3, 'gens': gens}


def samp_states(t):
    """States of the behaviour that accepts the trace"""
    n = 1
    for g in t['gens']:
        need, rnd, pos = t['lambda'], 0, 0
        while t['hasCons'] and need > 0 and (t['budget'] == -1 or rnd < t['budget']):
            ok = sum(c['ok'] for c in g['cons'][pos:pos + need])
            pos += need
            need -= ok
            rnd += 1
            n += 1
        n += 1
    return n


def law_trace(case, out):
    """A trace for spec/SampLaw.tla: the distribution before each generation and its points"""
    if 'err' in out['init'] or 'panic' in out['init'] or not out['init'].get('vec'):
        return None
    gens = []
    prev, vec = out['init'], out['init']['vec']
    for s in out['steps']:
        if s['panic']:
            return None
        if s['done'] and 'InvalidFunctionValue' in s['res']['reasons']:
            break
        gens.append({'mean': prev['mean'], 'sigma': prev['sigma'], 'eig': prev['eig'], 'vec': vec,
                     'pts': [e['x'] for e in s['evs']]})
        prev, vec = s, s['vec']
    lam = case['opts'].get('pop', 4 + int(3 * math.log(len(case['opts']['mean']))))
    return {'id': case['id'], 'n': len(case['opts']['mean']), 'lambda': lam, 'gens': gens}


def atoms(out, merge):
    """The observations of the operations that advance a run"""
    res = []
    for s in out['steps']:
        if s['op'] not in ('next', 'nextp', 'run', 'runp'):
            continue
        if s['panic']:
            res.append(None)
            break
        a = {k: s[k] for k in ('gen', 'evals', 'calls', 'mean', 'sigma', 'cov', 'eig', 'ar', 'cur', 'best', 'evs')}
        a['reasons'] = s['res']['reasons'] if s['done'] else []
        a['res'] = {k: s['res'][k] for k in ('cur', 'best', 'mean')} if s['done'] else []
        res.append(a)
    if merge and res and None not in res:
        m = dict(res[-1])
        m['evs'] = [e for a in res for e in a['evs']]
        res = [m]
    return res


def pair_trace(p, a, b):
    """A trace for spec/Pairs.tla, None if one of the runs failed"""
    if any('err' in o['init'] or 'panic' in o['init'] for o in (a, b)):
        return None
    x, y = atoms(a, p.get('merge')), atoms(b, p.get('merge'))
    if None in x or None in y:
        return None
    rel = {'factor': enc(1.0), 'values': 'same', 'ordered': True, 'counts': True, 'reasons': 'all', 'differ': False,
           'scales': []}
    rel.update(p['rel'])
    seeds = [o['init']['params']['seed'] for o in (a, b)] if p.get('seeds', True) else []
    return {'id': p['id'], 'property': p['property'], 'kind': p['kind'], 'rel': rel, 'seeds': seeds,
            'threads': p.get('threads', False), 'back': {k: v if v is not None else [] for k, v in a['back'].items()} if p.get('back') and a.get('back') else [], 'a': x, 'b': y}


def scale_trace(case, out):
    """A trace for spec/Wrappers.tla"""
    return {'id': case['id'], 'kind': 'scale', 'chain': [encv(float(x) for x in v) for v in case['chain']],
            'steps': out['steps'], 'unwrapped': bool(out['unwrapped'])}


def conv_trace(case, out, run):
    """A call of a convenience function with the plain run that has the same seed"""
    header = [l for l in parse_lines(out['out']) if l['t'] == 'header']
    none = {'seed': '', 'dim': -1, 'lambda': -1}
    call = {k: out[k] for k in ('panic', 'ret', 'calls', 'evs')}
    call['header'] = {k: header[0][k] for k in none} if len(header) == 1 else none
    call['parallel'] = case['fn'].endswith('parallel')
    if run is None or 'err' in run['init'] or 'panic' in run['init']:
        plain = []
    else:
        s = run['steps'][0]
        plain = {'dim': len(case['opts']['mean']), 'lambda': run['init']['params']['lambda'], 'best': s['best'], 'calls': s['calls'],
                 'evs': s['evs'], 'aborted': 'InvalidFunctionValue' in s['res']['reasons']}
        # of long runs, the first whole generations; the counts and results of all of them
        first = plain['lambda'] * (400 // plain['lambda'])
        for o in (call, plain):
            if len(o['evs']) > 600:
                o['evs'] = o['evs'][:first]
    return {'id': case['id'], 'kind': 'conv', 'call': call, 'run': plain}


# ------------------------------- restarts ------------------------------

def parse_report(out, dim):
    """What a restarter prints.  "ok" is False if there is anything else, "empty" if there is nothing."""
    rep = {'ok': True, 'empty': True, 'header': {}, 'runs': [], 'end': {}}
    lines = [l for l in out.split('\n') if l.strip()]
    i = 0
    while i < len(lines):
        t = lines[i]
        i += 1
        m = re.match(r'^(\S+) with dimension=(\d+), search_range=\[(\S+), (\S+)\], (.*)seed=(\d+)$', t)
        if m:
            rep['empty'] = False
            if rep['header'] or rep['runs'] or rep['end']:
                rep['ok'] = False
            h = {'name': m.group(1), 'dim': int(m.group(2)), 'lo': enc(float(m.group(3))), 'hi': enc(float(m.group(4))),
                 'seed': m.group(6), 'factor': [], 'inc': -1}
            for kv in m.group(5).split(', '):
                k, _, v = kv.partition('=')
                if k in ('sigma0_factor', 'lr_sigma0_factor'):
                    h['factor'] = enc(float(v))
                elif k in ('increase_factor', 'ipop_increase_factor'):
                    h['inc'] = cap(v)
                elif k:
                    rep['ok'] = False
            rep['header'] = h
            continue
        m = re.match(r'^Run (\d+) parameters: lambda=(\d+), sigma0=\s*(\S+), seed=(\d+)$', t)
        if m:
            rep['empty'] = False
            if not rep['header'] or rep['end'] or rep['runs'] and not rep['runs'][-1]['result']:
                rep['ok'] = False
            rep['runs'].append({'run': int(m.group(1)), 'lambda': cap(m.group(2)), 'sigma0': printed(m.group(3)), 'seed': m.group(4),
                                'result': []})
            if rep['runs'][-1]['sigma0'] is None:
                rep['ok'] = False
            continue
        m = re.match(r'^Run (\d+) results: best f-val=\s*(\S+), termination_reasons=\[(.*)\], f-evals=(\d+)$', t)
        if m:
            rep['empty'] = False
            if not rep['runs'] or rep['runs'][-1]['result']:
                rep['ok'] = False
                continue
            best = [] if m.group(2) == 'None' else printed(m.group(2))
            if best is None:
                rep['ok'], best = False, []
            rep['runs'][-1]['result'] = {'run': int(m.group(1)), 'best': best, 'evals': cap(m.group(4)),
                                         'reasons': re.findall(r'`(\w+)`', m.group(3))}
            continue
        m = re.match(r'^Terminated in (\d+) f-evals with reason: `(\w+)`$', t)
        if m:
            rep['empty'] = False
            e = {'evals': cap(m.group(1)), 'reason': m.group(2), 'best': [], 'point': []}
            if i < len(lines) and lines[i].startswith('Best function value: '):
                e['best'] = enc(float(lines[i].split(': ')[1]))
                i += 1
            if i < len(lines) and lines[i].startswith('Best point:'):
                rest = lines[i][len('Best point:'):].strip()
                i += 1
                if rest:
                    e['point'] = [printed(x) for x in rest.strip(' []').split(',')]
                while i < len(lines):
                    m = re.match(r'^\s*│(.*)│\s*$', lines[i])
                    if m:
                        e['point'].append(printed(m.group(1)))
                    elif not re.match(r'^\s*[┌└]\s*[┐┘]\s*$', lines[i]):
                        break
                    i += 1
                if None in e['point']:
                    rep['ok'], e['point'] = False, []
            if rep['end']:
                rep['ok'] = False
            rep['end'] = e
            continue
        rep['ok'] = False
    if not rep['header'] or not rep['end'] or any(not q['result'] for q in rep['runs']):
        rep['ok'] = False
    return rep


def own_lines(out):
    """Without what the single runs print"""
    keep, skip = [], False
    for l in out.split('\n'):
        if re.match(r'^(Run \d+ |Terminated in |\S+ with dimension=\d+, search_range)', l):
            skip = False
        elif re.match(r'^(Terminated with reason|a?CMA-ES with dimension=\d+, lambda)', l):
            skip = True
        if not skip and l.count('|') != 6:
            keep.append(l)
    return '\n'.join(keep)


def restart_trace(c, o):
    """A trace for spec/RestartTrace.tla"""
    s = c['strategy']
    d = c.get('defaults') or {}
    lo, hi = float(c['range'][0]), float(c['range'][1])
    variant = c.get('variant', 'run')
    obj = c.get('obj', {})
    # coordinates of the initial means that do not repeat by chance
    wide = abs(hi - lo) > 1e-3 * max(abs(hi), abs(lo), 1e-250)
    cfg = {'t': s['t'], 'maxRuns': s.get('max_runs', -1), 'factor': optf(s, 'factor'), 'inc': opti(s, 'inc'), 'n': c['dim'],
           'lambda': opti(d, 'pop'), 'lo': enc(lo), 'hi': enc(hi), 'maxEvals': opti(c, 'max_evals'),
           'maxEvalsRun': opti(c, 'max_evals_run'), 'maxGensRun': opti(c, 'max_gens_run'), 'target': optf(c, 'fun_target'),
           'maxTimeUs': -1 if c.get('max_time') is None else cap(int(c['max_time']) // 1000),
           'mode': c.get('mode', 'min'), 'seed': str(c['seed']) if c.get('seed') is not None else '',
           'print': bool(c.get('print')), 'fresh': variant in ('run', 'par'), 'parallel': variant.startswith('par'),
           'pupd': bool(c.get('pupd')), 'wide': wide}
    out = {'tag': 'panic' if 'panic' in o else 'err' if 'err' in o else 'ok', 'stage': o.get('stage', ''),
           'text': str(o.get('panic', o.get('err', '')))[:200], 'seed': o.get('seed', ''),
           'best': o.get('best', {'x': [], 'v': []}), 'reason': o.get('reason', ''), 'evals': o.get('evals', -1),
           'runs': o.get('runs', -1), 'made': o.get('made', -1), 'calls': o.get('calls', -1), 'elapsed': o.get('elapsed', -1)}
    text = o.get('out', '')
    out['report'] = parse_report(own_lines(text) if 'print' in d else text, c['dim'])
    runs = []
    for r in o.get('list', []) if 'panic' not in o else []:
        runs.append({'params': r['params'], 'mean': r['mean'], 'calls0': r['calls0'], 'calls1': r.get('calls1', -1),
                     'started': r['started'], 'finished': r.get('finished', -1), 'ended': r['ended'],
                     'reasons': r['res']['reasons'] if r['ended'] else [], 'best': r['res']['best'] if r['ended'] else {'x': [], 'v': []},
                     'res': r.get('res', {}), 'gens': r.get('gen', -1), 'evals': r.get('evals', -1), 'insts': r.get('insts', []),
                     'known': 'vals' in r, 'vals': r.get('vals', []), 'found': r.get('found', []),
                     'digest': r.get('digest', ''), 'bag': r.get('bag', ''), 'alone': r.get('alone', [])})
    return {'id': c['id'], 'cfg': cfg, 'out': out, 'runs': runs, 'plan': [c['want']] if c.get('want') else []}


def restart_states(t):
    return 2 if t['out']['tag'] != 'ok' else 3 + len(t['runs'])


def restart_pair_trace(p, a, b):
    """A trace for spec/RestartPairs.tla"""
    def one(c, o):
        t = restart_trace(dict(c, want=None), o)
        u = t['out']
        return {'tag': u['tag'], 'text': u['text'], 'seed': u['seed'], 'best': u['best'], 'reason': u['reason'], 'evals': u['evals'],
                'count': u['runs'],
                'runs': [{k: x[k] for k in ('params', 'mean', 'ended', 'res', 'gens', 'evals', 'digest', 'bag')} for x in t['runs']]}
    return {'id': p['id'], 'kind': p['kind'], 'property': p['property'], 'rel': p['rel'], 'a': one(p['a'], a), 'b': one(p['b'], b)}
