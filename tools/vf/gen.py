"""Generates cases for the driver.  Everything random comes from the given generator."""
import math, random

BASES = ['sphere', 'ellipsoid', 'rotated', 'cigar', 'discus', 'rosenbrock', 'rastrigin', 'linear',
         'first', 'abs', 'maxabs', 'ridge', 'hash', 'noise']
SMOOTH = ['sphere', 'ellipsoid', 'rotated', 'cigar', 'discus', 'rosenbrock', 'abs', 'maxabs', 'ridge']


def fs(x):
    return repr(float(x))


def logu(r, lo, hi):
    return math.exp(r.uniform(math.log(lo), math.log(hi)))


def seed(r):
    return r.choice([0, 1, 2, (1 << 31) - 1, 1 << 32, (1 << 63) - 1, (1 << 64) - 1]) if r.random() < 0.1 else r.randrange(1 << 63)


def mean(r, n, scale=None):
    scale = scale if scale is not None else r.choice([0.0, 1.0, 1.0, 3.0, 10.0])
    return [fs(r.uniform(-scale, scale)) for _ in range(n)]


def population(r, n):
    d = 4 + int(3 * math.log(n))
    return r.choice([None, None, None, 2, 3, 4, 5, d + 1, 2 * d, 3 * n])


def obj(r, n, bases=SMOOTH, **kw):
    o = {'base': r.choice(bases)}
    if r.random() < 0.3:
        o['center'] = [fs(r.uniform(-1, 1)) for _ in range(n)]
    o['cond'] = fs(r.choice([10.0, 100.0, 1e4, 1e6]))
    o.update(kw)
    return o


def base_opts(r, n, **kw):
    o = {'mean': mean(r, n), 'sigma': fs(r.choice([0.1, 0.3, 0.5, 1.0, 2.0, 10.0])),
         'seed': seed(r)}
    p = population(r, n)
    if p:
        o['pop'] = p
    w = r.choice(['negative', 'negative', 'positive', 'uniform', None])
    if w:
        o['weights'] = w
    if r.random() < 0.4:
        o['cm'] = fs(r.choice([1.0, 0.9, 0.5, 0.1, 0.01]))
    o.update(kw)
    return {k: v for k, v in o.items() if v is not None}


def maxmode(case):
    """The same with the sign of the objective function and the mode reversed"""
    case['opts']['mode'] = 'max'
    case['obj'].setdefault('trans', []).append(['neg'])
    return case


def steps_case(r, cid, n, gens, past=10, par=0.0, bases=SMOOTH, **kw):
    c = {'id': cid, 'kind': 'run', 'opts': base_opts(r, n, **kw), 'obj': obj(r, n, bases)}
    if r.random() < 0.3:
        maxmode(c)
    ops = []
    if r.random() < par:
        c['threads'] = r.choice([1, 2, 3, 4])
        left = gens
        while left > 0:
            m = min(left, r.randrange(1, 6))
            ops.append({'op': r.choice(['next', 'nextp']), 'n': m})
            left -= m
        if r.random() < 0.5:
            c['opts']['pupd'] = True
    else:
        if r.random() < 0.15:
            c['opts']['pupd'] = True
        ops.append({'op': 'next', 'n': gens, 'past': past})
    c['ops'] = ops
    return c


def dist_cases(r, count, tag, par=0.15, budget=2600):
    """Complete observations of single steps over a wide range of settings.  budget: about how many
    coordinates to record per case."""
    cs = []
    dims = [1, 1, 2, 2, 3, 4, 5, 6, 8, 10, 12, 16, 20, 25]
    for i in range(count):
        n = dims[i % len(dims)]
        lam = 4 + int(3 * math.log(n))
        gens = max(12, min(160, int(budget / (n * n + n * lam) * 4)))
        kw = {}
        if n >= 5 and r.random() < 0.4:
            kw['pop'] = r.choice([2, 3, 4])      # several generations per eigendecomposition
        c = steps_case(r, '%s%d' % (tag, i), n, gens, past=15, par=par, **kw)
        # scale of the search space
        if r.random() < 0.15:
            s = r.choice([1e-30, 1e-8, 1e8, 1e30])
            c['opts']['mean'] = [fs(float(x) * s) for x in c['opts']['mean']]
            c['opts']['sigma'] = fs(float(c['opts']['sigma']) * s)
            c['obj']['xscale'] = fs(1 / s)
        # generations that are cut short in between
        if r.random() < 0.2:
            m = r.randrange(2 * lam, 9 * lam)
            c['obj']['faults'] = [['callmod', m, r.randrange(m), r.choice(['nan', 'nan', 'inf', '-inf'])]]
        cs.append(c)
    return cs


def spread(r, c, prints=0.3, plots=0.3, gaps=(0, 1, 5, 7, 20, 100, 1000)):
    """Turns printing and plotting on for some cases"""
    if r.random() < prints:
        c['opts']['print'] = r.choice(gaps)
        c['out'] = True
    if r.random() < plots:
        c['opts']['plot'] = [r.choice(gaps), r.random() < 0.5]
        c['plotdump'] = True
    return c


def small_opts(r, n, lam, **kw):
    o = {'mean': mean(r, n, 1.0), 'sigma': '0.5', 'seed': seed(r), 'pop': lam}
    o.update(kw)
    return {k: v for k, v in o.items() if v is not None}


def big_cases(r, count, tag):
    """Dimensions and population sizes beyond those of the other suites"""
    cs = []
    for i in range(count):
        n, lam = [(30, None), (40, 6), (60, 2), (1, 1000), (2, 500), (3, 257), (17, 129), (5, 200), (33, 64), (100, 3),
                  (10, 1024), (50, 31), (64, 9), (7, 333)][i % 14]
        kw = {'pop': lam} if lam else {}
        c = steps_case(r, '%s%d' % (tag, i), n, 12 if n < 50 and (lam or 0) < 300 else 5, par=0.4, bases=SMOOTH + ['hash'], **kw)
        if not lam:
            c['opts'].pop('pop', 0)
        if r.random() < 0.3:
            c['obj']['trans'] = c['obj'].get('trans', []) + [['quant', '0.5']]
        cs.append(spread(r, c, 0.4, 0.4))
    return cs


def extremes_cases(r, count, tag, gens=220):
    """Distributions that grow or shrink by many orders of magnitude, observed now and then"""
    cs = []
    for i in range(count):
        n = r.choice([1, 1, 2, 3])
        lam = r.choice([4, 6, 12, 30])
        o = small_opts(r, n, lam, mode=r.choice(['min', 'max']), weights=r.choice(['positive', 'negative', 'uniform']),
                       sigma=fs(r.choice([0.5, 0.5, 1e-3, 1e3, 1e-100, 1e100, 1e-250, 1e200])),
                       tol_x_up=r.choice(['inf', '1e300', None]), tol_x=r.choice(['0', None]),
                       tol_fun=r.choice(['0', None]), tol_fun_hist=r.choice(['0', None]),
                       tol_cond=r.choice(['inf', None]))
        base = r.choice(['linear', 'linear', 'linear', 'sphere', 'sphere', 'hash', 'ridge', 'const'])
        ob = obj(r, n, [base])
        if r.random() < 0.4:
            # the objective function sees the scale of the distribution
            ob['xscale'] = fs(1 / float(o['sigma']))
        if r.random() < 0.3:
            ob['trans'] = [['scale', r.choice(['1e200', '1e-200', '-1', '1e16'])]]
        c = {'id': '%s%d' % (tag, i), 'kind': 'run', 'opts': o, 'obj': ob,
             'ops': [{'op': 'next', 'n': gens, 'past': gens}]}
        o['print'] = r.choice([0, lam * 4, lam * 20])
        c['out'] = True
        if r.random() < 0.5:
            o['plot'] = [r.choice([lam * 30, lam * 11, lam * 50]), r.random() < 0.5]
            c['plotdump'] = True
            c['ops'] = [{'op': 'next', 'n': gens // 2, 'past': gens}, 'plot_add', {'op': 'next', 'n': gens // 2, 'past': gens},
                        'plot_add', {'op': 'next', 'n': gens // 8, 'past': gens}]
        cs.append(c)
    return cs


def lengthy_cases(r, count, tag, gens=900):
    """Many generations, of functions that keep the distribution from degenerating"""
    cs = []
    for i in range(count):
        n = r.choice([1, 1, 2])
        lam = r.choice([2, 3, 4, 5])
        o = base_opts(r, n, pop=lam, tol_fun='0', tol_fun_hist='0', tol_x='0', tol_x_up='inf', tol_cond='inf',
                      cm=None, tol_fun_rel=r.choice([None, None, '1e-3']))
        c = {'id': '%s%d' % (tag, i), 'kind': 'run', 'opts': o, 'obj': {'base': r.choice(['noise', 'hash', 'noise'])}}
        if r.random() < 0.3:
            c['obj']['trans'] = [['quant', '0.25']]
        if r.random() < 0.4:
            o['mode'] = 'max'
        c['ops'] = [{'op': 'next', 'n': gens, 'past': gens}]
        if r.random() < 0.4:
            o['max_gens'] = gens - r.randrange(3)
            c['ops'] = ['run', {'op': 'next', 'n': 5, 'past': 5}]
            o['tol_stag'] = 1 << 40
        cs.append(spread(r, c, 0.4, 0.4, (0, 7, 100, 1000)))
    return cs


ODD = ['0', '-0.0', '1', '1', '2', '-1', '5e-324', '-5e-324', '1e300', '-1e300', '1.7976931348623157e308',
       '1e-300', '3', '-2.5']


# neighbours among the numbers
NEAR = [repr(x) for x in (1.0, 1.0 + 2 ** -52, 1.0 + 2 ** -51, 1.0 - 2 ** -53, 5e-324, 1e-323, -5e-324)]


def values_case(r, cid, gens=14):
    """Prescribed function values: ties, signed zeros, extremes, infinities, invalid values"""
    n = r.choice([1, 1, 2, 3])
    lam = r.choice([2, 2, 3, 4, 5, 6, 21, 33, 64])
    if lam > 20:
        gens = 5
    kind = r.choice(['few', 'few', 'odd', 'near', 'inf', 'neginf', 'nan', 'nan', 'nanfirst', 'asc', 'desc', 'allinf'])
    pool = {'few': ['0', '1', '2'], 'odd': ODD, 'near': NEAR, 'inf': ['0', '1', '2', 'inf', 'inf'],
            'neginf': ['0', '1', '2', '-inf'], 'allinf': ['inf'],
            'nan': ['0', '1', '2', '3'], 'nanfirst': ['0', '1', '2', '3']}.get(kind, ['0'])
    k = gens * lam
    script = [r.choice(pool) for _ in range(k)]
    if kind == 'asc':
        script = [str(i // r.choice([1, lam])) for i in range(k)]
    if kind == 'desc':
        script = [str(-(i // r.choice([1, lam]))) for i in range(k)]
    if kind == 'nan':
        for _ in range(r.choice([1, 2, 3])):
            script[r.randrange(k)] = 'nan'
    if kind == 'nanfirst':
        script[r.randrange(lam)] = 'nan'
    c = {'id': cid, 'kind': 'run', 'opts': small_opts(r, n, lam, mode=r.choice(['min', 'max'])),
         'obj': {'base': 'script', 'script': script, 'cycle': True}}
    if r.random() < 0.5:
        # hold the generation best for a while and then fall behind
        c['opts']['tol_fun'] = c['opts']['tol_fun_hist'] = '0'
    if r.random() < 0.2:
        c['opts']['fun_target'] = r.choice(['0', '1', '-1'])
    if r.random() < 0.2:
        c['opts']['cons'] = {'t': 'mod', 'm': 3, 'k': 1}
    c['ops'] = [{'op': 'next', 'n': gens, 'past': gens}]
    if r.random() < 0.25:
        c['opts']['max_gens'] = r.randrange(1, gens)
        c['ops'] = [{'op': 'next', 'n': r.randrange(0, 4), 'past': 9}, 'run',
                    {'op': 'next', 'n': 3, 'past': 9}, 'run']
    return spread(r, c, 0.3, 0.3, (0, 1, 5, 7, 20))


def values_cases(r, count, tag, **kw):
    return [values_case(r, '%s%d' % (tag, i), **kw) for i in range(count)]


def parallel_cases(r, count, tag):
    """Parallel steps with a function of the point only"""
    cs = []
    for i in range(count):
        n = r.choice([1, 2, 3, 5])
        c = steps_case(r, '%s%d' % (tag, i), n, 16, par=1.0, bases=SMOOTH + ['hash', 'hash'])
        c['obj']['delay'] = r.choice([0, 0, 50, 300])
        if r.random() < 0.3:
            c['obj']['trans'] = c['obj'].get('trans', []) + [['quant', '0.25']]
        if r.random() < 0.3:
            c['opts']['max_gens'] = r.randrange(1, 12)
            c['ops'] = ['runp']
        if r.random() < 0.25:
            c['obj']['faults'] = [['call', r.randrange(60), r.choice(['nan', 'inf'])]]
        cs.append(spread(r, c))
    return cs


def budget_cases(r, count, tag):
    """Limits on evaluations, generations and time"""
    cs = []
    for i in range(count):
        n = r.choice([1, 2, 3])
        lam = r.choice([2, 3, 4, 5, 7])
        o = small_opts(r, n, lam)
        kind = r.choice(['evals', 'evals', 'gens', 'gens', 'both', 'time', 'none', 'zero', 'huge'])
        g = r.randrange(1, 15)
        if kind in ('evals', 'both'):
            o['max_evals'] = max(0, g * lam + r.choice([-1, 0, 0, 1, 2]))
        if kind in ('gens', 'both'):
            o['max_gens'] = g + (r.choice([-1, 0, 1]) if kind == 'both' else 0)
        if kind == 'time':
            o['max_time'] = r.choice([0, 1, 1000, 20_000_000, 10_000_000_000])
        if kind == 'zero':
            o[r.choice(['max_evals', 'max_gens'])] = 0
        if kind == 'huge':
            o['max_evals'] = (1 << 64) - 1
            o['max_gens'] = (1 << 64) - 1
        c = {'id': '%s%d' % (tag, i), 'kind': 'run', 'opts': o, 'obj': obj(r, n, ['sphere', 'linear', 'hash'])}
        c['ops'] = [{'op': 'next', 'n': g + 5, 'past': 4}]
        if kind in ('evals', 'gens', 'both', 'zero') and r.random() < 0.5:
            c['ops'] = ['run', 'next', 'run', 'run']
        elif kind == 'time' and o['max_time'] < 1e9:
            how = r.randrange(4)
            if how == 0:
                c['ops'] = [{'op': 'next', 'n': 3, 'past': 5}, {'op': 'sleep', 'ms': 30},
                            {'op': 'next', 'n': 3, 'past': 5}]
            else:
                o['tol_fun'] = o['tol_fun_hist'] = '0'
                o['max_gens'] = 400
                c['ops'] = ['run', 'next']
                if how > 1:
                    # the time passes before the run, or between runs
                    if o['max_time'] < 2e7:
                        o['max_time'] = 20_000_000
                    o['max_gens'] = 3
                    c['ops'] = [{'op': 'sleep', 'ms': 30}, 'run', 'next'] if how == 2 else \
                               ['run', {'op': 'sleep', 'ms': 30}, 'run', 'next']
        if r.random() < 0.2:
            c['obj']['faults'] = [['call', r.randrange(1, 6 * lam), 'nan']]
        cs.append(spread(r, c, 0.2, 0.2))
    return cs


def tolfun_cases(r, count, tag):
    """Function values that converge, stall and jump, around the tolerances"""
    cs = []
    for i in range(count):
        n = r.choice([1, 1, 2, 3])
        lam = r.choice([4, 5, 6, 10, 31])
        o = small_opts(r, n, lam)
        kind = r.choice(['converge', 'script', 'script', 'target', 'plateau', 'rel', 'infs', 'edge', 'levels', 'levels'])
        gens = 45
        c = {'id': '%s%d' % (tag, i), 'kind': 'run', 'opts': o}
        window = 10 + -(-30 * n // lam)
        if kind == 'converge':
            c['obj'] = obj(r, n, ['sphere', 'abs', 'ellipsoid'])
            o['tol_fun'] = fs(r.choice([0, 1e-12, 1e-6, 1e-2, 1.0]))
            o['tol_fun_hist'] = fs(r.choice([0, 1e-12, 1e-4, 1.0]))
            gens = 70
        elif kind == 'rel':
            c['obj'] = obj(r, n, ['sphere', 'ellipsoid'])
            o['tol_fun'] = '0'
            o['tol_fun_hist'] = '0'
            o['tol_fun_rel'] = fs(r.choice([1e-1, 1e-2, 1e-4, 1.0, 10.0]))
            gens = 70
        elif kind == 'target':
            c['obj'] = obj(r, n, ['sphere', 'linear'])
            o['fun_target'] = fs(r.choice([0.1, 0.01, 1.0, -5.0, 0.5]))
        elif kind == 'levels':
            # generations of values from a few levels, some of them infinite, for as long as a window
            levels = [['inf'], ['-inf'], ['inf', '1'], ['-inf', '2'], ['1'], ['1', '2'], ['-inf', 'inf'], ['0', '-0.0'],
                      ['1e307', '2e307'], ['inf', '-1', '0'], ['0'], ['5', '6', '7']]
            script = []
            while len(script) < gens * lam:
                g = r.choice([1, 2, window - 1, window, window + 1])
                some = r.choice(levels)
                script += [r.choice(some) for _ in range(g * lam)]
            c['obj'] = {'base': 'script', 'script': script[:gens * lam]}
            tol = lambda: fs(r.choice([0, 1e-12, 0.5, 1.5, 1e300, math.inf]))
            o['tol_fun'], o['tol_fun_hist'] = tol(), tol()
            o['tol_fun_rel'] = fs(r.choice([0, 1e-3, 0.5, 2.0]))
            if r.random() < 0.4:
                o['fun_target'] = r.choice(['inf', '-inf', '1', '0', '-0.0', '1.5'])
        elif kind == 'plateau':
            c['obj'] = obj(r, n, ['sphere', 'abs'], trans=[['quant', fs(r.choice([0.5, 0.01]))]])
            o['tol_fun'] = fs(r.choice([0, 1e-12, 0.3]))
            o['tol_fun_hist'] = fs(r.choice([0, 1e-12, 0.3]))
        else:
            # a jump of exactly known size at a known place, then constant
            lo = r.choice([0, 1, -3])
            step = r.choice([1, 1, 2])
            at = r.randrange(0, 8) * lam + r.randrange(lam)
            script = [str(lo + step) if k < at else str(lo) for k in range(gens * lam)]
            if kind == 'infs':
                for _ in range(r.randrange(1, 6)):
                    script[r.randrange(gens * lam)] = r.choice(['inf', '1e308', '-1e308'])
            if kind == 'edge':
                # one value that differs within the last generations
                g = window + r.choice([-1, 0, 1, 2, 5])
                script = [str(lo)] * (gens * lam)
                script[min(g, gens - 1) * lam + r.randrange(lam)] = str(lo + r.choice([-1, 1]))
            c['obj'] = {'base': 'script', 'script': script}
            tol = lambda: fs(r.choice([0, 1e-12, step, step + 0.5, step - 0.5]))
            o['tol_fun'], o['tol_fun_hist'] = tol(), tol()
            o['tol_fun_rel'] = fs(r.choice([0, 0.5, 1.0, 1.5]))
            if r.random() < 0.4:
                o['fun_target'] = str(lo + r.choice([0, 1, -1]))
        if r.random() < 0.4:
            maxmode(c)
            if 'fun_target' in o:
                o['fun_target'] = fs(-float(o['fun_target']))
        c['ops'] = [{'op': 'next', 'n': gens, 'past': r.choice([3, 25])}]
        if r.random() < 0.2:
            o['max_gens'] = gens
            c['ops'] = ['run', 'next']
        cs.append(c)
    return cs


def stag_cases(r, count, tag, gens=260):
    """Stagnation over windows of the length that is asked for.  Other criteria are off."""
    cs = []
    for i in range(count):
        n = 1
        lam = r.choice([2, 3, 4])
        o = small_opts(r, n, lam, tol_fun='0', tol_fun_hist='0', tol_x='0', tol_x_up='inf', tol_cond='inf',
                       tol_stag=r.choice([0, 1, 2, 3, 4, 5, 7, 10, 11, 20, 33, 40]))
        kind = r.choice(['noise', 'noise', 'worse', 'const', 'drift', 'wave', 'steps'])
        if kind in ('noise', 'worse', 'const'):
            ob = {'base': kind}
            if r.random() < 0.4:
                ob['trans'] = [['quant', '0.25']]
        else:
            k = gens * lam
            if kind == 'drift':
                a = r.choice([-0.002, 0.002, 0.0005])
                s = [r.random() + a * j for j in range(k)]
            elif kind == 'wave':
                p = r.choice([50, 300, 900])
                s = [round(math.sin(j / p), 2) + r.random() * 0.1 for j in range(k)]
            else:
                # best and median move in different ways
                s = []
                for g in range(gens):
                    b = (g // r.choice([10, 20])) % 3
                    s += [b] + [10 - b + (g % 2)] * (lam - 1)
            ob = {'base': 'script', 'script': [fs(x) for x in s]}
        c = {'id': '%s%d' % (tag, i), 'kind': 'run', 'opts': o, 'obj': ob, 'full': False,
             'ops': [{'op': 'next', 'n': gens, 'past': gens}]}
        if r.random() < 0.5:
            maxmode(c)
        if r.random() < 0.2:
            o['max_gens'] = gens
            c['ops'] = ['run', {'op': 'next', 'n': 5, 'past': 5}]
        cs.append(c)
    return cs


def crit_cases(r, count, tag):
    """Runs that meet the criteria of the distribution"""
    cs = []
    for i in range(count):
        n = r.choice([1, 2, 2, 3, 5])
        kind = r.choice(['tolx', 'tolx', 'tolxabs', 'xup', 'xup', 'cond', 'cond', 'coord', 'axis', 'default', 'eigen'])
        o = base_opts(r, n, tol_fun='0', tol_fun_hist='0')
        o.pop('cm', None)
        c = {'id': '%s%d' % (tag, i), 'kind': 'run', 'opts': o, 'obj': obj(r, n, ['sphere', 'ellipsoid', 'abs'])}
        gens = 60
        if kind == 'tolx':
            s = float(o['sigma'])
            o['tol_x'] = fs(s * r.choice([1.2, 0.9, 0.5, 0.2, 0.05, 1e-2]))
        elif kind == 'tolxabs':
            # coordinates of very different scales
            o['tol_x'] = fs(r.choice([1e-3, 1e-2, 0.1]))
            c['obj'] = {'base': 'ellipsoid', 'cond': r.choice(['1e4', '1e8'])}
            gens = 90
        elif kind == 'xup':
            o['tol_x_up'] = fs(r.choice([1.1, 1.5, 3.0, 10.0, 100.0, 0.5]))
            c['obj'] = {'base': r.choice(['linear', 'first'])}
        elif kind == 'cond':
            o['tol_cond'] = fs(r.choice([1.05, 1.5, 2.0, 5.0, 20.0, 100.0, 1e3]))
            c['obj'] = {'base': r.choice(['ellipsoid', 'cigar', 'discus', 'first', 'rotated']), 'cond': '1e6'}
            if n == 1 or i % 4 == 3:
                # the limit is reached exactly, or just not
                o['mean'] = o['mean'][:1]
                o['tol_cond'] = r.choice(['1', '1', '0.5', fs(1 - 2.0 ** -53), fs(1 + 2.0 ** -52)])
                c['obj'] = {'base': r.choice(['sphere', 'linear', 'hash'])}
        elif kind == 'coord':
            big = 10.0 ** r.choice([3, 8, 12, 15, 16])
            o['mean'] = [fs(big * r.uniform(0.5, 1)) if r.random() < 0.6 else fs(r.uniform(-1, 1)) for _ in range(n)]
            o['sigma'] = fs(big * 10.0 ** r.choice([-16, -15, -15, -14, -12]) * r.uniform(1, 9))
            c['obj'] = {'base': r.choice(['linear', 'hash', 'sphere'])}
            o['tol_x'] = '0'
            gens = 40
        elif kind == 'axis':
            big = 10.0 ** r.choice([0, 6, 12])
            o['mean'] = [fs(big * r.uniform(0.5, 1)) for _ in range(n)]
            o['sigma'] = fs(big * 10.0 ** r.uniform(-15.7, -14))
            c['obj'] = {'base': r.choice(['hash', 'noise', 'const'])}
            o['tol_x'] = '0'
            gens = 40
        elif kind == 'eigen':
            n = 6
            o['mean'] = mean(r, n)
            o['pop'] = r.choice([2, 3, 4])
            o['tol_cond'] = fs(r.choice([1.05, 1.2, 1.5, 2.0]))
            c['obj'] = {'base': 'ellipsoid', 'cond': '1e6'}
        else:
            gens = 150
        c['ops'] = [{'op': 'next', 'n': gens, 'past': 8}]
        if r.random() < 0.2:
            o['max_gens'] = gens
            c['ops'] = ['run', 'next']
        cs.append(c)
    return cs


def posdef_cases(r, count, tag):
    """Search distributions that degenerate until the matrix is no longer positive definite"""
    cs = []
    for i in range(count):
        n = r.choice([2, 2, 2, 3, 4])
        lam = r.choice([10, 20, 50] if n == 2 else [50, 100])
        o = small_opts(r, n, lam, tol_fun='0', tol_fun_hist='0', tol_x='0', tol_x_up='inf', tol_cond='inf',
                       weights=r.choice(['negative', 'positive', 'uniform']))
        o['mean'] = ['1'] * n
        o['sigma'] = r.choice(['1e-3', '1', '1e3', '1e80'])
        ob = {'base': r.choice(['ellipsoid', 'cigar', 'linear', 'first', 'ridge'] if n == 2 else ['discus', 'discus', 'linear']),
              'cond': r.choice(['1e18', '1e30'])}
        c = {'id': '%s%d' % (tag, i), 'kind': 'run', 'opts': o, 'obj': ob}
        if r.random() < 0.4:
            maxmode(c)
        c['ops'] = [{'op': 'next', 'n': 110, 'past': 3}]
        if r.random() < 0.4:
            o['max_gens'] = 120
            c['ops'] = [r.choice(['run', 'run', 'runp']), 'next', 'run', 'next']
        cs.append(spread(r, c, 0.3, 0.3))
    return cs


def fault_cases(r, count, tag):
    """Invalid values and infinities at all kinds of places, and going on after them"""
    cs = []
    for i in range(count):
        n = r.choice([1, 2, 3])
        lam = r.choice([2, 3, 4, 6])
        o = small_opts(r, n, lam, mode=r.choice(['min', 'max']))
        ob = obj(r, n, ['sphere', 'linear', 'hash', 'rastrigin'])
        kind = r.choice(['call', 'call', 'first', 'mod', 'region', 'value', 'inf', 'infregion', 'infgens'])
        if kind == 'call':
            ob['faults'] = [['call', r.randrange(lam * 8), 'nan'] for _ in range(r.choice([1, 2]))]
        elif kind == 'first':
            ob['faults'] = [['call', r.randrange(lam), 'nan']]
        elif kind == 'infgens':      # whole generations without any finite value
            at = r.choice([0, lam, r.randrange(8) * lam, r.randrange(8 * lam)])
            v = r.choice([['inf'], ['-inf'], ['inf', '-inf']])
            ob['faults'] = [['call', at + j, r.choice(v)] for j in range(r.choice([lam, 2 * lam, 3 * lam]))]
        elif kind == 'mod':
            m = r.randrange(2, 5 * lam)
            ob['faults'] = [['callmod', m, r.randrange(m), r.choice(['nan', 'nan', 'inf', '-inf'])]]
        elif kind == 'region':
            ob['faults'] = [['above', r.randrange(n), fs(r.uniform(-1, 2)), 'nan']]
        elif kind == 'value':
            ob['faults'] = [['vbelow', fs(r.choice([0.1, 0.01, 0.5])), 'nan']]
        elif kind == 'infregion':
            ob['faults'] = [['above', r.randrange(n), fs(r.uniform(-1, 2)), r.choice(['inf', '-inf'])]]
        else:
            ob['faults'] = [['call', r.randrange(lam * 8), r.choice(['inf', '-inf'])] for _ in range(3)]
        c = {'id': '%s%d' % (tag, i), 'kind': 'run', 'opts': o, 'obj': ob}
        t = r.random()
        if t < 0.45:
            c['ops'] = [{'op': 'next', 'n': 16, 'past': 14}]
        elif t < 0.65:
            o['max_gens'] = 12
            c['ops'] = ['run', 'next', 'run']
        elif t < 0.85:
            c['threads'] = r.choice([1, 2, 4])
            if ob['base'] == 'hash' or kind in ('region', 'value', 'infregion'):
                c['ops'] = [{'op': 'nextp', 'n': 12, 'past': 10}]
            else:
                c['ops'] = [{'op': 'nextp', 'n': 6, 'past': 5}, {'op': 'next', 'n': 3, 'past': 3}]
        else:
            c['ops'] = [{'op': 'next', 'n': 5, 'past': 9}, {'op': 'nextp', 'n': 5, 'past': 9},
                        {'op': 'next', 'n': 5, 'past': 9}]
        cs.append(spread(r, c, 0.4, 0.4, (0, 1, 7, 20)))
    return cs


def late_cases(r, count, tag):
    """Invalid values late in a run, in all kinds of populations"""
    cs = []
    for i in range(count):
        n = r.choice([1, 2, 3, 8])
        lam = r.choice([2, 4, 6, 11, 40])
        gens = r.choice([25, 60, 150]) if lam < 20 else 25
        o = base_opts(r, n, pop=lam, tol_fun='0', tol_fun_hist='0', tol_x='0', tol_x_up='inf', tol_cond='inf',
                      tol_stag=1 << 40, mode=r.choice(['min', 'max']))
        ob = {'base': 'hash'}
        at = [r.randrange(lam * gens // 2, lam * gens)]
        while r.random() < 0.4:
            at.append(r.choice([at[-1] + 1, at[-1] + r.randrange(3 * lam), r.randrange(lam * gens)]))
        ob['faults'] = [['call', k, 'nan'] for k in at]
        if r.random() < 0.3:
            # all of a generation
            ob['faults'] += [['call', k, 'nan'] for k in range(at[0], at[0] + lam)]
        if r.random() < 0.3:
            ob['faults'].append(['call', r.randrange(lam * gens), r.choice(['inf', '-inf'])])
        c = {'id': '%s%d' % (tag, i), 'kind': 'run', 'opts': o, 'obj': ob}
        par = r.random() < 0.5
        if r.random() < 0.6:
            c['ops'] = [{'op': 'nextp' if par else 'next', 'n': gens, 'past': gens}]
        else:
            o['max_gens'] = gens
            c['ops'] = ['runp', 'nextp', 'runp'] if par else ['run', 'next', 'run']
        if par:
            c['threads'] = r.choice([1, 2, 4])
        cs.append(spread(r, c, 0.2, 0.2, (0, 7, 100)))
    return cs


def plot_cases(r, count, tag):
    """Plots with all kinds of gaps, points added and removed in between"""
    cs = []
    for i in range(count):
        n = r.choice([1, 2, 3])
        lam = r.choice([2, 3, 5])
        o = small_opts(r, n, lam, plot=[r.choice([0, 1, 2, lam - 1, lam, lam + 1, 2 * lam, 3 * lam - 1, 50,
                                                  (1 << 64) - 1]), r.random() < 0.5])
        ob = obj(r, n, ['sphere', 'linear', 'hash', 'const'])
        if r.random() < 0.25:
            ob['faults'] = [['call', r.randrange(lam * 10), r.choice(['nan', 'inf', '-inf'])] for _ in range(2)]
        c = {'id': '%s%d' % (tag, i), 'kind': 'run', 'opts': o, 'obj': ob, 'plotdump': True}
        ops = []
        for _ in range(r.randrange(4, 14)):
            x = r.random()
            if x < 0.6:
                ops.append({'op': 'next', 'n': r.randrange(1, 6), 'past': 50})
            elif x < 0.8:
                ops.append('plot_add')
            elif x < 0.9:
                ops.append('plot_clear')
            else:
                ops.append(r.choice(['plot_add', 'print_info']))
        if r.random() < 0.3:
            o['max_gens'] = r.randrange(1, 20)
            ops += ['run', 'plot_add', 'run', {'op': 'next', 'n': 2, 'past': 9}]
        if r.random() < 0.2:
            o.pop('plot')
            ops = [x for x in ops if x != 'plot_clear']
        elif i % 8 == 0:
            ops.append('plot_save')
        c['ops'] = ops
        c['out'] = True
        cs.append(c)
    return cs


def print_cases(r, count, tag):
    """Printing with all kinds of gaps, on request, and at the end of whole runs"""
    cs = []
    for i in range(count):
        n = r.choice([1, 2, 3, 4])
        lam = r.choice([2, 3, 4, 5])
        o = small_opts(r, n, lam, mode=r.choice(['min', 'max']), weights=r.choice(['positive', 'negative', 'uniform']),
                       print=r.choice([0, 1, 2, lam - 1, lam, lam + 1, 2 * lam, 3 * lam - 1, 4 * lam, 50, (1 << 64) - 1]))
        ob = obj(r, n, ['sphere', 'linear', 'hash', 'const'])
        if r.random() < 0.25:
            ob['faults'] = [['call', r.randrange(lam * 10), r.choice(['nan', 'inf', '-inf'])] for _ in range(2)]
        if r.random() < 0.3:
            ob['trans'] = [['scale', r.choice(['1e20', '1e-20', '1e300', '-1e5', '1e7'])]]
        c = {'id': '%s%d' % (tag, i), 'kind': 'run', 'opts': o, 'obj': ob, 'out': True}
        ops = []
        for _ in range(r.randrange(1, 6)):
            ops.append({'op': 'next', 'n': r.randrange(1, 9), 'past': 50})
            if r.random() < 0.4:
                ops.append(r.choice(['print_info', 'print_init', 'print_final']))
        if r.random() < 0.6:
            o['max_gens'] = r.randrange(1, 25)
            if r.random() < 0.6:
                ops = []
            ops += ['run', r.choice(['run', 'next', 'print_final']), 'run']
        if r.random() < 0.15:
            o.pop('print')
        if r.random() < 0.2:
            o['mean'] = [fs(float(x) * r.choice([1e-9, 1e9, 1e100])) for x in o['mean']]
        c['ops'] = ops
        cs.append(c)
    return cs


def long_cases(r, count, tag, gens=22000, trend=0):
    """Very long runs with slow movements of the best and median values"""
    cs = []
    for i in range(count):
        lam = 2 if i % 3 < 2 else 3
        o = small_opts(r, 1, lam, tol_fun='0.05', tol_fun_hist=r.choice(['0', '0.3']), tol_x='0', tol_x_up='inf',
                       tol_cond='inf', mode=r.choice(['min', 'max']),
                       tol_stag=r.choice([100, 1000, 4001, 4321, 4400]))
        period = gens / r.uniform(3.2, 9)
        amp = r.choice([0.02, 0.2])
        s, p, q = [], r.random() * 6, r.uniform(0.5, 1.5)
        for g in range(gens):
            # the best value and the median move at different times
            a = math.sin(p + 2 * math.pi * g / period)
            b = math.sin(p + q + 2 * math.pi * g / period)
            v = [a if o['mode'] == 'min' else a + 3] + [b + 3 if o['mode'] == 'min' else b] * (lam - 1)
            # a trend for the worse: as good as always stagnating
            t = trend * g / gens * (1 if o['mode'] == 'min' else -1)
            s += [round(x + t + amp * r.random(), 3) for x in v]
            if g % 1000 > 960:
                # flat for a while
                s[-lam:] = [1] * lam
        o['max_gens'] = gens - r.choice([1, 5])
        cs.append({'id': '%s%d' % (tag, i), 'kind': 'run', 'opts': o, 'full': False,
                   'obj': {'base': 'script', 'script': [fs(x) for x in s]},
                   'ops': [{'op': 'long', 'n': gens}]})
    return cs


def params_cases(r, count, tag, biggest=60):
    """(mean, sigma, calls) that only concern the strategy parameters"""
    cs = []
    for i in range(count):
        x = r.random()
        n = r.randrange(1, 12) if x < 0.5 else r.randrange(1, biggest) if x < 0.9 else r.choice([100, 200])
        x = r.random()
        d = 4 + int(3 * math.log(n))
        lam = (r.randrange(2, 14) if x < 0.35 else r.randrange(2, 150) if x < 0.6 else r.choice([d, 2 * d, 4 * d])
               if x < 0.85 else r.choice([500, 1000, 1001, 3000] if r.random() < 0.9 else [8192, 10000, 16385, 33000]))
        calls = [['pop', str(lam)]] if r.random() < 0.95 else []
        w = r.choice(['positive', 'uniform', 'negative', 'negative', None])
        if w:
            calls.append(['weights', w])
        if r.random() < 0.3:
            calls.append(['cm', r.choice(['0.5', '0.1', '1'])])
        r.shuffle(calls)
        cs.append((','.join(['1'] * n), r.choice(['1', '0.3', '1e5']), calls))
    return cs


def option_calls(r, count):
    """Long sequences of option calls"""
    num = ['0', '-0.0', '1e-3', '0.3', '1', '1e10', 'nan', 'inf', '-inf', '-1', '5e-324', '1.7976931348623157e308']
    ints = ['0', '1', '2', '5', '1000', '4294967296', '18446744073709551615']
    cs = []
    for i in range(count):
        n = r.choice([0, 1, 1, 2, 3, 5, 7, 20])
        bad = r.random() < 0.3
        calls = []
        for _ in range(r.randrange(0, 14)):
            k = r.choice(['set_sigma', 'cm', 'fun_target', 'tol_fun', 'tol_fun_rel', 'tol_fun_hist', 'tol_x',
                          'tol_x_up', 'tol_cond', 'max_evals', 'max_gens', 'max_time', 'tol_stag', 'seed', 'print',
                          'pop', 'mode', 'weights', 'pupd', 'set_mean', 'plot', 'max_resamples', 'bounds'])
            if k == 'cm':
                s = r.choice(num) if bad else fs(r.choice([1.0, r.random() + 1e-9, 2.3e-308]))
            elif k == 'set_sigma':
                s = r.choice(num) if bad else fs(logu(r, 1e-300, 1e300))
            elif k in ('fun_target', 'tol_fun', 'tol_fun_rel', 'tol_fun_hist', 'tol_x', 'tol_x_up', 'tol_cond'):
                s = r.choice(num + [fs(r.uniform(-5, 5))])
            elif k in ('max_evals', 'max_gens', 'max_time', 'tol_stag', 'seed', 'print'):
                s = r.choice(ints + [str(r.randrange(1 << 64))])
            elif k == 'pop':
                s = r.choice(['0', '1'] if bad and r.random() < 0.5 else ['2', '3', '4', '7', '50', '200'])
            elif k == 'mode':
                s = r.choice(['min', 'max'])
            elif k == 'weights':
                s = r.choice(['positive', 'uniform', 'negative'])
            elif k == 'pupd':
                s = r.choice(['true', 'false'])
            elif k == 'set_mean':
                s = ','.join(r.choice(num) if r.random() < 0.2 else fs(r.uniform(-9, 9)) for _ in range(n))
            else:
                s = {'plot': '5', 'max_resamples': r.choice(['-1', '0', '3']), 'bounds': '0,1'}[k]
            calls.append([k, s])
        cs.append((','.join(fs(r.uniform(-9, 9)) for _ in range(n)),
                   r.choice(num) if bad else fs(logu(r, 1e-300, 1e300)), calls))
    return cs


def samp_cases(r, count, tag):
    """Constraints of all kinds with all kinds of budgets"""
    cs = []
    for i in range(count):
        n = r.choice([1, 2, 2, 3, 5])
        lam = r.choice([2, 3, 4, 5, 8, 10, 25])
        o = small_opts(r, n, lam, mode=r.choice(['min', 'max']), pupd=True if r.random() < 0.25 else None,
                       weights=r.choice(['positive', 'negative', 'uniform']))
        c = {'id': '%s%d' % (tag, i), 'kind': 'run', 'opts': o, 'obj': obj(r, n, ['sphere', 'linear', 'hash', 'abs']),
             'full': False}
        kind = r.choice(['half', 'ball', 'mod', 'mod', 'script', 'script', 'none', 'all', 'bounds', 'edge', 'free'])
        budget = r.choice([0, 1, 1, 2, 3, 10, None, -1, -1])
        gens = 8
        if kind == 'half':
            o['cons'] = {'t': 'half', 'i': r.randrange(n), 'ge': fs(float(o['mean'][0]) - r.choice([0.0, 0.3, 1.0]))}
            c['obj'] = {'base': 'sphere', 'center': list(o['mean'])}
        elif kind == 'ball':
            o['cons'] = {'t': 'ball', 'r': fs(math.sqrt(n) * r.choice([0.5, 1.0, 2.0]))}
            o['mean'] = ['0.1'] * n
            c['obj'] = {'base': 'sphere'}
        elif kind == 'mod':
            m = r.randrange(2, 7)
            o['cons'] = {'t': 'mod', 'm': m, 'k': r.randrange(m)}
        elif kind == 'script':
            p = r.choice([0.1, 0.5, 0.9])
            o['cons'] = {'t': 'script', 's': [int(r.random() < p) for _ in range(lam * 40)], 'then': 1}
        elif kind == 'none':
            o['cons'] = {'t': 'none'}
            budget = budget if budget != -1 else 4
        elif kind == 'all':
            o['cons'] = {'t': 'all'}
        elif kind == 'bounds':
            w = [r.choice([0.2, 0.7, 3.0]) for _ in range(n)]
            o['bounds'] = [[fs(float(m) - x * r.choice([0, 1, 1])) for m, x in zip(o['mean'], w)],
                           [fs(float(m) + x) for m, x in zip(o['mean'], w)]]
            c['obj'] = {'base': 'sphere', 'center': [fs((float(a) + float(b)) / 2) for a, b in zip(*o['bounds'])]}
            if n > 3:
                o['bounds'][0] = ['-100'] * n
            budget = -1 if r.random() < 0.8 else budget
        elif kind == 'edge':
            # only a few representable points are near the mean
            n = 1
            o['mean'] = [r.choice(['1', '-1', '1024', '-3'])]
            m = float(o['mean'][0])
            o['sigma'] = fs(math.ulp(m) * r.choice([0.4, 0.7]))
            up = math.ulp(m) * r.choice([0, 0, 1])
            o['bounds'] = [[fs(m)], [fs(m + up)]]
            c['obj'] = {'base': 'const'}
            budget = -1
            gens = 2
        if budget is not None:
            o['max_resamples'] = budget
        if r.random() < 0.12:
            c['obj']['faults'] = [['call', r.randrange(lam * 4), 'nan']]
        c['ops'] = [{'op': 'next', 'n': gens, 'past': 3}]
        if r.random() < 0.3:
            c['threads'] = r.choice([1, 2, 4])
            c['ops'] = [{'op': r.choice(['next', 'nextp']), 'n': 2, 'past': 9} for _ in range(gens // 2)]
        cs.append(c)
    return cs


def behaviour_cases(r, behaviours, tag):
    """Behaviours of MCSampling for the real code"""
    cs = []
    for i, b in enumerate(behaviours):
        n = r.choice([1, 2, 3])
        o = small_opts(r, n, b['lambda'], max_resamples=b['budget'],
                       cons={'t': 'script', 's': [int(x) for x in b['script']], 'then': 1})
        cs.append({'id': '%s%d' % (tag, i), 'kind': 'run', 'opts': o, 'obj': {'base': r.choice(['sphere', 'linear'])},
                   'full': False, 'ops': [r.choice(['next', 'next', 'nextp']), 'next'],
                   'want': {'tests': len(b['script']), 'b': b,
                            'kept': len([k for k in b['kept'] if k <= len(b['script'])])}})
    return cs


def run_behaviours(r, behaviours, tag):
    """Behaviours of MCRun for the real code: the same configuration, operations and function values"""
    val = {99999: 'nan', 50000: 'inf', -50000: '-inf'}
    cs = []
    for i, b in enumerate(behaviours):
        g = b['cfg']
        n = r.choice([1, 2, 3])
        o = small_opts(r, n, g['lambda'], mode=g['mode'])
        for k, f in (('max_evals', 'maxEvals'), ('max_gens', 'maxGens'), ('print', 'printGap')):
            if g[f] != -1:
                o[k] = g[f]
        if g['plotGap'] != -1:
            o['plot'] = [g['plotGap'], r.random() < 0.5]
        if g['hasTarget']:
            o['fun_target'] = str(g['target'])
        for k, f in (('tol_fun', 'tolFun'), ('tol_fun_rel', 'tolFunRel'), ('tol_fun_hist', 'tolFunHist')):
            if g[f]:
                o[k] = str(g[f])
        script, ops = [], []
        for t in b['trace']:
            script += [val.get(v, str(v)) for v in t['vals']]
            ops.append({'op': 'next', 'n': 1, 'past': 9} if t['op'] == 'next' else t['op'])
        c = {'id': '%s%d' % (tag, i), 'kind': 'run', 'opts': o, 'ops': ops,
             'obj': {'base': 'script', 'script': script or ['0'], 'cycle': True}}
        c['out'] = g['printGap'] != -1 or any(t['op'].startswith('print') for t in b['trace'])
        if g['plotGap'] != -1:
            c['plotdump'] = True
        cs.append(c)
    return cs


def bounds_cases(r, count, tag):
    """Points on, next to, and far from the faces of boxes"""
    cs = []
    for i in range(count):
        n = r.choice([1, 2, 3, 6])
        lo, hi, pts = [], [], []
        for _ in range(n):
            a = r.choice([0.0, -1.0, 1.5, -1e300, 1e-310, r.uniform(-5, 5), float('-inf')])
            b = r.choice([a, a + 1 if a > -1e299 else 2.0, 1e300, float('inf'), math.nextafter(a, float('inf'))])
            lo.append(a)
            hi.append(max(a, b))
        for _ in range(24):
            x = []
            for a, b in zip(lo, hi):
                inside = a if r.random() < 0.3 else b if r.random() < 0.4 else a / 2 + b / 2
                if inside != inside:
                    inside = 0.0
                x.append(inside)
            if r.random() < 0.6:
                k = r.randrange(n)
                x[k] = r.choice([math.nextafter(lo[k], float('-inf')), math.nextafter(hi[k], float('inf')), lo[k], hi[k],
                                 -x[k], x[k] + 1, float('nan'), float('inf'), float('-inf')])
            pts.append([fs(v) for v in x])
        cs.append({'id': '%s%d' % (tag, i), 'kind': 'bounds', 'lo': [fs(x) for x in lo], 'hi': [fs(x) for x in hi],
                   'points': pts})
    return cs


def law_cases(r, count, tag, coords=40000):
    """Long unconstrained runs whose distribution takes many shapes; about coords coordinates each"""
    cs = []
    dims = [1, 2, 2, 3, 5, 10, 2, 4, 8, 20, 1, 3, 2, 6, 32, 1, 14, 40]
    for i in range(count):
        n = dims[i % len(dims)]
        lam = r.choice([2, 3, 4, 7, 10, 20, 64, 150, 400, None])
        if n >= 8:
            lam = r.choice([6, 20, 40, None])
        o = {'mean': mean(r, n, 1.0), 'sigma': fs(logu(r, 0.01, 100)), 'seed': seed(r), 'pop': lam,
             'weights': r.choice(['positive', 'negative', 'negative', 'uniform']),
             'pupd': True if r.random() < 0.2 else None, 'mode': r.choice(['min', 'max'])}
        if r.random() < 0.2:
            o['max_resamples'] = r.choice([-1, 0])
        if r.random() < 0.3:
            o['cm'] = fs(r.choice([0.1, 0.5]))
        o = {k: v for k, v in o.items() if v is not None}
        c = {'id': '%s%d' % (tag, i), 'kind': 'run', 'opts': o,
             'obj': {'base': r.choice(['hash', 'hash', 'noise', 'const', 'linear', 'ellipsoid', 'rotated', 'ridge', 'discus']),
                     'cond': r.choice(['10', '1e4'])}}
        lam = lam or 4 + int(3 * math.log(n))
        gens = min(max(60, int(coords / (n * lam))), 2500)
        if c['obj']['base'] in ('ellipsoid', 'rotated', 'discus', 'linear', 'ridge'):
            # these do not stay where rounding is harmless for ever
            gens = min(gens, 250)
        c['ops'] = [{'op': 'next', 'n': gens}]
        if r.random() < 0.2:
            c['threads'] = r.choice([2, 4])
            c['ops'] = [{'op': 'nextp', 'n': gens}]
        cs.append(c)
    return cs


def start_cases(r, count, tag):
    """The first generations of many runs"""
    cs = []
    for i in range(count):
        n = r.choice([1, 1, 2, 2, 3, 4, 6, 10])
        o = {'mean': mean(r, n, 1.0), 'sigma': fs(logu(r, 0.01, 100)), 'seed': str(r.randrange(1 << 64)),
             'pop': r.choice([2, 3, 4, 6, 10, 25]), 'weights': r.choice(['positive', 'negative', 'uniform']),
             'mode': r.choice(['min', 'max'])}
        if i % 40 == 7:
            # sizes beyond those of the other suites
            n, o['pop'] = r.choice([(100, 6), (66, 9), (129, 4), (2, 1500), (1, 3000), (5, 700)])
            o['mean'] = mean(r, n, 1.0)
        if r.random() < 0.1:
            o['max_resamples'] = r.choice([-1, 0])
        cs.append({'id': '%s%d' % (tag, i), 'kind': 'run', 'opts': o,
                   'obj': {'base': r.choice(['hash', 'noise', 'sphere', 'rotated']), 'cond': '10'},
                   'ops': [{'op': r.choice(['next', 'next', 'nextp']), 'n': r.choice([1, 2, 3])}]})
    return cs


def cells_cases(r, count, edges, seeds=4):
    """First generations with large populations, counted by cells only"""
    cs = []
    for i in range(count):
        n = [1, 20, 5, 50, 2][i % 5]
        lam = max(2, 1000000 // n) if n > 1 else 100000
        cs.append({'id': 'cells-%d' % i, 'kind': 'cells', 'n': n, 'edges': edges, 'par': i % 3 == 2,
                   'seeds': [str(r.randrange(1 << 63)) for _ in range(seeds if n > 1 else 3)],
                   'opts': {'mean': ['0'] * n, 'sigma': fs(logu(r, 0.01, 100)), 'pop': lam, 'weights': 'uniform',
                            'pupd': i % 4 == 1}})
    return cs


def pair(kind, prop, a, b, **kw):
    kw.setdefault('rel', {})
    for c in (a, b):
        c['full'] = True
        c['kind'] = 'run'
    return dict(kw, kind=kind, property=prop, a=a, b=b)


def clone(c, **over):
    import copy
    d = copy.deepcopy(c)
    d.update(copy.deepcopy(over))
    return d


def plain_run(r, gens=25, bases=SMOOTH + ['hash', 'linear'], dims=(1, 2, 3, 3, 5, 8), **kw):
    """Any run, stepped"""
    n = r.choice(dims)
    o = base_opts(r, n, **kw)
    if r.random() < 0.2:
        o['cons'] = {'t': 'half', 'i': r.randrange(n), 'ge': fs(float(o['mean'][0]) - 1)}
        o['max_resamples'] = r.choice([0, 1, 5])
    elif r.random() < 0.2:
        o['bounds'] = [[fs(float(x) - 1) for x in o['mean']], [fs(float(x) + 4) for x in o['mean']]]
        o['max_resamples'] = r.choice([0, 1, 20])
    if r.random() < 0.3:
        o['tol_fun'] = fs(r.choice([0, 1e-3, 0.1]))
    if r.random() < 0.3:
        o['mode'] = 'max'
    ob = obj(r, n, bases)
    if r.random() < 0.3:
        ob['trans'] = [['quant', r.choice(['0.5', '0.1'])]]
    return {'kind': 'run', 'opts': o, 'obj': ob, 'ops': [{'op': 'next', 'n': gens, 'past': r.choice([2, 10])}]}


def seed_pairs(r, count, tag):
    ps = []
    for i in range(count):
        c = plain_run(r)
        kind = r.choice(['again', 'again', 'whole', 'whole', 'mixed', 'observed', 'observed', 'observed whole',
                         'limits', 'unconstrained', 'other seed', 'near seed'])
        kw = {}
        d = clone(c)
        if kind in ('observed', 'limits') and r.random() < 0.3:
            c['obj']['base'] = d['obj']['base'] = 'noise'
        if r.random() < 0.15 and kind != 'unconstrained':
            f = [['call', r.randrange(80), r.choice(['nan', 'inf'])]]
            c['obj']['faults'] = d['obj']['faults'] = f
        if kind == 'again':
            if r.random() < 0.5:
                c['opts']['pupd'] = d['opts']['pupd'] = r.random() < 0.2
                if c['opts']['pupd']:
                    # the order of the sums may differ
                    c['opts']['pupd'] = d['opts']['pupd'] = False
        elif kind == 'whole':
            c['opts']['max_gens'] = d['opts']['max_gens'] = r.randrange(1, 40)
            c['ops'] = [{'op': 'next', 'n': 100, 'past': 0}]
            d['ops'] = ['run']
            kw['merge'] = True
        elif kind == 'mixed':
            g = r.randrange(2, 40)
            c['opts']['max_gens'] = d['opts']['max_gens'] = g
            c['ops'] = [{'op': 'next', 'n': 100, 'past': 0}]
            d['ops'] = [{'op': 'next', 'n': r.randrange(1, g), 'past': 0}, 'run']
            kw['merge'] = True
            if any(x in c['opts'] for x in ('tol_fun',)):
                c['opts']['tol_fun'] = d['opts']['tol_fun'] = '0'
            c['obj'].pop('trans', 0), d['obj'].pop('trans', 0)
            c['obj'].pop('faults', 0), d['obj'].pop('faults', 0)
        elif kind in ('observed', 'observed whole'):
            d['opts']['plot'] = [r.choice([0, 1, 20, 1000]), r.random() < 0.5]
            if r.random() < 0.7:
                d['opts']['print'] = r.choice([0, 1, 20, 1000])
            if kind == 'observed':
                ops = []
                left = c['ops'][0]['n']
                while left > 0:
                    m = min(left, r.randrange(1, 7))
                    ops.append({'op': 'next', 'n': m})
                    left -= m
                    ops.append(r.choice(['plot_add', 'plot_clear', 'print_info', 'print_init', 'print_final', 'observe']
                                        + (['plot_save'] if i % 16 == 0 else [])))
                d['ops'] = ops
                c['ops'] = [{'op': 'next', 'n': c['ops'][0]['n']}]
            else:
                c['opts']['max_gens'] = d['opts']['max_gens'] = r.randrange(1, 40)
                c['ops'] = d['ops'] = ['run', 'run']
        elif kind == 'limits':
            # limits that are never reached
            c['ops'] = d['ops'] = [{'op': 'next', 'n': 20}]
            for k, v in (('max_evals', 10 ** 9), ('max_gens', 10 ** 9), ('max_time', 10 ** 15), ('tol_x_up', '1e300'),
                         ('fun_target', '-inf' if c['opts'].get('mode') != 'max' else 'inf')):
                if r.random() < 0.6:
                    d['opts'][k] = v
            kw['rel'] = {'reasons': 'all'}
            c['opts']['tol_x_up'] = '1e300'
        elif kind == 'unconstrained':
            c['opts'].pop('cons', 0), c['opts'].pop('bounds', 0), c['opts'].pop('max_resamples', 0)
            d = clone(c)
            if r.random() < 0.5:
                d['opts']['max_resamples'] = r.choice([-1, 0, 3])
            else:
                d['opts']['cons'] = {'t': 'none'}
                d['opts']['max_resamples'] = 0
        elif kind in ('other seed', 'near seed'):
            # the seed differs only
            d['opts']['seed'] = r.randrange(1 << 63) if kind == 'other seed' else c['opts']['seed'] ^ (1 << r.randrange(63))
            for x in (c, d):
                x['ops'] = [{'op': 'next', 'n': 2}]
                x['obj'].pop('trans', 0)
            kw['rel'] = {'differ': True}
        c['id'], d['id'] = '%s%d-a' % (tag, i), '%s%d-b' % (tag, i)
        ps.append(pair(kind, 'C13', c, d, id='%s%d' % (tag, i), **kw))
    return ps


def seedless(r, count, tag):
    """Runs with random seeds, in pairs that differ in nothing"""
    cs = []
    for i in range(count):
        c = plain_run(r, 12)
        del c['opts']['seed']
        c['ops'] = [{'op': 'next', 'n': 12}]
        cs.append([clone(c, id='%s%d-%d' % (tag, i, k)) for k in range(2)])
    return cs


def parallel_pairs(r, count, tag):
    ps = []
    for i in range(count):
        c = plain_run(r, 18)
        d = clone(c)
        o = c['opts']
        o.pop('pupd', 0), d['opts'].pop('pupd', 0)
        kw = {'rel': {'ordered': False, 'counts': False}, 'threads': True}
        kind = r.choice(['steps', 'steps', 'mix', 'whole', 'whole', 'ties', 'invalid', 'big'])
        d['threads'] = r.choice([1, 2, 3, 4, 8])
        d['obj']['delay'] = r.choice([0, 0, 30, 200])
        if kind in ('steps', 'ties', 'big', 'invalid'):
            c['ops'] = [{'op': 'next', 'n': 15}]
            d['ops'] = [{'op': 'nextp', 'n': 15}]
            if kind == 'ties':
                for x in (c, d):
                    x['obj'] = dict(x['obj'], base=r.choice(['const', 'linear', 'maxabs', 'hash']) if x is c else c['obj']['base'],
                                    trans=[['quant', '0.5']])
            if kind == 'big':
                big = r.choice([65, 129, 257, 300, 300, 513, 1025])
                how = r.choice(['', '', 'ties', 'invalid'])
                for x in (c, d):
                    x['opts']['pop'] = big
                    x['ops'][0]['n'] = 3 if big < 400 else 2
                    if how == 'ties':
                        x['obj']['trans'] = [['quant', '0.5']]
                    elif how == 'invalid':
                        x['obj']['faults'] = [['above', 0, fs(float(o['mean'][0]) + float(o['sigma']) * 2.5), 'nan']]
            if kind == 'invalid':
                f = [['above', 0, fs(float(o['mean'][0]) + float(o['sigma']) * r.choice([1.0, 1.5, 2.0])), 'nan']]
                c['obj']['faults'] = d['obj']['faults'] = f
        elif kind == 'mix':
            c['ops'] = [{'op': 'next', 'n': 16}]
            d['ops'] = [{'op': r.choice(['next', 'nextp']), 'n': 2} for _ in range(8)]
        elif kind == 'whole':
            c['opts']['max_gens'] = d['opts']['max_gens'] = r.randrange(1, 30)
            c['ops'], d['ops'] = ['run', 'run'], ['runp', r.choice(['run', 'runp'])]
        c['id'], d['id'] = '%s%d-a' % (tag, i), '%s%d-b' % (tag, i)
        ps.append(pair(kind, 'C14', c, d, id='%s%d' % (tag, i), **kw))
    return ps


def symmetric_pairs(r, count, tag):
    ps = []
    for i in range(count):
        kind = r.choice(['mode', 'mode', 'mode whole', 'mode ties', 'order', 'order', 'order bend', 'order scale',
                         'order whole', 'order ulps', 'scale', 'scale', 'scale whole'])
        c = plain_run(r, 25)
        c['opts'].pop('mode', 0)
        ties = kind == 'mode ties'
        if ties:
            c['obj']['base'] = r.choice(['const', 'linear', 'hash', 'sphere', 'noise'])
            c['obj']['trans'] = [['quant', r.choice(['0.5', '2', '0.1'])]]
        kw = {'rel': {}}
        if kind.startswith('mode'):
            if r.random() < 0.3:
                c['opts']['fun_target'] = fs(r.choice([0.5, 0.01, -1.0, 5.0]))
            if r.random() < 0.2:
                c['obj']['faults'] = [['call', r.randrange(60), r.choice(['inf', 'nan', '-inf'])]]
            if kind == 'mode whole':
                c['opts']['max_gens'] = r.randrange(1, 60)
                c['ops'] = ['run', 'run']
            d = clone(c)
            d['opts']['mode'] = 'max'
            d['obj']['trans'] = d['obj'].get('trans', []) + [['neg']]
            for f in d['obj'].get('faults', []):
                f[2] = {'inf': '-inf', '-inf': 'inf', 'nan': 'nan'}[f[2]]
            if 'fun_target' in d['opts']:
                d['opts']['fun_target'] = fs(-float(d['opts']['fun_target']))
            kw['rel'] = {'values': 'negated'}
        elif kind.startswith('order'):
            o = c['opts']
            o.update(tol_fun='0', tol_fun_hist='0', tol_stag=10 ** 6)
            if r.random() < 0.4:
                o['mode'] = 'max'
            c['ops'] = [{'op': 'next', 'n': 25}]
            if kind == 'order whole':
                o['max_gens'] = r.randrange(1, 60)
                c['ops'] = ['run']
            if kind == 'order ulps':
                # few values, which become direct neighbours
                unit = r.choice(['0.015625', '0.25', '1'])
                c['obj']['trans'] = c['obj'].get('trans', []) + [['clip', '-1e6', '1e6'], ['quant', unit]]
            d = clone(c)
            t = (['ulps', unit, r.choice(['1', '1', '-3', '0', '1e200', '1e-200', '123.456'])] if kind == 'order ulps' else
                 ['bend', r.choice(['0', '1', '3']), r.choice(['2', '1e3', '1024'])] if kind == 'order bend' else
                 ['scale', r.choice(['1024', '0.0009765625', '1.2676506002282294e30'])] if kind == 'order scale' else
                 ['order', r.choice([1, -1, 12345, 10 ** 12, -10 ** 12, 10 ** 15, 1 << 55])])
            if kind == 'order bend' and (c['obj']['base'] in ('hash', 'linear')):
                t = ['order', 99]
            d['obj']['trans'] = d['obj'].get('trans', []) + [t]
            kw['rel'] = {'values': 'ordered', 'reasons': 'others'}
        else:
            from .num import enc
            k = r.choice([-40, -7, -1, 1, 3, 10, 50, 100, -300, -700, -960, -1000, 300, 700, 900])
            # distributions that shrink a lot must not come near the subnormal numbers
            k = max(k, -700 if kind == 'scale whole' else -980)
            f = 2.0 ** k
            o = c['opts']
            if k < -900:
                # The points are not subnormal numbers, which have less precision
                o['mean'] = [fs(x if abs(x) > 0.1 else 0.7) for x in map(float, o['mean'])]
            for x in ('cons', 'bounds', 'max_resamples'):
                o.pop(x, 0)
            if r.random() < 0.4:
                o['mode'] = 'max'
            if kind == 'scale whole':
                o['max_gens'] = r.randrange(1, 120)
                c['ops'] = ['run']
            d = clone(c)
            d['opts']['mean'] = [fs(float(x) * f) for x in o['mean']]
            d['opts']['sigma'] = fs(float(o['sigma']) * f)
            d['obj']['xscale'] = fs(1 / f)
            kw['rel'] = {'factor': enc(f)}
        c['id'], d['id'] = '%s%d-a' % (tag, i), '%s%d-b' % (tag, i)
        ps.append(pair(kind, 'C15', c, d, id='%s%d' % (tag, i), **kw))
    return ps


SCALED = {'scale': 'sp', 'scalem': 'sp', 'scalecl': 'sp', 'scale2': 'sp', 'scalebox': 's', 'scaleboxp': 'sp', 'boxscale': 's',
          'boxpscale': 'sp', 'scalec': 's'}
UNSCALED = {'plain': 'sp', 'closure': 's', 'closurep': 'sp', 'closurem': 's', 'box': 's', 'boxp': 'sp'}


def wrapper(r, n, kinds, factors=(1.0, 2.0, 0.1, -1.0, 1e3, 3.7)):
    """A wrapper and its chain of scalings, outermost first"""
    t = r.choice(list(kinds))
    w = {'t': t}
    chain = []
    if t in SCALED:
        w['s'] = [fs(r.choice(factors)) for _ in range(n)]
        chain = [w['s']]
        if t == 'scale2':
            w['s2'] = [fs(r.choice(factors)) for _ in range(n)]
            chain = [w['s2'], w['s']]
    return w, chain


def wrapper_cases(r, count, tag):
    """Direct evaluations of wrapped functions"""
    cs = []
    every = list(SCALED) + list(UNSCALED)
    odd = [0.0, -0.0, 1.0, -1.0, 1e-320, 1e300, -1e300, float('inf'), float('nan'), 0.1, 1 / 3, 5e-324, 1.7976931348623157e308]
    for i in range(count):
        n = r.choice([1, 2, 3, 5, 9])
        w, chain = wrapper(r, n, [every[i % len(every)]], odd + [r.uniform(-9, 9) for _ in range(13)])
        ob = {'base': r.choice(['hash', 'sphere', 'linear', 'noise', 'first'])}
        if r.random() < 0.4:
            ob = {'base': 'script', 'script': [r.choice(ODD + ['nan', 'inf', '-inf']) for _ in range(6)], 'cycle': True}
        cs.append({'id': '%s%d' % (tag, i), 'kind': 'scale', 'obj': ob, 'wrap': w, 'chain': chain,
                   'par': 'p' in dict(SCALED, **UNSCALED)[w['t']],
                   'points': [[fs(r.choice(odd + [r.uniform(-9, 9), r.gauss(0, 1)] * 6)) for _ in range(n)] for _ in range(5)]})
    return cs


def wrapper_pairs(r, count, tag):
    """Runs with a wrapped function, and with a function that does by itself what the wrapper does"""
    from .num import encv
    ps = []
    for i in range(count):
        c = plain_run(r, 20)
        n = len(c['opts']['mean'])
        if r.random() < 0.2:
            c['obj']['base'] = r.choice(['noise', 'worse'])     # a function with a state
        scaled = r.random() < 0.6
        w, chain = wrapper(r, n, SCALED if scaled else UNSCALED)
        kw = {'rel': {}}
        par = 'p' in dict(SCALED, **UNSCALED)[w['t']] and r.random() < 0.4 and c['obj']['base'] not in ('noise', 'worse')
        if r.random() < 0.4:
            c['opts']['max_gens'] = r.randrange(1, 40)
            c['ops'] = ['runp' if par else 'run']
        elif par:
            c['ops'][0]['op'] = 'nextp'
        if r.random() < 0.15:
            c['obj']['faults'] = [['call', r.randrange(60), r.choice(['inf', 'nan', '-inf'])]]
        if par:
            c['threads'] = r.choice([1, 2, 4])
            kw['rel'] = {'ordered': False}
            kw['threads'] = True
            if c['obj'].pop('faults', None) or c['obj'].get('trans'):
                c['obj'].pop('trans', 0)
        d = clone(c)
        c['wrap'] = w
        if chain:
            d['obj']['pre'] = chain
            # the point of the objective function and the point of the run are not the same
            kw['rel']['scales'] = [encv(float(x) for x in v) for v in chain]
        if not par and r.random() < 0.25:
            c['borrow'] = True
        else:
            kw['back'] = True
        c['id'], d['id'] = '%s%d-a' % (tag, i), '%s%d-b' % (tag, i)
        kind = ('borrowed ' if c.get('borrow') else '') + w['t'] + (' in parallel' if par else '')
        ps.append(pair(kind, 'C19', c, d, id='%s%d' % (tag, i), **kw))
    return ps


def conv_cases(r, count, tag):
    cs = []
    for i in range(count):
        fn = ['fmin', 'fmax', 'fmin_parallel', 'fmax_parallel'][i % 4]
        n = r.choice([1, 1, 2, 2, 3, 5])
        bad = r.random() < 0.08
        o = {'mean': mean(r, 0 if bad and r.random() < 0.3 else n, r.choice([0.0, 1.0, 5.0])), 'sigma': fs(r.choice([0.1, 0.5, 1.0, 3.0]))}
        if bad and o['mean']:
            o['sigma'] = r.choice(['0', '-1', 'nan', 'inf', '1e-320'])
        ob = obj(r, n, ['sphere', 'abs', 'rastrigin', 'cigar', 'rosenbrock', 'hash', 'const', 'maxabs', 'linear'])
        if fn.startswith('fmax') and r.random() < 0.7:
            ob['trans'] = [['neg']]
        if r.random() < 0.15:
            ob.setdefault('trans', []).append(['quant', r.choice(['0.5', '0.01'])])
        x = r.random()
        if x < 0.25:
            ob['faults'] = [['call', r.choice([0, 1, 3, 7, 20, 77, 150]), r.choice(['nan', 'nan', 'inf', '-inf'])]]
        elif x < 0.3:
            ob['faults'] = [['callmod', 3, r.randrange(3), 'inf']]
        if fn.endswith('parallel') and x < 0.3:
            ob.pop('faults')
            if x < 0.06:
                ob['faults'] = [['callmod', 1, 0, 'nan']]
            elif x < 0.2:
                ob['faults'] = [['above', 0, fs(float((o['mean'] or ['0'])[0]) + 0.5), r.choice(['inf', 'nan', '-inf'])]]
        if not fn.endswith('parallel') and r.random() < 0.1:
            ob['base'] = 'noise'
        c = {'id': '%s%d' % (tag, i), 'kind': 'conv', 'fn': fn, 'obj': ob, 'opts': o, 'evals': True}
        if fn.endswith('parallel'):
            c['threads'] = r.choice([1, 2, 4])
        w, _ = wrapper(r, n, [k for k, v in UNSCALED.items() if 'p' in v or not fn.endswith('parallel')])
        c['wrap'] = w
        cs.append(c)
    return cs


def conv_plain(c, seed):
    """The plain run of a convenience function"""
    o = dict(c['opts'], seed=seed, mode='max' if c['fn'].startswith('fmax') else 'min')
    d = {'id': c['id'] + '-plain', 'kind': 'run', 'obj': c['obj'], 'opts': o, 'full': False, 'ops': ['runp' if c['fn'].endswith('parallel') else 'run']}
    if 'threads' in c:
        d['threads'] = c['threads']
    return d


# ------------------------------- restarts ------------------------------

RANGES = [('-5', '5'), ('-5', '5'), ('0', '1'), ('5', '-5'), ('-1', '3'), ('1000', '1001'), ('-1e-3', '1e-3'),
          ('3', '300'), ('-1e6', '-1e5'), ('1', '-1'), ('-0.7', '0.1')]
VARIANTS = ['run', 'reuse', 'par', 'parreuse']
STATEFUL = ('noise', 'worse', 'script', 'plan')


def strategy(r, t=None, runs=None):
    t = t or r.choice(['local', 'ipop', 'bipop', 'bipop'])
    s = {'t': t}
    if t == 'local':
        s['max_runs'] = runs if runs is not None else r.choice([0, 1, 1, 2, 3, 5, 8])
        if r.random() < 0.6:
            s['factor'] = r.choice(['0.5', '1', '0.01', '20', '1e-3', '3.7', '100'])
    elif t == 'ipop':
        if r.random() < 0.7:
            s['inc'] = r.choice([1, 1, 2, 2, 3, 4, 5])
    elif r.random() < 0.3:
        s['default'] = True
    else:
        if r.random() < 0.6:
            s['factor'] = r.choice(['0.2', '1', '0.01', '2', '1e-3', '0.37'])
        if r.random() < 0.7:
            s['inc'] = r.choice([1, 2, 2, 3, 4, 5])
    return s


def default_options(r, n):
    """Options of the single runs, also ones that a restarter overrides"""
    o = {}
    ks = ['pop', 'weights', 'cm', 'tol_fun', 'tol_fun_rel', 'tol_fun_hist', 'tol_x', 'tol_stag', 'tol_x_up', 'tol_cond',
          'cons', 'bounds', 'max_resamples', 'sigma', 'mean', 'mode', 'pupd', 'seed', 'max_evals', 'max_gens', 'fun_target',
          'plot', 'print']
    for k in r.sample(ks, r.randrange(0, 9)):
        o[k] = {'pop': lambda: r.choice([2, 3, 4, 5, 7, 10, 20]),
                'weights': lambda: r.choice(['negative', 'positive', 'uniform']),
                'cm': lambda: fs(r.choice([1.0, 0.5, 0.1])),
                'tol_fun': lambda: fs(r.choice([0, 1e-3, 0.1, 1e-8])),
                'tol_fun_rel': lambda: fs(r.choice([0, 1e-3, 0.1])),
                'tol_fun_hist': lambda: fs(r.choice([0, 1e-3, 0.1])),
                'tol_x': lambda: fs(r.choice([0, 1e-3, 1e-9])),
                'tol_stag': lambda: r.choice([5, 20, 1000]),
                'tol_x_up': lambda: fs(r.choice([1.5, 1e3, 1e12])),
                'tol_cond': lambda: fs(r.choice([2, 1e3, 1e16])),
                'cons': lambda: {'t': 'half', 'i': r.randrange(n), 'ge': fs(r.choice([-1, 0, 0.5]))},
                'bounds': lambda: [[fs(-3)] * n, [fs(3)] * n],
                'max_resamples': lambda: r.choice([0, 1, 5, 30]),
                'sigma': lambda: fs(r.choice([0.3, 7, 1e-3])),
                'mean': lambda: [fs(r.choice([99, -7, 0.1]))] * n,
                'mode': lambda: r.choice(['min', 'max']), 'pupd': lambda: r.random() < 0.5,
                'seed': lambda: r.randrange(1 << 60), 'max_evals': lambda: r.choice([0, 1, 50]),
                'max_gens': lambda: r.choice([0, 1, 3]), 'fun_target': lambda: fs(r.choice([-1e9, 1e9, 3])),
                'plot': lambda: [r.choice([0, 3, 100]), r.random() < 0.5],
                'print': lambda: r.choice([0, 1, 30])}[k]()
    if 'cons' in o and 'bounds' in o:
        del o['bounds']
    return o


def restart_case(r, cid, t=None, budget=900, **kw):
    n = r.choice([1, 2, 2, 3, 5, 8])
    lo, hi = r.choice(RANGES)
    c = {'id': cid, 'kind': 'restart', 'dim': n, 'range': [lo, hi], 'strategy': strategy(r, t),
         'seed': seed(r), 'variant': r.choice(VARIANTS), 'vals': True, 'digest': True, 'alone': True}
    if r.random() < 0.65:
        c['defaults'] = default_options(r, n)
    ob = obj(r, n, ['sphere', 'abs', 'rastrigin', 'rastrigin', 'cigar', 'rosenbrock', 'hash', 'const', 'maxabs', 'linear',
                    'ellipsoid'])
    if r.random() < 0.35:
        ob.setdefault('trans', []).append(['quant', r.choice(['0.5', '10', '0.01'])])
    if r.random() < 0.4:
        c['mode'] = r.choice(['max', 'max', 'min'])
        if c['mode'] == 'max' and r.random() < 0.7:
            ob.setdefault('trans', []).append(['neg'])
    if r.random() < 0.2:
        c['pupd'] = r.random() < 0.8
    if r.random() < 0.3:
        c['print'] = r.random() < 0.9
    if r.random() < 0.3:
        v = r.choice([1.0, 1e-2, 10.0, 100.0, 0.3])
        c['fun_target'] = fs(-v if c.get('mode') == 'max' else v)
    # what bounds the work: a limit on all evaluations or on the generations of a run
    lam = (c.get('defaults') or {}).get('pop', 4 + int(3 * math.log(n)))
    x = r.random()
    if x < 0.75:
        c['max_evals'] = r.choice([0, 1, lam, lam + 1, 3 * lam, budget // 4, budget // 2, budget, budget])
    if x > 0.6 or r.random() < 0.5:
        c['max_gens_run'] = r.choice([0, 1, 2, 3, 5, 8, 13, 30])
    if r.random() < 0.35:
        c['max_evals_run'] = r.choice([0, 1, lam - 1, lam, lam + 1, 3 * lam, 10 * lam, 100])
    if c['strategy']['t'] != 'local' and 'max_evals' not in c:
        if c['strategy'].get('inc', 2) > 1 or c['strategy'].get('default'):
            c['max_evals'] = budget
    if c['strategy']['t'] == 'local' and 'max_evals' not in c and 'max_gens_run' not in c:
        c['max_gens_run'] = 40
    if r.random() < 0.2:
        v = r.choice(['nan', 'nan', 'inf', '-inf'])
        if r.random() < 0.5 and c['variant'] in ('run', 'reuse'):
            ob['faults'] = [['call', r.choice([0, 1, lam - 1, lam, 40, 200, 400]), v]]
            c['alone'] = False
        else:
            at = sorted([float(lo), float(hi)])
            ob['faults'] = [['above', 0, fs(at[0] + (at[1] - at[0]) * r.choice([0.3, 0.6, 0.9, 1.0, 1.1])), v]]
    if r.random() < 0.1 and c['variant'] in ('run', 'reuse'):
        ob['base'] = r.choice(['noise', 'worse'])
        c['alone'] = False
    if c['variant'].startswith('par'):
        c['threads'] = r.choice([1, 2, 4])
    if r.random() < 0.25:
        c['fields'] = True
        if r.random() < 0.5:
            c['range'] = [hi, lo]
    c['obj'] = ob
    c.update(kw)
    return c


def degenerating(r, c):
    """Runs of a restarter that end because their matrix is no longer positive definite"""
    c['dim'], c['range'] = 2, ['-1', '1']
    c['defaults'] = {'pop': r.choice([10, 20, 50]), 'weights': r.choice(['positive', 'uniform', 'negative']), 'tol_fun': '0',
                     'tol_fun_hist': '0', 'tol_fun_rel': '0', 'tol_x': '0', 'tol_x_up': 'inf', 'tol_cond': 'inf',
                     'sigma': r.choice(['1', '1e-3'])}
    ob = {'base': r.choice(['ellipsoid', 'cigar', 'linear', 'first', 'ridge']), 'cond': r.choice(['1e18', '1e30'])}
    if c.get('mode') == 'max':
        ob['trans'] = [['neg']]
    c['obj'] = ob
    c.pop('fun_target', 0), c.pop('max_evals_run', 0)
    c['max_gens_run'] = 120
    c['max_evals'] = r.choice([1500, 3000, 4000])
    return c


def restart_cases(r, count, tag, t=None):
    cs = [restart_case(r, '%s%d' % (tag, i), t) for i in range(count)]
    return [degenerating(r, c) if i % 20 == 19 else c for i, c in enumerate(cs)]


def restart_whole(r, count, tag, t=None):
    """All runs of a strategy, with few generations each; the values are not kept"""
    cs = []
    for i in range(count):
        c = restart_case(r, '%s%d' % (tag, i), t or r.choice(['ipop', 'bipop']))
        c.pop('max_evals', 0), c.pop('fun_target', 0), c.pop('max_evals_run', 0), c['obj'].pop('faults', 0)
        inc = r.choice([1, 1, 1, 2, 2, 2, 3])
        if c['strategy']['t'] != 'local':
            c['strategy'].pop('default', 0)
            c['strategy']['inc'] = inc
        big = inc > 1
        c.setdefault('defaults', {})
        c['defaults'].pop('pop', 0)
        if big:
            c['defaults']['pop'] = 2
        c['max_gens_run'] = r.choice([1, 2, 3]) if big else r.choice([1, 2, 5, 20])
        if inc == 3:
            c['max_gens_run'] = 1
            c['dim'] = 1
            c['defaults'] = {'pop': 2}
            c['obj'] = {'base': 'hash'}
        if c['strategy']['t'] != 'local' and i % 5 == 4:
            # steep increases
            steep = r.choice([6, 9, 17, 31, 64, 100, 250])
            runs = int(math.log(1e5) / math.log(steep))
            c['strategy']['inc'] = inc = steep
            c['dim'], c['max_gens_run'] = 1, 1
            c['defaults'] = {'pop': 2}
            c['obj'] = {'base': 'hash'}
            c['max_evals'] = 2 * sum(steep ** k for k in range(runs)) + r.choice([0, 1, 2])
        c['vals'] = False
        c['alone'] = inc < 3 and c['alone']
        cs.append(c)
    return cs


def restart_options(r, count, tag):
    """Which options are accepted; the runs themselves are kept short"""
    cs = []
    odd = ['0', '-0', '-1', 'nan', 'inf', '-inf', '1e-320', '5e-324', '2.2250738585072014e-308', '1e300', '0.5', '1', '-1e-320']
    ends = ['0', '-0', '1', '-1', 'nan', 'inf', '-inf', '1e308', '-1e308', '1.7e308', '5e-324', '1e-320', '-5', '5', '1e300', '1e-300',
            '9007199254740993', '9007199254740992']
    for i in range(count):
        c = restart_case(r, '%s%d' % (tag, i))
        x = r.random()
        n = c['dim']
        if x < 0.35:
            t = r.choice(['local', 'bipop', 'bipop', 'ipop'])
            c['strategy'] = {'t': t}
            if t == 'local':
                c['strategy']['max_runs'] = r.choice([0, 1, 2])
            if t != 'ipop':
                c['strategy']['factor'] = r.choice(odd)
            if t != 'local':
                c['strategy']['inc'] = r.choice([0, 1, 2, 1 << 40])
        elif x < 0.85:
            c['range'] = [r.choice(ends), r.choice(ends)]
            c['strategy'] = strategy(r)
        else:
            c['dim'] = 0
            if r.random() < 0.5:
                c['range'] = [r.choice(ends), r.choice(ends)]
            c.pop('defaults', 0)
        c['obj'] = {'base': r.choice(['hash', 'const'])}
        c.pop('fun_target', 0)
        if c.get('defaults'):
            c['defaults'] = {k: v for k, v in c['defaults'].items() if k not in ('cons', 'bounds', 'print')}
        c['max_evals'] = 40 if c['strategy'].get('inc') != 1 << 40 else 1
        c['max_gens_run'] = 2
        c['print'] = False
        cs.append(c)
    return cs


def restart_extreme(r, count, tag):
    """Step sizes that round to zero or infinity"""
    cs = []
    for i in range(count):
        n = r.choice([1, 2, 3])
        (lo, hi), f = r.choice([(('0', '1e-300'), '1e-300'), (('0', '1e-300'), '1e-6'), (('-1e300', '1e300'), '1e300'),
                                (('0', '5e-324'), '0.5'), (('-8e307', '8e307'), '1'), (('1e-320', '0'), '1'), (('-4e-308', '4e-308'), None)])
        s = r.choice([{'t': 'local', 'max_runs': 2}, {'t': 'ipop', 'inc': 1}, {'t': 'bipop', 'inc': 2}])
        if f and s['t'] != 'ipop':
            s['factor'] = f
        c = {'id': '%s%d' % (tag, i), 'kind': 'restart', 'dim': n, 'range': [lo, hi], 'strategy': s, 'seed': seed(r),
             'variant': r.choice(VARIANTS), 'obj': {'base': r.choice(['hash', 'const', 'first'])}, 'max_evals': 200, 'max_gens_run': 4,
             'vals': True, 'digest': True, 'alone': True}
        cs.append(c)
    return cs


def restart_timed(r, count, tag):
    """Limits on the time"""
    cs = []
    for i in range(count):
        c = restart_case(r, '%s%d' % (tag, i))
        c['alone'] = False
        c['max_time'] = r.choice([0, 0, 1, 1000, 10 ** 6, 5 * 10 ** 6, 20 * 10 ** 6, 10 ** 18])
        c['obj']['delay'] = r.choice([0, 0, 200])
        if i % 4 == 3:
            # several limits that are reached at the same time
            c['max_time'] = r.choice([0, 0, 1, 10 ** 6])
            c['max_evals'] = r.choice([0, 0, 0, 1, 2, 20])
            if c['strategy']['t'] == 'local' and r.random() < 0.5:
                c['strategy']['max_runs'] = r.choice([0, 1])
        cs.append(c)
    return cs


def restart_plans(r, plans, tag):
    """Replays behaviours of MCRestart in the real code"""
    cs = []
    for i, p in enumerate(plans):
        g = p['cfg']
        s = {'t': g['t']}
        if g['t'] == 'local':
            s['max_runs'] = g['maxRuns']
        else:
            s['inc'] = g['inc']
        n, lam = 1, g['lambda0']
        kept = r.random() < 0.3
        c = {'id': '%s%d' % (tag, i), 'kind': 'restart', 'dim': n, 'range': ['-5', '5'], 'strategy': s, 'mode': g['mode'],
             'seed': seed(r), 'variant': r.choice(VARIANTS), 'defaults': {'pop': lam}, 'vals': kept, 'digest': True,
             'print': r.random() < 0.1, 'threads': 1, 'fun_target': '-50' if g['mode'] == 'min' else '50',
             'obj': {'base': 'plan', 'trans': [['neg']] if g['mode'] == 'max' else [],
                     'plan': [{'gens': q['gens'], 'v': fs(q['v'] if g['mode'] == 'min' else -q['v']), 'end': q['end'], 'at': 0}
                              for q in p['plan']]}}
        for k, f in (('maxEvals', 'max_evals'), ('maxEvalsRun', 'max_evals_run'), ('maxGensRun', 'max_gens_run')):
            if g[k] >= 0:
                c[f] = g[k]
        invalid = any(q['end'].startswith('nan') for q in p['plan'])
        if c['variant'].startswith('par'):
            if invalid:
                c['variant'] = c['variant'].replace('par', 'run').replace('runreuse', 'reuse')
        if p['done']:
            c['want'] = {'done': p['done'], 'evals': p['evals'], 'runs': len(p['plan'])}
        else:
            c['obj']['plan'].append({'gens': 10 ** 6, 'v': '0', 'end': 'nan first', 'at': 0})
        cs.append(c)
    return cs


def restart_spread(r, count, tag):
    """Very many runs of one generation: what is drawn at random comes from all parts of its range"""
    cs = []
    for i in range(count):
        n = r.choice([1, 2, 4])
        s = [{'t': 'local', 'max_runs': 150}, {'t': 'bipop', 'inc': 3}, {'t': 'bipop', 'inc': 3, 'factor': '1e-3'},
             {'t': 'local', 'max_runs': 150} if r.random() < 0.3 else {'t': 'bipop', 'inc': 3}][i % 4]
        n = r.choice([2, 3, 4]) if i % 4 == 0 else n
        c = {'id': '%s%d' % (tag, i), 'kind': 'restart', 'dim': n, 'range': list(r.choice(RANGES)), 'strategy': dict(s),
             'seed': seed(r), 'variant': r.choice(VARIANTS), 'obj': {'base': 'hash'}, 'max_gens_run': 1,
             'defaults': {'pop': 2 if s['t'] == 'bipop' else r.choice([2, 5])}, 'vals': False, 'digest': True, 'alone': False}
        if s['t'] == 'bipop':
            c['dim'] = 1
        cs.append(c)
    # narrow ranges of the population: after an IPOP run with the factor, hundreds of local runs of one evaluation
    for i in range(max(3, count // 6)):
        # local runs end in their first generation by tol_x, IPOP runs by the limit on generations
        lo, hi = r.choice([('-5', '5'), ('0', '100'), ('-1', '1e3')])
        inc, lam, gens = r.choice([4, 5, 6, 8]), r.choice([10, 16, 20]), 60
        cs.append({'id': '%snarrow-%d' % (tag, i), 'kind': 'restart', 'dim': 1, 'range': [lo, hi],
                   'strategy': {'t': 'bipop', 'inc': inc, 'factor': '1e-6'}, 'seed': seed(r),
                   'variant': r.choice(VARIANTS), 'obj': {'base': 'hash'}, 'max_gens_run': gens,
                   'max_evals': (2 + 2 * inc) * gens * lam,
                   'defaults': {'pop': lam, 'tol_x': fs((float(hi) - float(lo)) * 1e-3)},
                   'vals': False, 'digest': True, 'alone': False})
    return cs


def restart_pair(kind, prop, a, b, pid, **rel):
    a, b = clone(a, id=pid + '-a'), clone(b, id=pid + '-b')
    for c in (a, b):
        c['vals'], c['alone'], c['digest'] = False, False, True
    seq = [c['variant'] in ('run', 'reuse') or c.get('threads') == 1 for c in (a, b)]
    rel.setdefault('ordered', all(c['variant'] in ('run', 'reuse') for c in (a, b)))
    rel.setdefault('counts', rel['ordered'])
    return {'id': pid, 'kind': kind, 'property': prop, 'rel': dict({'differ': False}, **rel), 'a': a, 'b': b}


def restart_pairs(r, count, tag, kinds):
    ps = []
    i = 0
    while len(ps) < count:
        i += 1
        kind = r.choice(kinds)
        c = restart_case(r, '')
        # the order of the sums is not determined
        c.pop('pupd', 0)
        d = clone(c)
        prop = 'C25'
        rel = {}
        stateful = c['obj']['base'] in STATEFUL or any(f[0].startswith('call') for f in c['obj'].get('faults', []))
        if kind in ('variant', 'printed and variant'):
            if stateful:
                continue
            d['variant'] = r.choice([v for v in VARIANTS if v != c['variant']])
            d['threads'] = r.choice([1, 2, 4])
            if r.random() < 0.3:
                d['obj']['delay'] = r.choice([50, 200])
        if kind in ('printed', 'printed and variant'):
            c['print'], d['print'] = False, True
            if r.random() < 0.3 and kind == 'printed':
                c.pop('print')
        elif kind in ('other seed', 'near seed'):
            d['seed'] = r.randrange(1 << 63) if kind == 'other seed' else c['seed'] ^ (1 << r.randrange(63))
            for x in (c, d):
                x['obj'] = {'base': 'hash'}
                x.pop('fun_target', 0)
                x['range'] = ['-5', '5']
                x.get('defaults', {}).pop('bounds', 0)
            rel = {'differ': True}
        elif kind == 'limits':
            prop = 'C20'
            c.pop('max_evals', 0), d.pop('max_evals', 0)
            if c['strategy']['t'] != 'local':
                c['strategy'] = d['strategy'] = {'t': c['strategy']['t'], 'inc': 1}
            c['max_gens_run'] = d['max_gens_run'] = r.choice([1, 3])
            d['max_evals'] = 10 ** 9
            if r.random() < 0.7:
                d['max_time'] = 10 ** 15
        elif kind == 'reversed':
            prop = 'C20'
            d['range'] = c['range'][::-1]
            c.pop('fields', 0), d.pop('fields', 0)
            if r.random() < 0.5:
                r.choice([c, d])['fields'] = True
        elif kind == 'overridden':
            prop = 'C24'
            d['defaults'] = dict(c.get('defaults', {}))
            n = c['dim']
            if 'defaults' not in c:
                c['defaults'] = {}
            for k, f in (('mean', lambda: [fs(r.choice([99, -7, 0.1]))] * n), ('mode', lambda: r.choice(['min', 'max'])),
                         ('pupd', lambda: True), ('seed', lambda: r.randrange(1 << 60)), ('max_evals', lambda: r.choice([0, 1, 50])),
                         ('max_gens', lambda: r.choice([0, 1, 3])), ('fun_target', lambda: fs(r.choice([-1e9, 1e9, 3]))),
                         ('sigma', lambda: fs(r.choice([0.3, 7, 1e-3])))):
                c['defaults'].pop(k, 0)
                if r.random() < 0.5:
                    d['defaults'][k] = f()
                else:
                    d['defaults'].pop(k, 0)
            # the default of tol_x depends on nothing but the step size of the run
        elif kind == 'explicit':
            # the documented values of unset options
            t = c['strategy']['t']
            prop = 'C23' if t == 'bipop' else 'C22'
            c['strategy'] = {'t': t}
            if t == 'local':
                c['strategy']['max_runs'] = 3
            d['strategy'] = dict(c['strategy'], **({'factor': '0.5'} if t == 'local' else {'inc': 2} if t == 'ipop' else
                                                   {'inc': 2, 'factor': '0.2'}))
            if t == 'bipop' and r.random() < 0.5:
                c['strategy']['default'] = True
            elif t == 'bipop':
                d['strategy'].pop(r.choice(['inc', 'factor']))
            if t != 'local' and 'max_evals' not in c:
                c['max_evals'] = d['max_evals'] = 900
        ps.append(restart_pair(kind, prop, c, d, '%s%d' % (tag, i), **rel))
    return ps
