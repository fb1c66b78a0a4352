#!/usr/bin/env python3
"""Writes MANIFEST.json: python3 tools/manifest.py"""
import json, os, subprocess, sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'tools'))
from vf import checks

TRACE = ('traces recorded from the real code are validated by TLC against the TLA+ specification '
         '(%s)')
REPLAY = ' and behaviours it enumerates are replayed in the real code'
MODEL = '; TLC explores the specification exhaustively within small bounds'
NUM = '; the numeric operators are checked against their TLA+ definitions (MCFloat64)'
NOTES = {
 'C01': (TRACE % 'CMATrace/CMARun' + MODEL + REPLAY, 'Every recorded generation must have exactly the best individuals that CMARun derives from the logged evaluations. Bounded by the generated cases; trusts the logging objective function.'),
 'C02': (TRACE % 'CMATrace/CMARun' + MODEL + REPLAY, 'Reported counts, calls logged by the objective function and the model agree after every operation of every case.'),
 'C03': (TRACE % 'CMATrace/CMARun' + MODEL + REPLAY, 'Evaluation and generation limits are decided exactly; time limits only where the clock readings around a step decide them.'),
 'C04': (TRACE % 'CMATrace/CMARun' + MODEL + REPLAY, 'FunTarget, TolFun, TolFunHist, TolFunRel: exact equality of the set of reasons at every generation, also after the first termination.'),
 'C05': (TRACE % 'CMATrace/CMARun and LongTrace' + MODEL, 'TolStagnation: exact at every generation, windows of 0 to 52 generations; LongTrace samples runs of 24000 and 103000 generations, where the histories and the window are at their greatest length.'),
 'C06': (TRACE % 'CMATrace/CMADist', 'Three-valued: a criterion whose comparison rounding could decide is not judged. One recorded finding (NoEffectCoord).'),
 'C07': (TRACE % 'CMATrace/CMARun' + MODEL + REPLAY, 'NaN and infinities at all kinds of calls, sequential, parallel and in whole runs, and going on afterwards.'),
 'C08': (TRACE % 'CMATrace/CMADist' + NUM, 'Mean and step size of every generation against the equations of the tutorial in binary64, with tracked error bounds for the unobservable evolution path.'),
 'C09': (TRACE % 'CMATrace/CMADist' + NUM, 'Covariance matrix of every generation against the equations of the tutorial; decompositions (observed through the hooks) reproduce the matrix to 1e-10.'),
 'C10': (TRACE % 'OptTrace/CMAParams' + MODEL, 'Every reported strategy parameter against the formulas of the tutorial in binary64 (1e-9), over thousands of dimensions, population sizes and weight settings.'),
 'C11': (TRACE % 'SampLaw/SampPool', 'A statistical decision: the points of long runs, whitened with the observed distribution, against the standard normal law (moments, dependence across coordinates, individuals and generations, histogram, tails) with limits at 7 or more standard deviations; biases of a few percent, or rare ones below them, are not seen in the quick tier.'),
 'C12': (TRACE % 'SampTrace/Sampling' + MODEL + '; every behaviour of the model is replayed in the real code', 'Every call of the constraints and of the objective function of every generation. Exhaustive for populations up to 5 with up to 3 constrained rounds, generated beyond that.'),
 'C13': (TRACE % 'Pairs', 'Pairs of runs compared bitwise at every operation: repetition, whole runs against steps, with and without observers, random seeds against the seed they report.'),
 'C14': (TRACE % 'Pairs, CMATrace/CMADist', 'Sequential against parallel evaluation, bitwise, with 1 to 8 threads and random delays; thread schedules are sampled, not enumerated.'),
 'C15': (TRACE % 'Pairs' + MODEL, 'Pairs of runs: modes, strictly increasing transformations, powers of two; bitwise.'),
 'C16': (TRACE % 'OptTrace/Options' + '; TLC enumerates sequences of option calls that are replayed in the real code', 'All single calls and pairs of calls over representative values, and random longer sequences, by methods and by fields.'),
 'C17': (TRACE % 'CMATrace/CMARun' + MODEL + REPLAY, 'Lengths at every operation and contents of the recorded points (from the Debug output) against the model.'),
 'C18': (TRACE % 'CMATrace/CMARun' + MODEL + REPLAY, 'Every printed line is parsed and compared with the true state; lines that are missing or not due are violations.'),
 'C19': (TRACE % 'Pairs/Wrappers' + MODEL, 'Pairs of runs with every combination of wrapper, bitwise; fmin/fmax conveniences against the outcome of the plain run.'),
 'C20': (TRACE % 'RestartTrace/Restart' + MODEL + ' and its behaviours are replayed in the real code', 'Every run of every generated restarter, observed through the hooks; time limits only where the clock readings decide them.'),
 'C21': (TRACE % 'RestartTrace/Restart' + MODEL + ' and its behaviours are replayed in the real code', 'All function values of the runs (up to 5000 per run) against the individuals of the runs and of the restarter.'),
 'C22': (TRACE % 'RestartTrace/Restart' + MODEL, 'Population sizes, step sizes and numbers of runs of every restarter, also with step sizes that round to zero or infinity.'),
 'C23': (TRACE % 'RestartTrace/Restart' + MODEL + ' (all ten IPOP runs)', 'The choice of the regime, population, step size and limit of every run; that the random ones come from all of their range only statistically (chance of a false alarm below 1e-10).'),
 'C24': (TRACE % 'RestartTrace/Restart', 'Every run of most restarters is repeated outside of the restarter with the reported parameters, and compared bitwise.'),
 'C25': (TRACE % 'RestartPairs, RestartTrace', 'Pairs of restarters compared run by run (digests of all evaluations) and by their results; printed reports parsed and compared with the true runs.'),
}
NA = {}


def main():
    props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
    log = subprocess.check_output(['git', '-C', '/repo', 'log', '--format=%H %s'], text=True)
    hooks = [l.split()[0] for l in log.split('\n') if 'cfg(cmaes_verif)' in l and not l.split(' ', 1)[1].startswith('fix')]
    m = {'version': 1, 'setup_cmd': './check setup',
         'hooks': {'guard': 'cfg(cmaes_verif)', 'enable': 'RUSTFLAGS="--cfg cmaes_verif"', 'source_commits': hooks},
         'checks': [], 'not_applicable': []}
    for p in props:
        i = p['id']
        if i in checks.CHECKS:
            t, note = NOTES[i]
            m['checks'].append({'property': i, 'quick_cmd': './check ' + i,
                                'thorough_cmd': './check %s --tier thorough' % i,
                                'evidence_file': 'evidence/%s.json' % i,
                                'technique': t, 'level': 'model_checking', 'level_note': note})
        else:
            m['not_applicable'].append({'property': i, 'reason': NA.get(i, 'check not built yet')})
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
