from vf import flow, simlib
from fractions import Fraction

CFG = '''INIT Init
NEXT Next
%s
CHECK_DEADLOCK FALSE
'''


def run(ctx):
    K = 10 if ctx.thorough else 1
    ctx.simulate('SignalsMachine', CFG % 'INVARIANTS Bounded Periodic Silent RoundTrip', num=1500 * K, depth=2)
    jobs = ctx.generate('SignalsMachine', CFG % 'INVARIANT Emit', 500 * K, 2, seed=ctx.seed * 3 + 1)
    jobs = [dict(j, kind='all') for j in jobs]
    ms = [s['m'] for s in simlib.models(ctx, (2, 1, 2), 40, seed=181) if simlib.cost(s['m']) < 2][:6 * K]
    for i, m in enumerate(ms):
        ws = [{'var': v, 'i': k, 'gain': g, 'norm': n, 'fade': f} for v, k, g, n, f in
              (('y', 0, '1', 'max', '0'), ('u', 1, '1/2', '1', '0'), ('x', 1, '2', 'max', '1/1000'), ('u', 0, '1', '3/2', '1/2000'))]
        jobs.append({'kind': 'data', 'm': m, 'fs': 8000, 'nt': 40, 'seed': i, 'ws': ws})

    def sample(t):
        it = t['it'][0]
        if len(it['got']) > 3 and it['kind'] == 'synth' and it['s']['noise'] == '0' and it['s']['which'] != 'noise':
            it['got'][2] = str(Fraction(it['got'][2]) + Fraction(1, 1000))
            return t

    def size(t):
        if t['it'][0]['kind'] == 'synth':
            t['it'][0]['got'].pop()
            return t

    def wav(t):
        it = t['it'][-1]
        it['got'][0] = str(Fraction(it['got'][0]) + Fraction(1, 1000))
        return t

    def rate(t):
        t['it'][-1]['rate'] += 1
        return t
    flow.replay(ctx, 'h_signal', jobs, 'SignalsTrace', 'INIT TInit\nNEXT TNext\nCHECK_DEADLOCK FALSE\n',
                [('sample', sample), ('size', size), ('wav', wav), ('rate', rate)])
    ctx.cov['signals'] = len(jobs)
    ctx.assumptions += ['random signals are only checked to be random and within their amplitude', 'resampling is checked on band-limited tones; the low-pass filter is not covered',
                        'durations are given by floats whose product with the sample rate does not fall below the intended number of samples']
