from vf import simlib, flow
from vf.simlib import bump
from vf.props import p14
from fractions import Fraction


def laws(ctx, n):
    """models whose laws are random expressions"""
    js = []
    for d, fancy in ((2, 'TRUE'), (3, 'TRUE'), (3, 'FALSE')):
        js += ctx.generate('ExprMachine', p14.CFG % (d, fancy, 'INVARIANT Emit'), 3 * n, 3, seed=ctx.seed * 5 + d + len(fancy))
    es = [t for j in js for r in j['e'] for t in r if t['k'] not in ('num', 'sym')]
    out = []
    for i in range(n):
        j = js[i * 7 % len(js)]
        k = len(j['args'])
        out.append({'args': j['args'], 'subs': j['subs'], 'vals': j['vals'], 'pts': j['pts'] + js[(i * 11 + 3) % len(js)]['pts'],
                    'e': [es[(i * 5 + m) % len(es)] for m in range(k)], 'lang': 'c++', 'late': i % 3 == 1, 'fs': [1000, 48000, 44100][i % 3],
                    'split': i % 2 == 0, 'label': ['mod', 'Mod', 'MODEL_A'][i % 3]})
    return out


def solver(ctx, n):
    """the settings of the iterative solver: both languages stop their iterations together"""
    js = [j for j in simlib.scripts(ctx, 8 * n, simlib.GRADS, steps=6, seed=171) if nonlinear(j['m'])]
    js = sorted(js, key=lambda j: Fraction(j['cf']['fs']))[:n]                 # large steps need more iterations
    opts = [{'maxit': '1'}, {'maxit': '2'}, {'maxit': '3'}, {'eps': '1/100'}, {'maxit': '2', 'eps': '1/1000'}, {'maxit': '40'}]
    jobs = [dict(j, sym=False, pair=True, solver=opts[i % len(opts)]) for i, j in enumerate(js)]

    def value(t):
        r = t['b'][0]
        k = next((k for k in ('x', 'w', 'y') if r[k]), None)
        if k:
            r[k][0] = str(Fraction(r[k][0]) + Fraction(1, 1000) * (1 + abs(Fraction(r[k][0]))))
            return t
    ok = flow.replay(ctx, 'h_sim', jobs, 'PairTrace', 'INIT TInit\nNEXT TNext\nCHECK_DEADLOCK FALSE\n', [('value', value)], job_timeout=200)
    ctx.cov['solver_settings_compared'] = len(ok)


def nonlinear(m):
    return any(len(t['m']) > 2 for t in m['H']) or any(len(t['m']) > 1 for z in m['z'] for t in z)


def run(ctx):
    simlib.model(ctx)
    s = simlib.scripts(ctx, 400 if ctx.thorough else 50, simlib.GRADS, steps=8, seed=170, eps=.1)
    jobs = [dict(j, sym=simlib.symbolic(i, j), reader=False, lang='c++') for i, j in enumerate(s)]
    at = lambda k, i=0: bump(lambda t: (t['rec'][3], k, i) if t['rec'][3][k] else None)
    simlib.run(ctx, 'step', jobs, [('state', at('x')), ('gradient', at('g')), ('law', at('z')), ('dissipation variable', at('w')),
                                   ('output', at('y')), ('input', at('u'))])

    def value(t):
        it = t['it'][0]
        it['got'][1][0][0] = str(Fraction(it['got'][1][0][0]) + Fraction(1, 1000) * (1 + abs(Fraction(it['got'][1][0][0]))))
        return t
    flow.replay(ctx, 'h_cpp', laws(ctx, 300 if ctx.thorough else 36), 'EvalTrace', 'INIT TInit\nNEXT TNext\nCHECK_DEADLOCK FALSE\n',
                [('value', value)], job_timeout=200)
    solver(ctx, 120 if ctx.thorough else 14)
    ctx.assumptions += ['g++ without optimization, Eigen and HDF5 of the sandbox',
                        'polynomial energies and laws, at most 4 storages, 3 dissipations, 2 ports; 8 steps; and laws with elementary functions up to depth 3']
