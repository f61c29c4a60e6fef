from vf import flow, simlib
from fractions import Fraction

CFG = '''INIT Init
NEXT Next
CONSTANTS Depth = %d
 Fancy = %s
%s
CHECK_DEADLOCK FALSE
'''


def run(ctx):
    K = 8 if ctx.thorough else 1
    for fancy in ('FALSE', 'TRUE'):
        ctx.simulate('ExprMachine', CFG % (3, fancy, 'INVARIANT Laws'), num=400 * K, depth=3)
    jobs = []
    for i, (d, fancy, n) in enumerate([(1, 'FALSE', 30), (2, 'TRUE', 60), (3, 'FALSE', 40), (3, 'TRUE', 60)]):
        jobs += [dict(j, kind='lambdify') for j in ctx.generate('ExprMachine', CFG % (d, fancy, 'INVARIANT Emit'), n * K, 3, seed=ctx.seed * 11 + i)]
    for k, (dims, n) in enumerate([((2, 1, 1), 12), ((3, 2, 2), 6), ((1, 2, 1), 6), ((2, 2, 1), 6)]):
        scr = [s for s in simlib.models(ctx, dims, 3 * n * K, seed=k + 110) if simlib.cost(s['m']) < 3][:n * K]
        for i, s in enumerate(scr):
            if "'g'" not in str(s['m']['z']) + str(s['m']['M']):        # gradients are not arguments of an Evaluation
              jobs.append({'kind': 'evaluation', 'm': s['m'], 'sym': i % 2 == 0, 'vec': i % 3 != 2, 'seed': i,
                           'names': None if i % 2 == 0 else ['H', 'z', 'dxH', 'M', 'Mxx', 'Mxw', 'Myy', 'Jxw', 'Jwy', 'Rxx', 'o']})
            jobs.append({'kind': 'numeric', 'm': s['m'], 'sym': simlib.symbolic(1, s), 'cf': s['cf'], 'seed': i})

    def value(t):
        for it in t['it']:
            if it['kind'] == 'expr' and it['got'] and len(it['e']) > 1 and it['d'] == 1:
                it['got'][0][1][0] = str(Fraction(it['got'][0][1][0]) + Fraction(1, 1000))
                return t

    def shape(t):
        for it in t['it']:
            if it['kind'] == 'expr' and it['series'] and it['got']:
                it['got'], it['shape'][0] = it['got'][1:], it['shape'][0] - 1
                return t

    def order(t):
        for it in t['it']:
            if it['kind'] == 'expr' and it['series'] and len(it['got']) > 1:
                a, b = [[[round(float(Fraction(x)), 6) for x in r] for r in p] for p in it['got'][:2]]
                if a != b:
                    it['got'][0], it['got'][1] = it['got'][1], it['got'][0]
                    return t

    def oper(t):
        for it in t['it']:
            if it['kind'] == 'op' and it['got']:
                it['got'][0][0] = str(Fraction(it['got'][0][0]) + 1)
                return t
    ok = flow.replay(ctx, 'h_eval', jobs, 'EvalTrace', 'INIT TInit\nNEXT TNext\nCHECK_DEADLOCK FALSE\n',
                     [('value', value), ('shape', shape), ('order of a series', order), ('operation', oper)], job_timeout=120)
    kinds = {}
    for t in ok:
        for it in t['it']:
            k = it['kind'] if it['kind'] != 'expr' else 'expr/%s%s' % (t['kind'], '/series' if it['series'] else '')
            kinds[k] = kinds.get(k, 0) + 1
    ctx.cov['evaluations'] = kinds
    ctx.assumptions += ['expressions up to depth 3 (rational, exp, log, sin, cos, tanh, sqrt, abs, comparisons); functions of models up to 3 storages whose tree has fewer than 1500 nodes',
                        'numpy back end (theano is not installed)']
