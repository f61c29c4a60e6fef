from vf import flow

CFG = '''INIT Init
NEXT Next2
CONSTANTS Depth = %d
 Fancy = %s
%s
CHECK_DEADLOCK FALSE
'''


def run(ctx):
    K = 10 if ctx.thorough else 1
    for fancy in ('FALSE', 'TRUE'):
        ctx.simulate('CalculusMachine', CFG % (2, fancy, 'INVARIANT Derivatives'), num=150 * K, depth=3)
    jobs = []
    for i, (d, fancy, n) in enumerate([(1, 'FALSE', 120), (2, 'FALSE', 60), (1, 'TRUE', 80), (2, 'TRUE', 100)] + ([(3, 'TRUE', 60)] if ctx.thorough else [])):
        jobs += ctx.generate('CalculusMachine', CFG % (d, fancy, 'INVARIANT Emit2'), n * K, 3, seed=ctx.seed * 17 + i)

    def bump(kind):
        def f(t):
            for it in t['it']:
                if it['kind'] == kind and it['got'] and it['got'][0]:
                    it['got'][0][0] = {'k': 'add', 'v': '', 'a': [it['got'][0][0], {'k': 'num', 'v': '1/1000', 'a': []}]}
                    return t
        return f

    def turned(t):
        for it in t['it']:
            if it['kind'] == 'jacobian' and len(it['got']) > 1 and len(it['got'][0]) != len(it['got']):
                it['got'] = [list(r) for r in zip(*it['got'])]
                return t

    def forgotten(t):
        for it in t['it']:
            if it['kind'] == 'free' and it['names']:
                it['names'].append('q')
                return t
    ok = flow.replay(ctx, 'h_calc', jobs, 'CalculusTrace', 'INIT TInit\nNEXT TNext\nCHECK_DEADLOCK FALSE\n',
                     [('jacobian transposed', turned), ('symbol', forgotten)] + [(k, bump(k)) for k in ('gradient', 'hessian', 'inverse', 'output', 'pd', 'a')],
                     job_timeout=60)
    kinds = {}
    for t in ok:
        for it in t['it']:
            kinds[it['kind']] = kinds.get(it['kind'], 0) + 1
    ctx.cov['results'] = kinds
    ctx.assumptions += ['expressions up to depth 2 (rational, exp, log, sin, cos, tanh, sqrt, piecewise) in five symbols; matrices up to 3x3; models up to 3 storages, 2 dissipations, 2 ports',
                        'no absolute values (their derivative is not an elementary expression)']
