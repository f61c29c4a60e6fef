from vf import flow
from fractions import Fraction

CFG = '''INIT Init
NEXT Next
CONSTANTS Only2 = %s
%s
CHECK_DEADLOCK FALSE
'''
INV = 'INVARIANTS GradientInv PassiveInv InverseInv'


def coefficient(t):
    """the last source is coupled twice as much"""
    t['M'] = [[str(Fraction(v) * (2 if len(t['M']) - 1 in (i, j) else 1)) for j, v in enumerate(r)] for i, r in enumerate(t['M'])]
    return t


def fractional(ctx, n):
    fc = 'INIT Init\nNEXT Next\nINVARIANT %s\nCHECK_DEADLOCK FALSE\n'
    ctx.simulate('FractionalMachine', fc % 'Undo', num=200, depth=2)
    jobs = ctx.generate('FractionalMachine', fc % 'Emit', n, 2, seed=ctx.seed * 5 + 3)
    ok = flow.replay(ctx, 'h_frac', jobs, 'FractionalTrace', 'INIT TInit\nNEXT TNext\nCHECK_DEADLOCK FALSE\n', [('coefficient', coefficient)], job_timeout=120)
    ctx.cov['fractional'] = {k: sum(t['job']['c']['c'] == k for t in ok) for k in ('Fracintec', 'Fracintfc', 'Fracderec', 'Fracderfc')}


def beams(ctx, n):
    fc = 'INIT Init\nNEXT Next\nINVARIANT%s\nCHECK_DEADLOCK FALSE\n'
    ctx.simulate('BeamsMachine', fc % 'S Modes Mobility', num=60, depth=2)
    jobs = ctx.generate('BeamsMachine', fc % ' Emit', n, 2, seed=ctx.seed * 5 + 4)
    ok = flow.replay(ctx, 'h_beam', jobs, 'BeamsTrace', 'INIT TInit\nNEXT TNext\nCHECK_DEADLOCK FALSE\n', [('coefficient', coefficient)], job_timeout=150)
    ctx.cov['beams'] = len(ok)


def run(ctx):
    K = 10 if ctx.thorough else 1
    ctx.simulate('ComponentsMachine', CFG % ('FALSE', INV), num=2500 * K, depth=2)
    jobs = ctx.generate('ComponentsMachine', CFG % ('FALSE', 'INVARIANT Emit'), 700 * K, 2, seed=ctx.seed * 5 + 1)
    jobs += ctx.generate('ComponentsMachine', CFG % ('TRUE', 'INVARIANT Emit'), 120 * K, 2, seed=ctx.seed * 5 + 2)

    def at(t, what):
        if any(c['c'] in ('Diode', 'Bjt', 'Triode') for c in t['job']['cs']):     # laws undefined at some points
            return
        for p in t['obs']['pts']:
            for k, v in p[what].items():
                if abs(float(Fraction(v or 0))) > 1e-6:
                    p[what][k] = str(Fraction(v) * Fraction(101, 100))
                    return t

    def energy(t):
        for p in t['obs']['pts']:
            if Fraction(p['H'] or 0):
                p['H'] = str(Fraction(p['H']) * 2)
                return t

    def node(t):
        e = t['obs']['edges'][0]
        if e['a'] != e['b']:
            e['a'], e['b'] = e['b'], e['a']
            return t

    def ctrl(t):
        t['obs']['edges'][0]['ct'] = 'x'
        return t
    ok = flow.replay(ctx, 'h_comp', jobs, 'ComponentsTrace', 'INIT TInit\nNEXT TNext\nCHECK_DEADLOCK FALSE\n',
                     [('energy', energy), ('gradient', lambda t: at(t, 'g')), ('law', lambda t: at(t, 'z')), ('orientation', node), ('control', ctrl)])
    kinds = {}
    for t in ok:
        for c in t['job']['cs']:
            kinds['%s.%s' % (c['d'], c['c'])] = kinds.get('%s.%s' % (c['d'], c['c']), 0) + 1
    ctx.cov['components'] = kinds
    fractional(ctx, 16 * K)
    beams(ctx, 10 * K)
    ctx.assumptions += ['the parameter H0 of Pickup, which the code ignores, is not covered; transfer functions of fractional components and beams at real values of the Laplace variable']
