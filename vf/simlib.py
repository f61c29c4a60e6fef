"""Checks over simulations (P12, P13)."""
import random
from vf.base import CheckError, corrupt_selftest

CFG = '''INIT SInit
NEXT %(next)s
CONSTANTS Pick <- %(pick)s
 Linear = %(lin)s
 Dims <- DimsC
 Configs <- ConfigsC
 Len0 = %(n)d
 Rest = %(rest)d
%(more)s
CHECK_DEADLOCK FALSE
'''


def wrap(dims, configs):
    d = ', '.join('<<%d, %d, %d>>' % t for t in dims)
    c = ', '.join('[grad |-> "%s", theta |-> "%s", split |-> %s, fs |-> "%s"%s]' % (
        c[0], c[1], str(c[2]).upper(), c[3], ', epsdg |-> "%s"' % c[4] if len(c) > 4 else '') for c in configs)
    return {'W.tla': '---- MODULE W ----\nEXTENDS SchemeMachine\nDimsC == {%s}\nConfigsC == {%s}\n====\n' % (d, c)}


def cfg(nxt, pick, lin, n, more, rest=0):
    return CFG % dict(next=nxt, pick=pick, lin=str(lin).upper(), n=n, more=more, rest=rest)


GRADS = [('discret', '0'), ('discret', '1/2'), ('discret', '1'), ('theta', '0'), ('theta', '1/2'), ('theta', '1'),
         ('theta', '1/4'), ('trapez', '0')]
FS = ['100', '1000', '48000']
LINV = 'INVARIANTS Solves Balance Passive'


def model(ctx):
    """the scheme itself: all small linear models exactly, the discrete gradient on random energies"""
    few = [('discret', '0', False, '2'), ('theta', '1/2', False, '3'), ('trapez', '0', False, '1')]
    ctx.model('W', cfg('RunNext', 'PickAll', True, 1, LINV), files=wrap([(1, 1, 1)] if ctx.thorough else [(1, 1, 0), (1, 0, 1)], few))
    ctx.simulate('W', cfg('RunNext', 'PickOne', True, 4, LINV + ' DiscreteGradient'), num=40 if not ctx.thorough else 6000, depth=45,
                 files=wrap([(1, 1, 1), (2, 1, 1), (2, 2, 1), (3, 1, 1)], few + [('theta', '1', False, '5'), ('theta', '0', False, '7')]))
    ctx.simulate('W', cfg('Build', 'PickOne', False, 0, 'INVARIANT DiscreteGradient'), num=300 if not ctx.thorough else 10000, depth=8,
                 files=wrap([(2, 0, 0), (3, 0, 0), (4, 0, 0)], few))


def scripts(ctx, n, grads, steps=10, seed=0, eps=0):
    out = []
    for split in (False, True):
        confs = [(g, t, split, f) for g, t in grads for f in FS]
        for dims, share in (([(2, 1, 1), (3, 1, 1), (2, 2, 1), (2, 1, 2)], .5), ([(1, 1, 1), (1, 2, 1), (2, 0, 1), (0, 1, 1), (2, 1, 0)], .3),
                            ([(4, 2, 1), (3, 3, 2), (4, 1, 0), (3, 2, 1)], .2)):
            out += ctx.generate('W', cfg('GenNext', 'PickOne', False, steps, 'INVARIANT Emit'), max(1, int(n * share / 2)), 120,
                                files=wrap(dims, confs), seed=ctx.seed * 17 + 3 * int(split) + len(dims) + seed)
        # simulations which start at rest, and other thresholds of the discrete gradient
        for dims, confs, rest in (([(2, 1, 1), (1, 1, 1), (3, 1, 1)], confs, 5),
                                  ([(2, 1, 1), (1, 1, 1), (3, 1, 1)], [(g, t, split, f, e) for g, t in grads if g == 'discret'
                                                           for f in FS for e in ('1/10', '1/1000000000') if f != '100' or e != '1/10'], 0)):
            if confs and (rest or eps):
                out += ctx.generate('W', cfg('GenNext', 'PickOne', False, steps, 'INVARIANT Emit', rest), max(1, int(n * (.06 if rest else eps) / 2)), 120,
                                    files=wrap(dims, confs), seed=ctx.seed * 19 + 5 * int(split) + rest + seed)
    random.Random(ctx.seed).shuffle(out)
    return [j for j in out if j['cf']['grad'] != 'discret' or cost(j['m']) < 4]


def cost(m):
    """the number of storages coupled by the energy (symbolic expressions of the code grow quickly with it)"""
    n = set()
    for t in m['H']:
        v = {x[1] for x in t['m']}
        if len(v) > 1:
            n |= v
    return len(n)


def symbolic(i, j):
    """constants as symbols with numerical values, for the models which can afford it"""
    m = j['m']
    small = m['nx'] + m['nw'] <= 2 or (cost(m) == 0 and m['nx'] <= 2 and 'g' not in str(m['z']))
    return small or (i % 3 == 0 and j['cf']['grad'] == 'theta' and m['nx'] <= 2)


def trace_cfg(mode):
    return 'INIT TInit\nNEXT TNext\nCONSTANTS Mode = "%s"\nCHECK_DEADLOCK FALSE\n' % mode


def bump(f):
    """a corruption which changes one recorded number, f(trace) -> (dict, key, index)"""
    from fractions import Fraction

    def g(t):
        r = f(t)
        if not r:
            return None
        d, k, i = r
        v = d[k] if i is None else d[k][i]
        n = str(Fraction(v) + Fraction(1, 1000) * (1 + abs(Fraction(v))))
        if i is None:
            d[k] = n
        else:
            d[k][i] = n
        return t
    return g


def run(ctx, mode, jobs, corruptions):
    res = ctx.harness('h_sim', jobs, job_timeout=90, total=3000 if ctx.thorough else 400, partial=True, hangs=0)
    traces, stat, late = [], {}, 0
    for j, r in zip(jobs, res):
        if r.get('harness') in ('hang', 'late') and r.get('phase') != 'process':          # building the expressions takes too long: not judged
            late += 1
        elif 'harness' in r:
            ctx.violation('the simulation did not end: %s' % str(r)[:300], {'job': j, 'result': r})
        else:
            traces.append(r)
            c = j['cf']
            k = '%s theta=%s split=%s' % (c['grad'], c['theta'], c['split'])
            stat[k] = stat.get(k, 0) + 1
    ctx.cov['not_built_in_time'] = late
    if late > len(jobs) // 2:
        raise CheckError('%d simulations of %d did not end' % (late, len(jobs)))
    v = ctx.validate('SchemeTrace', trace_cfg(mode), traces, timeout=1500)
    for t, x in zip(traces, v):
        if x:
            n = int(x[1])
            ctx.violation('%s at step %d: %s, energy %s, laws %s, configuration %s %s' % (
                x[0], n + 1, (t['m']['nx'], t['m']['nw'], t['m']['ny']), show(t['m']['H']), [show(z) for z in t['m']['z']],
                t['cf'], t['exc']), {'trace': t, 'clause': x[0], 'step': n})
    ctx.cov['simulations'] = len(traces)
    ctx.cov['time_steps'] = sum(len(t['rec']) for t in traces)
    ctx.cov['configurations'] = stat
    ctx.sample([{'H': show(t['m']['H']), 'z': [show(z) for z in t['m']['z']], 'cf': t['cf']} for t in traces[:4]])
    good = [t for t, x in zip(traces, v) if not x]
    if not good:
        if not ctx.violations:
            raise CheckError('no simulation')
    elif not ctx.violations:
        corrupt_selftest(ctx, 'SchemeTrace', trace_cfg(mode), good, corruptions)


def show(p):
    return ' + '.join('*'.join([t['c']] + ['%s%d' % tuple(v) for v in t['m']]) for t in p)


def models(ctx, dims, n, seed, steps=4, fs=('100', '1000')):
    """random small models with quick settings"""
    confs = [('theta', '1/2', s, f) for s in (True, False) for f in fs] + [('discret', '0', True, f) for f in fs]
    return ctx.generate('W', cfg('GenNext', 'PickOne', False, steps, 'INVARIANT Emit'), n, 120, files=wrap([dims], confs), seed=ctx.seed * 13 + seed)
