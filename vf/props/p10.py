import random
from vf import netlib
from vf.base import corrupt_selftest


def variants(net, rng):
    """equivalent descriptions of the same network"""
    perm = list(net)
    rng.shuffle(perm)
    nodes = sorted({n for c in net for n in c['n']} - {0})
    names = ['zz', 'A', '1n', 'mid', 'Out', 'b2'][:len(nodes)]
    rng.shuffle(names)
    ren = dict(zip(map(str, nodes), names))
    flip = [dict(c, n=c['n'][::-1]) if c['t'] in 'RCL' and rng.random() < .6 else c for c in net]
    both = list(flip)
    rng.shuffle(both)
    cut = rng.randint(1, len(net) - 1)
    return [{'net': net, 'style': 'graph', 'times': 2},
            {'net': perm, 'style': 'netlist', 'times': 2},
            {'net': net, 'style': 'file', 'names': ren},
            {'net': flip, 'style': 'graph'},
            {'net': both, 'style': 'parts', 'cut': cut, 'names': ren},
            {'net': perm, 'style': 'merged', 'cut': cut},
            {'net': net, 'style': 'graph', 'merge': True}]


def run(ctx):
    netlib.model(ctx)
    rng = random.Random(ctx.seed)
    jobs = [{'net': g['net'], 'bl': g['bl'], 'builds': variants(g['net'], rng)}
            for g in netlib.networks(ctx, .35) if any(c['t'] in 'VI' for c in g['net'])]
    c, good, _ = netlib.run(ctx, 'same', jobs)

    def other(t):
        for b in t['builds'][1:]:
            for r in b['recs']:
                if r['st'] == 'core' and r['x']:
                    r['M'] = [[v if i != j else '5' for j, v in enumerate(row)] for i, row in enumerate(r['M'])]
                    return t
    if not ctx.violations:
        corrupt_selftest(ctx, 'NetTrace', c, good, [('response', other)])
    ctx.assumptions += ['equivalent descriptions are compared through their responses at two values of the Laplace variable']
