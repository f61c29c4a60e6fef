from vf import netlib
from vf.base import corrupt_selftest


def run(ctx):
    netlib.model(ctx)
    nets = netlib.networks(ctx)
    jobs = []
    for i, g in enumerate(nets):
        b = {'net': g['net'], 'style': ['graph', 'netlist', 'file'][i % 3]}
        if i % 5 == 0:
            b['merge'] = True
        jobs.append({'net': g['net'], 'bl': g['bl'], 'builds': [b]})
    c, good, _ = netlib.run(ctx, 'laws', jobs)

    def flip(t):
        r = t['builds'][0]['recs'][0]
        n = len(r['M'])
        for i in range(n):
            for j in range(i):
                if r['M'][i][j] == '1' and r['M'][j][i] == '-1':
                    r['M'][i][j], r['M'][j][i] = '-1', '1'
                    return t

    def law(t):
        r = t['builds'][0]['recs'][0]
        for i, k in enumerate(r['x']):
            if k > 0:
                r['Q'][i][i] = '77/3'
                return t
    if not ctx.violations:
        corrupt_selftest(ctx, 'NetTrace', c, good, [('orientation', flip), ('law', law)])
    ctx.assumptions += ['networks of at most 8 components on at most 5 nodes, generic rational values',
                        'networks the analysis refuses are not judged here (see P09)']
