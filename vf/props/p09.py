from vf import netlib
from vf.base import corrupt_selftest


def run(ctx):
    netlib.model(ctx)
    nets = netlib.networks(ctx, 1.6)
    jobs = [{'net': g['net'], 'bl': g['bl'], 'builds': [{'net': g['net'], 'style': 'graph'}]} for g in nets]
    c, good, traces = netlib.run(ctx, 'accept', jobs)

    def refuse(t):
        t['net'] = t['builds'][0]['net'] = [
            {'id': 1, 't': 'V', 'n': [0, 1], 'v': '1'}, {'id': 2, 't': 'R', 'n': [1, 2], 'v': '2'},
            {'id': 3, 't': 'C', 'n': [2, 0], 'v': '3'}]
        t['builds'][0]['recs'] = [{'st': 'err', 'exc': 'x'}]
        return t
    if not ctx.violations:
        corrupt_selftest(ctx, 'NetTrace', c, good, [('refused', refuse)])
    ctx.assumptions += ['networks of at most 8 components on at most 5 nodes',
                        'an analysis is said not to end after 40 s (the slowest ends within a second)']
