from vf import simlib
from vf.simlib import bump


def run(ctx):
    simlib.model(ctx)
    s = simlib.scripts(ctx, 1200 if ctx.thorough else 90, simlib.GRADS, steps=8, eps=.15)
    jobs = [dict(j, sym=simlib.symbolic(i, j), reader=False) for i, j in enumerate(s)]
    at = lambda k, i=0: bump(lambda t: (t['rec'][3], k, i) if t['rec'][3][k] else None)
    simlib.run(ctx, 'step', jobs, [('state', at('x')), ('gradient', at('g')), ('law', at('z')), ('dissipation variable', at('w')),
                                   ('output', at('y')), ('input', at('u'))])
    ctx.assumptions += ['polynomial energies and laws, at most 4 storages, 3 dissipations, 2 ports; fs in {100, 1000, 48000}; 8 steps',
                        'sources and initial values small enough for the implicit equations to be well posed']
