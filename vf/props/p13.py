from vf import simlib
from vf.simlib import bump


def run(ctx):
    simlib.model(ctx)
    g = [x for x in simlib.GRADS if x[0] == 'discret']
    s = simlib.scripts(ctx, 1000 if ctx.thorough else 80, g, steps=8, seed=5)
    s += simlib.scripts(ctx, 200 if ctx.thorough else 12, [x for x in simlib.GRADS if x[0] != 'discret'], steps=5, seed=9)
    jobs = [dict(j, sym=simlib.symbolic(i, j), reader=True) for i, j in enumerate(s)]
    at = lambda k: bump(lambda t: (t['rec'][2], k, None))
    simlib.run(ctx, 'power', jobs, [('reported energy', at('E')), ('reported dissipation', at('pd')), ('reported source', at('ps')),
                                    ('reported variation', at('dtE')), ('reported difference', at('dEH')),
                                    ('dissipated power', bump(lambda t: (t['rec'][2], 'y', 0) if t['rec'][2]['y'] and t['rec'][2]['u'][0] != '0' else None))])
    ctx.assumptions += ['polynomial energies and laws, at most 4 storages, 3 dissipations, 2 ports; fs in {100, 1000, 48000}; 8 steps',
                        'tolerance: solver 1e-8 relative, and rounding of the energies times the sample rate']
