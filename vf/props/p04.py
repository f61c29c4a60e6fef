from vf import corelib

KINDS = ['addx', 'addx', 'addw', 'addw', 'addy', 'set', 'set', 'set', 'set', 'movex', 'movew', 'force', 'split', 'mono', 'reduce', 'copy']


def run(ctx):
    corelib.check(ctx, KINDS, ['A', 'B'], model_kinds=['addx', 'addw', 'set', 'force', 'split', 'reduce'],
                  explore='ReduceExplore', trace='ReduceTrace', init='RInit', lin=True,
                  invs='TypeOK Decomposition ReduceSound ClassSound Idempotent',
                  model_fills='{2, 3}', model_depth=4, model_dim=4,
                  num=220 if not ctx.thorough else 2500, depth=16, maxdim=9)
