from vf import corelib

KINDS = ['addx', 'addw', 'addy', 'addy', 'addy', 'set', 'set', 'set', 'set', 'set', 'addcon', 'addcon', 'movec',
         'movey', 'connect', 'connect']


def run(ctx):
    corelib.check(ctx, KINDS, ['A'], model_kinds=['addx', 'addy', 'set', 'addcon', 'connect'],
                  num=400 if not ctx.thorough else 4000, depth=16, maxdim=8, model_depth=5, model_fills='{2}',
                  model_dim=5, need='connect')
