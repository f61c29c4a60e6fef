from vf import corelib

KINDS = ['addx', 'addw', 'addy', 'set', 'set', 'concat', 'concat', 'concat', 'addcon', 'connect', 'setsub', 'addparam',
         'addobs', 'force', 'movex', 'movew', 'movey']


def run(ctx):
    corelib.check(ctx, KINDS, ['A', 'B', 'C'], model_kinds=['addx', 'addy', 'set', 'addcon', 'concat'],
                  model_regs=['A', 'B', 'C'], model_fills='{2}', model_depth=4,
                  num=240 if not ctx.thorough else 2500, depth=16, maxdim=12, need='concat')
