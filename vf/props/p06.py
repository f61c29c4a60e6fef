from vf import corelib

KINDS = ['addx', 'addw', 'addy', 'set', 'set', 'copy', 'copy', 'saveload', 'saveload', 'addcon', 'connect', 'setsub', 'setsub',
         'addparam', 'addobs', 'force', 'movex', 'movew', 'movey', 'movec']


def run(ctx):
    corelib.check(ctx, KINDS, ['A', 'B', 'C'], model_kinds=['addx', 'addy', 'set', 'addcon', 'copy'],
                  model_regs=['A', 'B'], model_fills='{2}', model_depth=4,
                  num=200 if not ctx.thorough else 2000, depth=16, maxdim=7, need='copy')
