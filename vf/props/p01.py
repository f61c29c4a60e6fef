from vf import corelib

KINDS = ['addx', 'addw', 'addy', 'set', 'set', 'set', 'set', 'movex', 'movew', 'movey', 'movec', 'addcon', 'copy']


def run(ctx):
    corelib.check(ctx, KINDS, ['A', 'B'],
                  model_kinds=['addx', 'addw', 'addy', 'set', 'movex', 'addcon'],
                  num=150 if not ctx.thorough else 1500, depth=14,
                  profiles=[(['addx', 'set', 'set', 'movex', 'addy'], ['A'], 60, 10),
                            (['addw', 'set', 'set', 'movew', 'addx'], ['A'], 60, 10),
                            (['addy', 'set', 'movey', 'addx', 'addw'], ['A'], 60, 10),
                            (['addy', 'addy', 'set', 'addcon', 'addcon', 'movec', 'movec', 'movec', 'addx'], ['A'], 140, 14)])
