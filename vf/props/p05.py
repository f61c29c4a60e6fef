from vf import flow

CFG = '''INIT %(init)s
NEXT %(next)s
CONSTANTS Reg = {%(regs)s}
 NP = 6
 Fills = {%(fills)s}
 Depth = %(depth)d
 Pick <- %(pick)s
%(more)s
CHECK_DEADLOCK FALSE
'''


def cfg(init, nxt, regs, fills, depth, pick, more=''):
    return CFG % dict(init=init, next=nxt, regs=', '.join('"%s"' % r for r in regs),
                      fills=', '.join(map(str, fills)), depth=depth, pick=pick, more=more)


def run(ctx):
    # exhaustive over all choices is out of reach (thousands of expressions per step): the
    # expression choices are sampled, operations, registers and models are all explored
    ctx.simulate('ParamMachine', cfg('PInit', 'PNext', 'A', range(1, 61), 10, 'PickOne',
                                     'INVARIANTS PTypeOK Acyclic Positive Closed\nPROPERTY Sound'),
                 num=350 if not ctx.thorough else 20000, depth=11)
    depth = 9
    scripts = ctx.generate('ParamMachine', cfg('PInit', 'PNext', 'AB', range(1, 61), depth, 'PickOne', 'INVARIANT Emit'),
                           260 if not ctx.thorough else 3000, depth + 1)
    jobs = [{'regs': ['A', 'B'], 'ev': s} for s in scripts]

    def bad_H(t):
        t['obs'][-1]['reg']['A']['H'] = '987/13'
        return t

    def bad_dict(t):
        t['obs'][-1]['reg']['B']['dict'].append(6 if 6 not in t['obs'][-1]['reg']['B']['dict'] else 99)
        return t

    def bad_mut(t):
        t['obs'][-1]['mutated'] = True
        return t
    flow.replay(ctx, 'h_param', jobs, 'ParamTrace', cfg('TInit', 'TNext', 'AB', [1], 1, 'PickAll'),
                corruptions=[('H', bad_H), ('dict', bad_dict), ('mutated', bad_mut)])
    ctx.assumptions += ['entries are sums of monomials and inverse monomials of 6 parameters; values compared within 1e-9',
                        'after parameters were replaced by their inverses, the replaced parameters are not redefined']
