from vf import flow

CFG = '''INIT Init
NEXT Next
CONSTANTS Pick <- %(pick)s
 Files = %(f)d
 MaxNets = %(k)d
 MaxOps = %(n)d
 Small = %(small)s
%(more)s
CHECK_DEADLOCK FALSE
'''
INV = 'INVARIANTS RoundTrip Sums Undo'


def run(ctx):
    ctx.model('NetlistsMachine', CFG % dict(pick='PickAll', f=1, k=2, n=5 if ctx.thorough else 4, small='TRUE', more=INV + '\nVIEW View'))
    ctx.simulate('NetlistsMachine', CFG % dict(pick='PickOne', f=2, k=3, n=12, small='FALSE', more=INV), num=200 if not ctx.thorough else 5000, depth=13)
    hist = ctx.generate('NetlistsMachine', CFG % dict(pick='PickOne', f=3, k=4, n=30, small='FALSE', more='INVARIANT Emit'),
                        160 if not ctx.thorough else 3000, 32, seed=ctx.seed * 3)
    hist = list({str(h[:-1]): h for h in hist}.values())
    jobs = [{'files': 3, 'ev': h} for h in hist]

    def at(t, f):
        for e, o in zip(t['ev'], t['obs']):
            if f(e, o):
                return t

    def order(e, o):
        for n in o['nets']:
            if len(n) > 1 and n[0] != n[1]:
                n[0], n[1] = n[1], n[0]
                return True

    def value(e, o):
        for n in o['nets']:
            for l in n:
                if l['a']:
                    l['a'][0][1] = ['f', '17']
                    return True

    def node(e, o):
        for n in o['nets']:
            for l in n:
                if l['n'][0][0] == 'i':
                    l['n'][0][0] = 's'
                    return True

    def edge(e, o):
        if o['edges']:
            o['edges'].pop()
            return True
    flow.replay(ctx, 'h_netlist', jobs, 'NetlistsTrace', 'INIT TInit\nNEXT TNext\nCHECK_DEADLOCK FALSE\n',
                [('order', lambda t: at(t, order)), ('value', lambda t: at(t, value)), ('node', lambda t: at(t, node)), ('graph', lambda t: at(t, edge))])
    ctx.cov['histories'] = len(jobs)
    ctx.assumptions += ['labels and names are identifiers, nodes are integers or strings without spaces, values are numbers, names or (name, number)']
