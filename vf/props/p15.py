from vf import flow, simlib
from fractions import Fraction

CFG = '''INIT Init
NEXT %(next)s
CONSTANTS Pick <- %(pick)s
 Cores = %(c)d
 MaxSims = %(s)d
 MaxOps = %(n)d
 Lens = {%(l)s}
 OneInput = %(one)s
 Reads = TRUE
 Long = %(long)s
%(more)s
CHECK_DEADLOCK FALSE
'''
INV = 'INVARIANTS Own Late Replayed'


def cfg(nxt='Next', pick='PickOne', c=2, s=3, n=16, l='3, 4, 5', one=True, long=False, more='INVARIANT Emit'):
    return CFG % dict(next=nxt, pick=pick, c=c, s=s, n=n, l=l, one=str(one).upper(), long=str(long).upper(), more=more)


def finish(ev):
    """histories end with running and reading everything"""
    ph = []
    for e in ev:
        if e['op'] == 'create':
            ph.append('new')
        elif e['op'] == 'init':
            ph[e['s'] - 1] = 'ready'
        elif e['op'] == 'process':
            ph[e['s'] - 1] = 'done'
    ev = list(ev)
    for i, p in enumerate(ph):
        if p == 'ready':
            ev.append({'op': 'process', 's': i + 1})
    for i, p in enumerate(ph):
        if p != 'new':
            ev.append({'op': 'read', 's': i + 1})
    return ev


def dedupe(hist, last=1):
    return list({str(h[:-last]): h for h in hist}.values())


def run(ctx):
    ctx.simulate('SimMachine', cfg(nxt='AllNext', c=2, s=3, n=12, l='1, 2', more=INV), num=400 if not ctx.thorough else 20000, depth=14)
    jobs = []
    small = [(1, 1, 1), (1, 0, 1), (2, 0, 1), (2, 1, 1), (1, 1, 2)]
    K = 8 if ctx.thorough else 1
    for k, dims in enumerate(small):
        n = (12, 8, 8, 8, 4)[k] * K
        scr = [s['m'] for s in simlib.models(ctx, dims, 8 * n, seed=k + 70) if simlib.cost(s['m']) < 2]
        scr = [m for m in scr if 'g' not in str(m['z']).replace("'c'", '')]
        hist = dedupe(ctx.generate('SimMachine', cfg(one=dims[2] == 1), n, 20, seed=ctx.seed * 7 + k))
        for i, h in enumerate(hist):
            ms = [scr[(2 * i) % len(scr)], scr[(2 * i + 1) % len(scr)]]
            jobs.append({'ms': ms, 'ev': finish(h)})
    hist = dedupe(ctx.generate('SimMachine', cfg(l='1023, 1024, 1025, 2100', n=6, c=1, s=1, long=True), 4, 10, seed=ctx.seed * 7 + 91))
    for i, h in enumerate(hist):
        jobs.append({'ms': [jobs[i]['ms'][0]], 'ev': h})

    def at(t, test):
        for e, o in zip(t['ev'], t['obs']):
            if e['op'] == 'read' and len(o['rec']) > 2 and test(o['rec']):
                return o['rec']

    def bump(v):
        return str(Fraction(v) + Fraction(1, 100))

    def first(t):
        r = at(t, lambda r: r[0]['x'] and any(a != '0' for a in r[1]['dx']))
        if r:
            r[0]['x'][0] = bump(r[0]['x'][0])
            return t

    def inp(t):
        r = at(t, lambda r: r[1]['u'] != r[2]['u'])
        if r:
            r[1]['u'], r[2]['u'] = r[2]['u'], r[1]['u']
            return t

    def length(t):
        r = at(t, lambda r: True)
        if r:
            r.pop()
            return t

    def state(t):
        r = at(t, lambda r: r[0]['x'] and any(a != '0' for a in r[1]['dx']))
        if r:
            r[2]['x'][0] = bump(r[2]['x'][0])
            return t
    flow.replay(ctx, 'h_sims', jobs, 'SimTrace', 'INIT SimInit\nNEXT SimNext\nCONSTANTS Mode = "step"\nCHECK_DEADLOCK FALSE\n',
                [('initial state', first), ('inputs', inp), ('length', length), ('state', state)], job_timeout=200)
    ctx.cov['histories'] = len(jobs)
    ctx.assumptions += ['up to 3 simulations, 3 methods and 2 cores, 16 operations, 3 to 5 time steps per run (inputs alone: up to 2100)',
                        'simulations have their own folder; values of the dictionary of a method used by several simulations are not changed']
