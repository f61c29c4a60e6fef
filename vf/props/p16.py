from vf import flow, simlib
from fractions import Fraction

CFG = '''INIT Init
NEXT %(next)s
CONSTANTS Nt = {%(nt)s}
 Names <- NamesC
 MaxOps = %(n)d
 Pick <- %(pick)s
%(more)s
CHECK_DEADLOCK FALSE
'''


def wrap(dims):
    nx, nw, ny, np, no = dims
    w = {'x': nx, 'dx': nx, 'dxH': nx, 'w': nw, 'z': nw, 'y': ny, 'u': ny, 'p': np, 'dtx': nx, 'a': nx + nw + ny, 'b': nx + nw + ny,
         'args': 2 * nx + nw + ny + np, 'args_o': 2 * nx + nw + ny + np + no, 'o': no, 't': 0, 'E': 0, 'ps': 0, 'dtE': 0, 'dtEd': 0}
    return {'W.tla': '---- MODULE W ----\nEXTENDS DataMachine\nNamesC == {%s}\n====\n' % ', '.join('<<"%s", %d>>' % t for t in sorted(w.items()))}


def run(ctx):
    ctx.model('W', CFG % dict(next='SetNext', nt='4', n=3 if ctx.thorough else 2, pick='PickAll', more='INVARIANTS InRecord Aligned QueryT'),
              files=wrap((2, 0, 1, 0, 0)))
    ctx.simulate('W', CFG % dict(next='Next', nt='3, 7, 12', n=12, pick='PickOne', more='INVARIANTS InRecord Aligned QueryT'),
                 num=100 if not ctx.thorough else 3000, depth=14, files=wrap((2, 1, 1, 1, 1)))
    jobs = []
    for k, (dims, n) in enumerate([((2, 1, 1), 16), ((3, 2, 1), 8), ((2, 2, 2), 8)]):
        scr = [s for s in simlib.models(ctx, dims, n * 3 * (6 if ctx.thorough else 1), seed=k + 40) if simlib.cost(s['m']) < 3]
        scr = scr[:n * (6 if ctx.thorough else 1)]
        hist = ctx.generate('W', CFG % dict(next='Next', nt='1, 2, 5, 11, 24, 40', n=40, pick='PickOne', more='INVARIANT Emit'), len(scr), 45,
                            files=wrap(dims + (1, 1)), seed=ctx.seed * 5 + k)
        hist = list({str(h['ev'][:-1]): h for h in hist}.values())      # the last step is emitted with each of its variants
        for i, (s, h) in enumerate(zip(scr, hist)):
            jobs.append({'m': s['m'], 'cf': s['cf'], 'x0': s['x0'], 'u': [r['u'] for r in s['st']], 'p': [r['p'] for r in s['st']],
                         'nt': h['nt'], 'ev': h['ev'], 'run': True})
    # long recordings (several chunks): inputs only
    hist = ctx.generate('W', CFG % dict(next='Next', nt='1023, 1024, 1025, 1500, 2048, 2049', n=6, pick='PickOne', more='INVARIANT EmitIn'), 6, 45, seed=ctx.seed * 5 + 9,
                        files={'W.tla': '---- MODULE W ----\nEXTENDS DataMachine\nNamesC == {<<"u", 1>>, <<"p", 1>>, <<"t", 0>>}\nEmitIn == Emit\n====\n'})
    for i, h in enumerate(hist):
        s = jobs[i]
        jobs.append(dict(s, nt=h['nt'], ev=h['ev'], run=False))

    def shift(t):
        for e, o in zip(t['ev'], t['obs']):
            if e['op'] == 'query' and o['dim'] == 2 and len(o['v']) > 2 and o['v'][0] != o['v'][1] and e['name'] in ('x', 'args', 'y'):
                o['v'] = o['v'][1:] + o['v'][:1]
                return t

    def comp(t):
        for e, o in zip(t['ev'], t['obs']):
            if e['op'] == 'query' and o['dim'] == 2 and o['v'] and len(o['v'][0]) > 1 and o['v'][0][0] != o['v'][0][1]:
                o['v'][0][0], o['v'][0][1] = o['v'][0][1], o['v'][0][0]
                return t

    def win(t):
        for e, o in zip(t['ev'], t['obs']):
            if e['op'] == 'set':
                o['stop'] -= 1
                return t

    def scal(t):
        for e, o in zip(t['ev'], t['obs']):
            if e['op'] == 'query' and e['name'] in ('E', 'ps', 'dtE', 'dtEd', 't') and o['v'] and o['v'][0] != '0':
                o['v'][0] = str(Fraction(o['v'][0]) * Fraction(11, 10))
                return t
    flow.replay(ctx, 'h_data', jobs, 'DataTrace', 'INIT TInit\nNEXT TNext\nCHECK_DEADLOCK FALSE\n',
                [('shifted rows', shift), ('exchanged components', comp), ('window', win), ('derived value', scal)], job_timeout=90)
    ctx.cov['recordings'] = len(jobs)
    ctx.assumptions += ['positive decimations; recordings of 1 to 40 rows (inputs: up to 2049 rows)']
