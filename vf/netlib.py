"""Checks over networks (P08, P09, P10)."""
import json, random
from vf.base import CheckError, corrupt_selftest

CFG = '''INIT Init
NEXT %(next)s
CONSTANTS NN = %(nn)d
 Types <- TypesC
 MaxC = %(maxc)d
 MinC = %(minc)d
 NeedCon = %(need)s
 Vals = {%(vals)s}
 Pick <- %(pick)s
%(more)s
CHECK_DEADLOCK FALSE
'''
VALS = ['2', '3', '5/2', '7/4', '5']


def wrap(types):
    return {'W.tla': '---- MODULE W ----\nEXTENDS NetMachine\nTypesC == <<%s>>\n====\n' % ', '.join('"%s"' % t for t in types)}


def cfg(nxt, nn, maxc, vals, pick, more, minc=2, need=False):
    return CFG % dict(next=nxt, nn=nn, maxc=maxc, minc=minc, need=str(need).upper(),
                      vals=', '.join('"%s"' % v for v in vals), pick=pick, more=more)


INV = 'INVARIANTS Confluent Tree SkewS Agree'


def model(ctx):
    ctx.model('W', cfg('Next', 3, 3, ['2'], 'PickAll', INV), files=wrap(['V', 'R', 'C', 'L']))
    ctx.model('W', cfg('Next', 3, 2, ['2'], 'PickAll', INV), files=wrap(['V', 'C', 'R', 'G', 'T']))
    if ctx.thorough:
        ctx.model('W', cfg('Next', 3, 4, ['2'], 'PickAll', INV), files=wrap(['V', 'I', 'R', 'C']), timeout=3000)


def networks(ctx, scale=1):
    """random networks of several profiles, as generated by the specification"""
    out, seen = [], set()
    prof = [(3, 4, 'VIRRCCL', False, 60), (4, 5, 'VIRRCCL', False, 120), (4, 6, 'VRRCCLL', False, 180),
            (4, 7, 'VIRRRCCLL', False, 120), (5, 8, 'VRRRCCLL', False, 120),
            (3, 4, 'VRCLGT', True, 60), (4, 5, 'VIRCLGT', True, 150), (4, 6, 'VIRRCLGT', True, 150), (5, 7, 'VIRRCLGT', True, 100)]
    for nn, n, types, need, num in prof:
        got = ctx.generate('W', cfg('GrowOnly', nn, n, VALS, 'PickOne', 'INVARIANT Emit', minc=n, need=need),
                           int(num * 1.8 * scale * (12 if ctx.thorough else 1)), n + 1, files=wrap(types), seed=ctx.seed * 31 + n * 7 + nn)
        for i, g in enumerate(got):
            k = json.dumps(g)
            if k not in seen and (g['bl'] or i % 6 == 0):     # networks with bridges are mostly refused
                seen.add(k)
                out.append(g)
    return out


def run(ctx, mode, jobs, key=None):
    res = ctx.harness('h_net', jobs, job_timeout=40, total=1500)
    traces = []
    for j, r in zip(jobs, res):
        if r.get('harness') == 'late':      # others did not end
            pass
        elif 'harness' in r:
            ctx.violation('building the model did not end: %s of %s' % (str(r)[:300], show(j['net'])), {'job': j, 'result': r})
        else:
            traces.append(r)
    c = 'INIT TInit\nNEXT TNext\nCONSTANTS Mode = "%s"\nCHECK_DEADLOCK FALSE\n' % mode
    v = ctx.validate('NetTrace', c, traces, timeout=1500)
    stat = {}
    for t, x in zip(traces, v):
        for b in t['builds']:
            for r in b['recs']:
                stat[r['st']] = stat.get(r['st'], 0) + 1
        if x:
            b = t['builds'][int(x[1])]
            ctx.violation('%s: %s built as %s %s %s' % (x[0], show(t['net']), b['style'], show(b['net']), str(b['recs'])[:200]),
                          {'trace': t, 'clause': x[0], 'build': int(x[1])})
    ctx.cov['builds'] = stat
    good = [t for t, x in zip(traces, v) if not x and t['builds'][0]['recs'][0]['st'] == 'core']
    ctx.cov['networks'] = len(traces)
    ctx.sample([show(t['net']) for t in traces[:5]])
    if not good:
        raise CheckError('no network was accepted')
    return c, good, traces


def show(net):
    return ' '.join('%s%d(%s)=%s' % (c['t'], c['id'], ','.join(map(str, c['n'])), c['v']) for c in net)
