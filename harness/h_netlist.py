"""Plays histories of netlists."""
import os, shutil, tempfile, warnings
warnings.simplefilter('ignore')
from pyphs import Netlist, Graph
from common import q, rat


def dec(v):
    """typed value -> python"""
    return {'i': lambda: int(v[1]), 'f': lambda: float(q(v[1])), 's': lambda: v[1],
            't': lambda: (v[1], float(q(v[2]))), 'ti': lambda: (v[1], int(v[2]))}[v[0]]()


def enc(v):
    if isinstance(v, bool):
        return ['?', str(v)]
    if isinstance(v, int):
        return ['i', str(v)]
    if isinstance(v, float):
        return ['f', rat(v)]
    if isinstance(v, str):
        return ['s', v]
    if isinstance(v, (tuple, list)) and len(v) == 2 and isinstance(v[0], str):
        e = enc(v[1])
        return ['t' if e[0] == 'f' else 'ti' if e[0] == 'i' else '?', v[0], e[1]]
    return ['?', str(v)]


def line(l):
    return {'dictionary': l['d'], 'component': l['c'], 'label': l['l'], 'nodes': tuple(dec(n) for n in l['n']),
            'arguments': {k: dec(v) for k, v in l['a']}}


def seen(d):
    return {'d': d['dictionary'], 'c': d['component'], 'l': d['label'], 'n': [enc(n) for n in d['nodes']],
            'a': sorted([k, enc(v)] for k, v in d['arguments'].items())}


def canon(l):
    """the event's numbers as the floats which represent them"""
    def v(x):
        return [x[0], rat(float(q(x[1])))] if x[0] == 'f' else [x[0], x[1], rat(float(q(x[2])))] if x[0] == 't' else x
    return dict(l, a=[[k, v(x)] for k, x in l['a']])


def text(ls, style):
    """a netlist written by hand"""
    out = []
    for l in ls:
        nodes = ', '.join(repr(dec(n)) for n in l['n'])
        nodes = '(%s,)' % nodes if len(l['n']) == 1 else '(%s)' % nodes
        pars = ['%s=%s' % (k, dec(v)) for k, v in l['a']]
        if style == 'spaces':
            s = '%s.%s   %s  %s:   %s' % (l['d'], l['c'], l['l'], nodes, ' ;  '.join(p.replace('=', ' = ') for p in pars))
        elif style == 'nosemicolon':
            s = '%s.%s %s %s: %s' % (l['d'], l['c'], l['l'], nodes, '; '.join(pars))
        else:
            s = '%s.%s %s %s: %s' % (l['d'], l['c'], l['l'], nodes, ''.join(p + '; ' for p in pars))
        out.append(s)
    if style == 'comments':
        out = ['# a netlist'] + [x for s in out for x in (s, '# electronics.resistor no (1, 2): R=1;')]
    if style == 'blank':
        out = ['', '  '] + [x for s in out for x in (s, '')]
    t = '\n'.join(out)
    return t + '\n' if style in ('newline', 'comments') and out else t


def run(job):
    d = tempfile.mkdtemp(dir=os.environ['VERIF_SCRATCH'])
    ev = []
    for e in job['ev']:
        e = dict(e)
        if 'l' in e:
            e['l'] = canon(e['l'])
        if 'ls' in e:
            e['ls'] = [canon(l) for l in e['ls']]
        ev.append(e)
    out = {'files': job['files'], 'ev': ev, 'obs': []}
    nets = []
    path = lambda f: os.path.join(d, 'net%d.net' % f)
    try:
        for e in ev:
            o = {'exc': '', 'edges': []}
            try:
                op = e['op']
                n = nets[e['n'] - 1] if 'n' in e else None
                if op == 'open':
                    nets.append(Netlist(path(e['f']), clear=True) if e['clear'] else Netlist(path(e['f'])))
                elif op == 'text':
                    with open(path(e['f']), 'w') as f:
                        f.write(text(e['ls'], e['style']))
                elif op == 'add':
                    n.add_line(line(e['l']))
                elif op == 'copy':
                    n.add_line(nets[e['m'] - 1][e['i'] - 1])
                elif op == 'del':
                    n.delline(e['i'] - 1)
                elif op == 'set':
                    n.setline(e['i'] - 1, line(e['l']))
                elif op == 'sum':
                    nets.append(n + nets[e['m'] - 1])
                elif op == 'plus':
                    n += nets[e['m'] - 1]
                    nets[e['n'] - 1] = n
                elif op == 'write':
                    n.write() if e['f'] == 0 else n.write(path(e['f']))
                elif op == 'read':
                    n.read()
                elif op == 'graph':
                    g = Graph(netlist=n) if e['n'] % 2 else n.to_graph()
                    o['edges'] = [{'l': str(a[2]['label'])[1:], 'n': [enc(a[0]), enc(a[1])]} for a in g.edges(data=True)]
                o['nets'] = [[seen(x[i]) for i in range(x.nlines())] for x in nets]
                o['count'] = [len(list(x)) for x in nets]
            except Exception as x:
                o['exc'] = type(x).__name__ + ': ' + str(x)[:200]
            out['obs'].append(o)
            if o['exc']:
                break
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return out
