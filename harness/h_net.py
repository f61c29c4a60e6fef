"""Builds the models of networks with pyphs and records them."""
import os, tempfile, shutil, warnings
import sympy
warnings.simplefilter('ignore')
from pyphs import Netlist, Graph
from pyphs.dictionary import electronics as el, connectors as co
from common import rat, fr, feval, q

KIND = {'V': ('electronics', 'source', 's'), 'I': ('electronics', 'source', 's'), 'R': ('electronics', 'resistor', 'r'),
        'C': ('electronics', 'capacitor', 'c'), 'L': ('electronics', 'inductor', 'l'),
        'G': ('connectors', 'gyrator', 'k'), 'T': ('connectors', 'transformer', 'k')}
PAR = {'R': 'R', 'C': 'C', 'L': 'L', 'G': 'alpha', 'T': 'alpha'}


def node(n, names):
    return names.get(str(n), '#' if n == 0 else 'N%d' % n)


def args(c, sym):
    t = c['t']
    if t in 'VI':
        return {'type': "voltage" if t == 'V' else "current"}
    v = float(q(c['v']))
    return {PAR[t]: ('%s%s' % (PAR[t], c['id']), v) if sym else v}


def label(c):
    return '%s%d' % (KIND[c['t']][2], c['id'])


def netlist(net, names, path, sym):
    if os.path.exists(path):
        os.remove(path)
    n = Netlist(path, clear=True)
    for c in net:
        a = args(c, sym)
        if c['t'] in 'VI':
            a = {'type': a['type']}
        n.add_line({'dictionary': KIND[c['t']][0], 'component': KIND[c['t']][1], 'label': label(c),
                    'nodes': tuple(node(k, names) for k in c['n']), 'arguments': a})
    return n


def component(c, names, sym):
    d, k, _ = KIND[c['t']]
    cls = getattr(el if d == 'electronics' else co, k[0].upper() + k[1:])
    return cls(label(c), tuple(node(m, names) for m in c['n']), **args(c, sym))


def snapshot(n):
    return [dict(n[i], arguments=dict(n[i]['arguments'])) for i in range(n.nlines())]


def record(core):
    def env(s):
        return feval(core.subs[s], env)

    def num(e):
        return rat(feval(e, env))

    def ident(s, kinds):
        n = str(s)[1:]
        return int(n[1:]) if n[:1] in kinds and n[1:].isdigit() else -1
    x = [ident(s, 'cl') for s in core.x]
    w = [ident(s, 'r') for s in core.w]
    y = [ident(s, 's') for s in core.y]
    if [ident(s, 's') for s in core.u] != y:
        raise ValueError('inputs %s do not match outputs %s' % (core.u, core.y))
    H = sympy.sympify(core.H)
    n = core.M.shape[0]
    dx = core.dxH()
    Q = [[num(sympy.diff(e, s)) for s in core.x] for e in dx]
    for e in dx:
        if rat(feval(e, lambda s: fr(0) if s in core.x else env(s))) != '0':
            raise ValueError('affine storage')
    Z = [[num(sympy.diff(sympy.sympify(e), s)) for s in core.w] for e in core.z]
    return {'st': 'core', 'x': x, 'w': w, 'y': y, 'ncy': len(core.cy),
            'M': [[num(core.M[i, j]) for j in range(n)] for i in range(n)], 'Q': Q, 'Z': Z}


def one(b):
    """b: {net, style, names, opts}; returns a list of records (one per build)"""
    names = b.get('names') or {}
    d = tempfile.mkdtemp(dir=os.environ['VERIF_SCRATCH'])
    out = []
    try:
        style = b['style']
        nl = before = None
        if style == 'netlist':
            nl = netlist(b['net'], names, os.path.join(d, 'n.net'), True)
            before = snapshot(nl)
            g = nl.to_graph()
        elif style == 'file':
            netlist(b['net'], names, os.path.join(d, 'n.net'), True).write()
            nl = Netlist(os.path.join(d, 'n.net'))
            before = snapshot(nl)
            g = Graph(netlist=nl)
        elif style == 'merged':
            k = b['cut']
            n1 = netlist(b['net'][:k], names, os.path.join(d, 'a.net'), True)
            n2 = netlist(b['net'][k:], names, os.path.join(d, 'b.net'), True)
            nl = n1 + n2
            before = snapshot(nl)
            g = nl.to_graph()
        elif style == 'parts':
            k = b['cut']
            g1, g2 = Graph(label='p1'), Graph(label='p2')
            for c in b['net'][:k]:
                g1 = g1 + component(c, names, False)
            for c in b['net'][k:]:
                g2 = g2 + component(c, names, False)
            g = g1 + g2
        else:
            g = Graph(label='g')
            for c in b['net']:
                g = g + component(c, names, False)
        for k in range(b.get('times', 1)):
            try:
                if style == 'netlist' and k:
                    core = nl.to_core()
                elif b.get('merge'):
                    core = g.to_core(merge_all=True)
                else:
                    core = g.to_core()
            except Exception as e:
                out.append({'st': 'err', 'exc': type(e).__name__ + ': ' + str(e)[:100]})
                continue
            try:
                r = record(core)
            except Exception as e:
                r = {'st': 'bad', 'exc': type(e).__name__ + ': ' + str(e)[:160]}
            out.append(r)
        if nl is not None and snapshot(nl) != before:
            out.append({'st': 'bad', 'exc': 'the netlist was modified'})
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return out


def run(job):
    res = []
    for b in job['builds']:
        res.append({'net': b['net'], 'style': b['style'], 'merge': bool(b.get('merge')), 'recs': one(b)})
    return {'net': job['net'], 'bl': job['bl'], 'builds': res}
