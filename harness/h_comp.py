"""Builds components of the dictionaries and records their edges and laws."""
import os, shutil, tempfile, warnings
from importlib import import_module
import sympy
warnings.simplefilter('ignore')
from pyphs import Netlist, Graph
from common import q, rat, fr


def arguments(c, d):
    if c['d'] == 'pwl':
        path = os.path.join(d, c['l'] + '.txt')
        with open(path, 'w') as f:
            for r in (c['X'], c['Y']):
                f.write(' '.join(repr(float(q(v))) for v in r) + '\n')
        a = {'file': path, 'ctrl': c['t']}
        if c['c'] == 'Storage':
            a['integ'] = True
        return a
    if c['c'] == 'Source':
        return {'type': c['t']}
    a = {}
    for p, form in dict(c['form'] or {}).items():
        v = float(q(c['p'][p]))
        if form == 'num':
            a[p] = v
        elif form == 'pair':
            a[p] = (c['nm'][p], v)
        elif form == 'name':
            a[p] = c['nm'][p]
    return a


def run(job):
    d = tempfile.mkdtemp(prefix='comp')
    try:
        return observe(job, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def observe(job, d):
    t = {'job': job, 'exc': '', 'obs': {}}
    cs = job['cs']
    try:
        if job['net'] and all(c['d'] not in ('pwl', 'edges') for c in cs):
            n = Netlist(os.path.join(d, 'n.net'), clear=True)
            for c in cs:
                n.add_line({'dictionary': c['d'], 'component': c['c'].lower(), 'label': c['l'], 'nodes': tuple(c['n']),
                            'arguments': arguments(c, d)})
            g = Graph(netlist=n)
        else:
            g = Graph(label='g')
            for c in cs:
                g += getattr(import_module('pyphs.dictionary.' + c['d']), c['c'])(c['l'], tuple(c['n']), **arguments(c, d))
        free = {c['nm'][p]: c['p'][p] for c in cs for p in (c['form'] or {}) if c['form'][p] == 'name'}
        core = g.core
        subs = {str(k): v for k, v in core.subs.items()}
        edges = list(g.edges(data=True))
        lab = lambda x: '' if x is None else str(x)
        o = {'edges': [{'l': str(e['label']), 'a': str(a), 'b': str(b), 'ty': e['type'], 'ct': e['ctrl'],
                        'kind': e.get('connector_type') or '', 'link': lab(e.get('link'))} for a, b, e in edges],
             'par': {'subs': {}, 'free': [str(p) for p in core.p]}, 'pts': []}
        for k, v in subs.items():
            try:
                o['par']['subs'][k] = rat(v)
            except (ValueError, TypeError):
                pass
        conn = {}
        for c in core.connectors:
            for y in c['y']:
                conn[str(y)] = c['alpha']
        for e in [e for _, _, e in edges]:
            if e['type'] == 'connector' and e['alpha'] is not None:
                conn[str(e['label'])] = e['alpha']
        dxH = core.dxH()
        for pt in job['pts']:
            def env(s):
                n = str(s)
                if n in pt:
                    return fr(q(pt[n]))
                if n in free:
                    return fr(q(free[n]))
                if n in subs:
                    v = sympy.sympify(subs[n])
                    return fr(q(val(v))) if v.free_symbols else fr(v)
                raise KeyError('no value for ' + n)

            def val(e):
                try:
                    e = sympy.sympify(e)
                    v = {}
                    for s in e.free_symbols:
                        f = env(s)
                        v[s] = sympy.Float(f.numerator, 50) / sympy.Float(f.denominator, 50)
                    return rat(e.evalf(40, subs=v) if v else e)
                except (ValueError, TypeError, ZeroDivisionError):
                    return ''
            p = {'H': val(core.H), 'g': {str(x): val(e) for x, e in zip(core.x, dxH)}, 'e': {}, 'f': {},
                 'z': {str(w): val(e) for w, e in zip(core.w, core.z)}, 'ratio': {y: val(a) for y, a in conn.items()},
                 'obs': {str(k): val(e) for k, e in core.observers.items()}}
            for _, _, e in edges:
                if e['type'] == 'dissipative':
                    for k in 'ef':
                        p[k][str(e['label'])] = val(e['z'][k + '_ctrl'])
            o['pts'].append(p)
        t['obs'] = o
    except Exception as e:
        t['exc'] = '%s: %s' % (type(e).__name__, str(e)[:200])
    return t
