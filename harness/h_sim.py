"""Runs simulations of generated models with pyphs and records them."""
import os, shutil, tempfile, warnings
import sympy, numpy
warnings.simplefilter('ignore')
from pyphs import Core
from common import q, rat, phase


class Model(object):
    """a pyphs.Core from a polynomial model; sym: constants become symbols with values in the dictionary"""

    def __init__(self, m, label, sym=False):
        self.m, self.n, self.subs, self.sym = m, 0, {}, sym
        self.x = [Core.symbols('x%d' % (i + 1)) for i in range(m['nx'])]
        self.w = [Core.symbols('w%d' % (i + 1)) for i in range(m['nw'])]
        self.u = [Core.symbols('u%d' % (i + 1)) for i in range(m['ny'])]
        self.y = [Core.symbols('y%d' % (i + 1)) for i in range(m['ny'])]
        self.p = [Core.symbols('p%d' % (i + 1)) for i in range(m['np'])]
        self.o = [Core.symbols('o%d' % (i + 1)) for i in range(m['no'])]
        c = Core(label=label)
        self.core = c
        if self.x:
            c.add_storages(self.x, self.poly(m['H']))
        self.g = list(c.g())
        for w, z in zip(self.w, m['z']):
            c.add_dissipations(w, self.poly(z))
        for u, y in zip(self.u, self.y):
            c.add_ports(u, y)
        if self.p:
            c.add_parameters(self.p)
        n = m['nx'] + m['nw'] + m['ny']
        low = {}
        for i in range(n):
            for j in range(i, n):
                low[i, j] = self.poly(m['M'][i][j])
        c.M = sympy.SparseMatrix(n, n, lambda i, j: low[i, j] if i <= j else -low[j, i])
        for s, e in zip(self.o, m['o']):
            c.add_observer({s: self.poly(e)})
        c.subs.update(self.subs)

    def var(self, v):
        return getattr(self, v[0])[v[1] - 1]

    def poly(self, p):
        s = sympy.Integer(0)
        for t in p:
            c = q(t['c'])
            if self.sym and t['m'] and (self.sym is True or self.n < self.sym):
                self.n += 1
                k = Core.symbols('k%d' % self.n)
                self.subs[k] = float(c)
                c = k
            for v in t['m']:
                c = c * self.var(v)
            s = s + c
        return s


def columns(data, name, order, wanted):
    a = numpy.asarray(data[name])
    idx = [order.index(k) for k in wanted]
    return [[rat(float(row[i])) for i in idx] for row in a]


def record(simu, M, reader):
    d = simu.data
    mx = [str(s) for s in simu.method.x]
    mw = [str(s) for s in simu.method.w]
    my = [str(s) for s in simu.method.y]
    X, W, Y = [str(s) for s in M.x], [str(s) for s in M.w], [str(s) for s in M.y]
    P = [str(s) for s in M.p]
    cols = {'x': columns(d, 'x', mx, X), 'dx': columns(d, 'dx', mx, X), 'g': columns(d, 'dxH', mx, X),
            'w': columns(d, 'w', mw, W), 'z': columns(d, 'z', mw, W), 'y': columns(d, 'y', my, Y),
            'u': columns(d, 'u', my, Y), 'p': columns(d, 'p', [str(s) for s in simu.method.p], P)}
    n = len(cols['u'] if Y else cols['x'])
    if reader:
        def flat(a):
            return [rat(float(v)) for v in numpy.asarray(a).reshape(-1)]
        cols['E'] = flat(d.E())
        cols['pd'] = flat(d.pd())
        cols['ps'] = flat(d.ps()) if Y else ['0'] * n
        cols['dtE'] = flat(d.dtE())
        cols['dEH'] = flat(d.dtE(DtE='deltaH'))
    return [{k: v[i] for k, v in cols.items()} for i in range(n)]


def cfgs(cf):
    c = {'grad': cf['grad'], 'theta': float(q(cf['theta'])), 'split': bool(cf['split'])}
    if 'epsdg' in cf:
        c['epsdg'] = float(q(cf['epsdg']))
    return c


def compiler(d):
    """generated projects ask for full optimization: spare it"""
    p = os.path.join(d, 'cxx')
    with open(p, 'w') as f:
        f.write('#!/bin/sh\nexec g++ "$@" -O0\n')
    os.chmod(p, 0o755)
    os.environ['CXX'] = p


def simulate(job, d, reader):
    m, cf = job['m'], job['cf']
    M = Model(m, 'mod', job.get('sym'))
    mc = cfgs(cf)
    path = os.path.join(d, 'res')
    os.mkdir(path)
    sc = dict(mc, fs=float(q(cf['fs'])), path=path, lang=job.get('lang', 'python'), pbar=False, timer=False)
    sc.update({k: (int if k == 'maxit' else float)(q(v)) for k, v in job.get('solver', {}).items()})
    x0 = dict(zip([str(s) for s in M.x], [float(q(v)) for v in job['x0']]))
    u = [[float(q(v)) for v in s['u']] for s in job['st']]
    p = [[float(q(v)) for v in s['p']] for s in job['st']]
    nt = len(u)
    meth = M.core.to_method(config=mc)
    inits = {'x': [x0[str(s)] for s in meth.x]} if M.x else {}
    if sc['lang'] == 'c++':
        compiler(d)
    simu = meth.to_simulation(config=sc, inits=inits)
    simu.init(u=numpy.array(u) if M.y else None, p=numpy.array(p) if M.p else None, nt=nt)
    phase('process', 300 if sc['lang'] == 'c++' else 90)
    simu.process()
    return record(simu, M, reader)


def pair(job):
    """the same simulation in both languages"""
    out = {'exc': '', 'a': [], 'b': [], 'cf': job['cf'], 'solver': job['solver']}
    for k, lang in (('a', 'python'), ('b', 'c++')):
        d = tempfile.mkdtemp(dir=os.environ['VERIF_SCRATCH'])
        try:
            out[k] = simulate(dict(job, lang=lang), d, False)
        except Exception as e:
            out['exc'] = lang + ': ' + type(e).__name__ + ': ' + str(e)[:200]
        finally:
            shutil.rmtree(d, ignore_errors=True)
    return out


def run(job):
    import time
    if job.get('pair'):
        return pair(job)
    t0 = time.time()
    d = tempfile.mkdtemp(dir=os.environ['VERIF_SCRATCH'])
    out = {k: job[k] for k in ('m', 'cf', 'x0', 'st')}
    out['exc'] = ''
    out['rec'] = []
    try:
        out['rec'] = simulate(job, d, job.get('reader', True))
    except Exception as e:
        import traceback
        out['exc'] = type(e).__name__ + ': ' + str(e)[:200]
        out['tb'] = traceback.format_exc()[-600:]
    finally:
        shutil.rmtree(d, ignore_errors=True)
    out['sec'] = str(round(time.time() - t0, 1))
    return out
