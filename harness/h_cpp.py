"""Compiles and runs the code generated for models whose dissipation laws are given expressions of the inputs."""
import os, shutil, tempfile
import numpy, sympy
from pyphs import Core
from common import q, rat
from h_sim import compiler
from h_eval import build


def simulate(job, d):
    sym = Core.symbols
    args, subs = job['args'], job['subs']
    w = [sym(a) for a in args]
    c = Core(label=job['label'])
    for a, e in zip(w, job['e']):
        c.add_dissipations(a, build(e, sym))
    for i in range(len(w)):
        c.add_ports(sym('u%d' % (i + 1)), sym('y%d' % (i + 1)))
    n = len(w)
    M = sympy.zeros(2 * n, 2 * n)
    for i in range(n):
        M[i, n + i], M[n + i, i] = 1, -1
    c.M = sympy.SparseMatrix(M)
    vals = {sym(a): float(q(job['vals'][a])) for a in subs}
    c.subs.update({k: v + 1. for k, v in vals.items()} if job['late'] else vals)
    if job['lang'] == 'c++':
        compiler(d)
    path = os.path.join(d, 'res')
    os.mkdir(path)
    simu = c.to_simulation(config={'fs': float(job['fs']), 'path': path, 'lang': job['lang'], 'pbar': False, 'timer': False, 'split': job['split']})
    u = numpy.array([[float(q(p[a])) for a in args] for p in job['pts']])
    names = [str(s) for s in simu.method.u]
    order = [int(s[1:]) - 1 for s in names]
    simu.init(u=u[:, order], nt=len(u))
    if job['late']:
        new = dict(simu.method.subs)
        new.update(vals)
        simu.init_parameters(new)
    simu.process()
    mw = [str(s) for s in simu.method.w]
    idx = [mw.index(a) for a in args]
    my = [str(s) for s in simu.method.y]
    idy = [my.index('y%d' % (i + 1)) for i in range(n)]
    D = simu.data
    z, ww, y = (numpy.asarray(D[k]) for k in ('z', 'w', 'y'))
    return [[[rat(float(r[i]))] for i in idx] for r in z], [[rat(float(r[i])) for i in idx] for r in ww], [[rat(-float(r[i]))] for r in y for i in idy] and [[[rat(-float(r[i]))] for i in idy] for r in y]


def run(job):
    d = tempfile.mkdtemp(dir=os.environ['VERIF_SCRATCH'])
    envs = [{a: (p[a] if a in job['args'] else job['vals'][a]) for a in 'abcde'} for p in job['pts']]
    it = {'kind': 'expr', 'what': 'law', 'd': 1, 'e': [[e] for e in job['e']], 'cols': 1, 'env': envs, 'series': True, 'got': [], 'shape': [], 'exc': ''}
    items = [it]
    try:
        z, w, y = simulate(job, d)
        it['got'], it['shape'] = z, [len(z), len(job['e'])]
        items.append(dict(it, what='output', got=y))
        for p, r in zip(job['pts'], w):
            ok = all(abs(q(p[a]) - q(v)) < 1e-9 for a, v in zip(job['args'], r))
            items.append({'kind': 'dissipation-variable', 'exc': '', 'ok': bool(ok)})
    except Exception as e:
        import traceback
        it['exc'] = type(e).__name__ + ': ' + str(e)[:300] + traceback.format_exc()[-300:]
        log = os.path.join(d, 'res', job['label'].lower(), 'build.log')
        it['log'] = str(getattr(e, 'stderr', ''))[:600]
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return {'it': items, 'exc': it['exc'] + it.get('log', '')}
