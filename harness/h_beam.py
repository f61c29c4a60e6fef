"""Cantilever beams driven by forces at their contact points: the linear model obtained."""
import warnings
warnings.simplefilter('ignore')
import sympy
from pyphs import Graph
from pyphs.dictionary import beams, mechanics
from common import q, rat, feval


def run(job):
    c = job['c']
    t = {'job': job, 'exc': '', 'nx': 0, 'nw': 0, 'M': [], 'Q': [], 'Z': []}
    try:
        a = {k: (int(v) if k == 'N' else float(q(v))) for k, v in c['p'].items() if v != ''}
        nodes = tuple('N%d' % (i + 1) for i in range(c['k']))
        g = Graph(label='g')
        g += beams.Cantilever(c['l'], nodes, **a)
        for i, n in enumerate(nodes):
            g += mechanics.Source('s%d' % i, ('#', n), type='force')
        core = g.to_core()
        if core.cy:
            core.connect()

        def env(s):
            return feval(core.subs[s], env)

        def num(e):
            return rat(feval(e, env))
        n, ny = core.M.shape[0], len(core.y)
        order = list(range(n - ny)) + [n - ny + [str(s) for s in core.y].index('ys%d' % i) for i in range(c['k'])]
        if ny != c['k']:
            raise ValueError('outputs %s' % str(core.y))
        dx = core.dxH()
        t['nx'], t['nw'] = len(core.x), len(core.w)
        t['Q'] = [[num(sympy.diff(e, s)) for s in core.x] for e in dx]
        t['Z'] = [[num(sympy.diff(sympy.sympify(e), s)) for s in core.w] for e in core.z]
        t['M'] = [[num(core.M[i, j]) for j in order] for i in order]
    except Exception as e:
        t['exc'] = '%s: %s' % (type(e).__name__, str(e)[:200])
    return t
