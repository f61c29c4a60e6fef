"""Fractional integrators and derivators between two nodes, driven by a source: the linear model obtained."""
import warnings
warnings.simplefilter('ignore')
import sympy
from pyphs import Graph
from pyphs.dictionary import fraccalc, electronics
from common import q, rat, feval, fr


def run(job):
    c = job['c']
    t = {'job': job, 'exc': '', 'nx': 0, 'nw': 0, 'M': [], 'Q': [], 'Z': []}
    try:
        a = {k: float(q(c[k])) for k in ('g',) if c[k] != ''}
        if c['o'] != '':
            a['beta' if c['c'].startswith('Fracint') else 'alpha'] = float(q(c['o']))
        a.update(NbPoles=c['np'], PolesMinMax=tuple(c['pm']), NbFreqPoints=c['nf'], FreqsMinMax=tuple(float(q(v)) for v in c['fm']), DoPlot=False)
        g = Graph(label='g')
        g += getattr(fraccalc, c['c'])(c['l'], tuple(c['n']), **a)
        g += electronics.Source('s', tuple(c['n'] if c['same'] else c['n'][::-1]), type='voltage' if c['c'].endswith('ec') else 'current')
        core = g.to_core()
        if core.cy:
            core.connect()

        def env(s):
            return feval(core.subs[s], env)

        def num(e):
            return rat(feval(e, env))
        n = core.M.shape[0]
        dx = core.dxH()
        t['nx'], t['nw'] = len(core.x), len(core.w)
        t['Q'] = [[num(sympy.diff(e, s)) for s in core.x] for e in dx]
        t['Z'] = [[num(sympy.diff(sympy.sympify(e), s)) for s in core.w] for e in core.z]
        t['M'] = [[num(core.M[i, j]) for j in range(n)] for i in range(n)]
        if len(core.y) != 1:
            raise ValueError('outputs %s' % str(core.y))
    except Exception as e:
        t['exc'] = '%s: %s' % (type(e).__name__, str(e)[:200])
    return t
