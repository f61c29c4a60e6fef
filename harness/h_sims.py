"""Plays histories of several simulations side by side."""
import copy, os, shutil, tempfile, warnings
from fractions import Fraction
import numpy
warnings.simplefilter('ignore')
from common import q, rat
from pyphs import Core
from h_sim import Model, record


def signal(a, nt, w):
    return [[float(Fraction(((n * a + j * 3 + a) % 7) - 3, 8)) for j in range(1, w + 1)] for n in range(1, nt + 1)]


def form(a, nt, w, f):
    """the input sequence in one of the accepted forms"""
    if a == 0 or w == 0:
        return None
    s = signal(a, nt, w)
    flat = [r[0] for r in s]
    return {'array2': lambda: numpy.array(s), 'list2': lambda: s, 'tuple2': lambda: tuple(tuple(r) for r in s),
            'array1': lambda: numpy.array(flat), 'list1': lambda: flat,
            'gen2': lambda: (numpy.array(r) for r in s), 'gen1': lambda: (v for v in flat)}[f]()


def opts(o):
    c = {}
    for k, v in o:
        c[k] = bool(v) if k == 'split' else v if k == 'grad' else float(q(v))
    return c


class World(object):
    def __init__(self, job, d):
        self.d, self.M, self.meths, self.sims, self.of = d, [], [], [], []
        for i, m in enumerate(job['ms']):
            self.M.append(Model(m, 'core%d' % i, sym=1))
        self.mc = []
        self.given = {}

    def caller(self, kind, v):
        """the caller says the same thing with the same object, and keeps it"""
        key = kind + repr(v)
        if key not in self.given:
            self.given[key] = (v, copy.deepcopy(v))
        return self.given[key][0]

    def kept(self):
        return all(a == b for a, b in self.given.values())

    def sub(self, k):
        return self.caller('subs', {Core.symbols('k1'): float(q(k))})

    def play(self, e):
        op = e['op']
        if op == 'edit':
            self.M[e['c'] - 1].core.subs.update(self.sub(e['k']))
        elif op == 'method':
            M = self.M[e['c'] - 1]
            c = {'grad': 'discret', 'theta': 0., 'split': False}
            c.update(opts(e['o']))
            self.meths.append(M.core.to_method(config=self.caller('config', c)))
            self.mc.append(M)
        elif op == 'create':
            path = os.path.join(self.d, 'res%d' % len(self.sims))
            c = dict(opts(e['o']), path=path, lang='python', pbar=False, timer=False)
            c.setdefault('fs', 48000.)
            M = self.mc[e['m'] - 1]
            inits = self.caller('inits', {'x': [float(q(e['x0'][0]))] * len(M.x)}) if e['x0'] and M.x else None
            self.sims.append(self.meths[e['m'] - 1].to_simulation(config=self.caller('config', c), inits=inits))
            self.of.append(M)
        elif op == 'init':
            s, M = self.sims[e['s'] - 1], self.of[e['s'] - 1]
            kw = {}
            if e['sayn']:
                kw['nt'] = e['nt']
            u, p = form(e['ua'], e['nt'], len(M.y), e['fu']), form(e['pa'], e['nt'], len(M.p), e['fp'])
            if u is not None:
                kw['u'] = u
            if p is not None:
                kw['p'] = p
            if e['x0'] and M.x:
                kw['inits'] = self.caller('inits', {'x': [float(q(e['x0'][0]))] * len(M.x)})
            if e['k']:
                kw['subs'] = self.sub(e['k'][0])
            if e['o']:
                kw['config'] = self.caller('config', opts(e['o']))
            s.init(**kw)
        elif op == 'process':
            self.sims[e['s'] - 1].process()
        elif op == 'read':
            s, M = self.sims[e['s'] - 1], self.of[e['s'] - 1]
            r = record(s, M, False)
            return {'exc': '', 'rec': r, 't': [rat(float(v)) for v in s.data.t()], 'same': r == record(s, M, False)}
        return {'exc': ''}


def run(job):
    d = tempfile.mkdtemp(dir=os.environ['VERIF_SCRATCH'])
    out = {'ms': job['ms'], 'ev': job['ev'], 'obs': []}
    try:
        W = World(job, d)
        for e in job['ev']:
            try:
                o = W.play(e)
                o['kept'] = W.kept()
            except Exception as x:
                import traceback
                o = {'exc': type(x).__name__ + ': ' + str(x)[:200], 'tb': traceback.format_exc()[-500:]}
            out['obs'].append(o)
            if o['exc']:
                break
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return out
