"""Executes histories of CoreMachine on pyphs.Core and records what a user sees."""
import os, shutil, tempfile
import sympy
from sympy import Rational
import pyphs
from pyphs import Core
from common import rat, q, testval, fr, feval

KN = {'x': 'x', 'w': 'w', 'y': 'y', 'c': 'cy'}


class World:
    def __init__(self, regs):
        self.sym = {}
        self.core = {r: Core(label='lab' + r) for r in regs}

    def s(self, kind, k):
        if (kind, k) not in self.sym:
            self.sym[(kind, k)] = Core.symbols('%s%d' % (kind, k))
        return self.sym[(kind, k)]

    def name2id(self, sy, kind):
        n = str(sy)
        return int(n[len(kind):]) if n.startswith(kind) and n[len(kind):].isdigit() else -1

    def poly(self, p, kinds):
        e = sympy.Integer(0)
        for t in p:
            m = q(t['c'])
            for k in t['m']:
                m = m * self.s(kinds[k], k)
            e = e + m
        return e

    def apply(self, e, kinds):
        op = e['op']
        c = self.core[e['r']]
        if op == 'addx':
            for k in e['ids']:
                kinds[k] = 'x'
            xs = [self.s('x', k) for k in e['ids']]
            c.add_storages(xs if len(xs) > 1 else xs[0], self.poly(e['H'], kinds))
        elif op == 'addw':
            for k in e['ids']:
                kinds[k] = 'w'
            ws = [self.s('w', k) for k in e['ids']]
            zs = [self.poly(z, kinds) for z in e['z']]
            if len(ws) > 1:
                c.add_dissipations(ws, zs)
            else:
                c.add_dissipations(ws[0], zs[0])
        elif op == 'addy':
            us = [self.s('u', k) for k in e['ids']]
            ys = [self.s('y', k) for k in e['ids']]
            if len(us) > 1:
                c.add_ports(us, ys)
            else:
                c.add_ports(us[0], ys[0])
        elif op == 'set':
            mat = [[q(v) for v in row] for row in e['mat']]
            getattr(c, 'set_%s%s%s' % (e['part'], KN[e['a']], KN[e['b']]))(mat)
        elif op == 'move':
            f = {'x': c.move_storage, 'w': c.move_dissipative,
                 'y': c.move_port, 'c': c.move_connector}[e['kind']]
            f(e['i'] - 1, e['j'] - 1)
        elif op == 'addcon':
            c.add_connector((e['i'] - 1, e['j'] - 1), alpha=q(e['alpha']))
        elif op == 'connect':
            c.connect()
        elif op == 'split':
            c.linear_nonlinear()
        elif op == 'mono':
            c.monovar_multivar()
        elif op == 'reduce':
            c.reduce_z()
        elif op == 'copy':
            self.core[e['t']] = c.__copy__()
        elif op == 'saveload':
            d = tempfile.mkdtemp(dir=os.environ['VERIF_SCRATCH'])
            try:
                if e['relabel']:
                    c.save(folder=d, label='other')
                    n = Core(label='unrelated')
                    n.load(folder=d, label='other')
                else:
                    c.save(folder=d)
                    n = Core(label=c.label)
                    n.load(folder=d)
            finally:
                shutil.rmtree(d, ignore_errors=True)
            self.core[e['t']] = n
        elif op == 'concat':
            self.core[e['t']] = c + self.core[e['s']]
        elif op == 'new':
            self.core[e['r']] = Core(label='lab' + e['r'])
        elif op == 'setsub':
            c.subs[self.s('s', e['id'])] = q(e['v'])
        elif op == 'addparam':
            c.add_parameters(self.s('s', e['id']))
        elif op == 'addobs':
            c.add_observer({self.s('o', e['id']): self.s('s', e['id'])})
        elif op == 'force':
            c.force_wnl.append(self.s('w', e['id']))
        else:
            raise KeyError(op)

    def observe(self, c, kinds, full):
        vals = {self.s(kd, k): fr(testval(k)) for k, kd in kinds.items()}

        def num(ex):
            return rat(feval(ex, vals.__getitem__))

        def mat(M):
            return [[num(M[i, j]) for j in range(M.shape[1])] for i in range(M.shape[0])]
        n = self.name2id
        o = {'x': [n(s, 'x') for s in c.x], 'w': [n(s, 'w') for s in c.w],
             'u': [n(s, 'u') for s in c.u], 'y': [n(s, 'y') for s in c.y],
             'cu': [n(s, 'u') for s in c.cu], 'cy': [n(s, 'y') for s in c.cy],
             'p': [n(s, 's') for s in c.p], 'o': [n(s, 'o') for s in c.o()],
             'fw': [n(s, 'w') for s in c.force_wnl],
             'dims': [c.dims.x(), c.dims.w(), c.dims.y(), c.dims.cy(), c.dims.tot()],
             'labels': [int(l[1:]) for l in c.labels()],
             'sub': [[n(k, 's'), num(v)] for k, v in c.subs.items()],
             'con': [[n(k['u'][0], 'u'), n(k['y'][0], 'y'), n(k['u'][1], 'u'), n(k['y'][1], 'y'),
                      num(k['alpha'])] for k in c.connectors],
             'M': mat(c.M), 'J': mat(c.J()), 'R': mat(c.R()),
             'dxH': [num(e) for e in c.dxH()], 'H': num(c.H), 'z': [num(e) for e in c.z],
             'blocks': []}
        if full:
            for part in 'MJR':
                for a in 'xwyc':
                    for b in 'xwyc':
                        B = getattr(c, part + KN[a] + KN[b])()
                        if B.shape[0] and B.shape[1]:
                            o['blocks'].append({'part': part, 'a': a, 'b': b, 'v': mat(B)})
        if self.lin:
            L = {'n': [c.dims.xl(), c.dims.xnl(), c.dims.wl(), c.dims.wnl(), c.dims.xnl_mono()],
                 'xl': [n(s, 'x') for s in c.xl()], 'wl': [n(s, 'w') for s in c.wl()],
                 'Q': mat(c.Q), 'bl': [num(e) for e in c.bl], 'Zl': mat(c.Zl), 'blocks': []}
            if full:
                ks = ['xl', 'xnl', 'wl', 'wnl', 'y', 'cy']
                for a in ks:
                    for b in ks:
                        B = getattr(c, 'M' + a + b)()
                        if B.shape[0] and B.shape[1]:
                            L['blocks'].append({'a': a, 'b': b, 'v': mat(B)})
            o['lin'] = L
        return o


def run(job):
    regs = job['regs']
    w = World(regs)
    w.lin = job.get('lin', False)
    kinds, obs = {}, []
    for i, e in enumerate(job['ev']):
        last = i == len(job['ev']) - 1
        exc = where = ''
        try:
            w.apply(e, kinds)
        except Exception as err:
            where = 'op'
            exc = type(err).__name__ + ': ' + str(err)[:120]
        rec = {}
        for r in regs:
            try:
                rec[r] = w.observe(w.core[r], kinds, last)
            except Exception as err:
                if exc:
                    rec[r] = {}
                    continue
                exc = 'observe ' + type(err).__name__ + ': ' + str(err)[:120]
                rec[r] = {}
        obs.append({'exc': exc, 'where': where or 'observe', 'reg': rec})
        if exc:
            break
    return {'ev': job['ev'][:len(obs)], 'obs': obs}
