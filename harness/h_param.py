"""Executes histories of ParamMachine on pyphs.Core."""
import sympy
from pyphs import Core
from common import rat, q, testval, fr, feval

N = 6
X = [Core.symbols('x%d' % k) for k in (1, 2)]
W = Core.symbols('w3')
VAR = {-1: X[0], -2: X[1], -3: W}


def psym(p):
    return Core.symbols('p%d' % p)


def expr(e):
    s = sympy.Integer(0)
    for t in e:
        v = q(t['c'])
        for a in t['m']:
            v = v * (psym(a) if a > 0 else VAR[a])
        for a in t['d']:
            v = v / (psym(a) if a > 0 else VAR[a])
        s = s + v
    return s


def value(e, ty):
    if len(e) == 1 and not e[0]['m'] and not e[0]['d']:
        r = q(e[0]['c'])
        if ty == 'float' or (ty == 'int' and r.q != 1):
            return float(r)
        if ty == 'int':
            return int(r)
    return expr(e)


def build(m, label):
    c = Core(label=label)
    c.add_storages(X, expr(m['H']))
    c.add_dissipations(W, expr(m['z']))
    for k in (4, 5, 6):
        c.add_ports(Core.symbols('u%d' % k), Core.symbols('y%d' % k))
    c.M = sympy.SparseMatrix([[expr(m['M'][i][j]) for j in range(N)] for i in range(N)])
    c.add_connector((1, 2), alpha=expr(m['a']))
    c.add_observer({Core.symbols('obs'): expr(m['o'])})
    return c


TEST = {psym(p): fr(testval(100 + p)) for p in range(1, 12)}
TEST.update({VAR[k]: fr(testval(-k)) for k in VAR})


def num(c, e, depth=0):
    def env(s):
        if s in c.subs:
            if depth > 12:
                raise ValueError('circular dictionary')
            return num_(c, c.subs[s], depth + 1)
        return TEST[s]
    return rat(feval(e, env))


def num_(c, e, depth):
    return fr(sympy.Rational(*[int(k) for k in (num(c, e, depth) + '/1').split('/')[:2]]))


def pid(s):
    n = str(s)
    return int(n[1:]) if n.startswith('p') and n[1:].isdigit() else 0


def observe(c):
    names = list(c.y) + list(c.cy)
    # the specification orders connector ports 5, 6
    order = list(range(c.dims.tot()))
    nm = c.labels()
    want = ['x1', 'x2', 'w3', 'y4'] + (['y5', 'y6'] if c.cy else [])
    if sorted(nm) != sorted(want):
        raise ValueError('components %s' % nm)
    idx = [nm.index(w) for w in want]
    M = [[num(c, c.M[i, j]) for j in idx] for i in idx]
    appear = set(c.freesymbols())
    for e in [c.H] + list(c.z) + list(c.M) + [k['alpha'] for k in c.connectors] + list(c.observers.values()) + list(c.subs.values()):
        appear |= sympy.sympify(e).free_symbols
    return {'dict': [pid(s) for s in c.subs if not str(s).startswith('inv')],
            'plist': [pid(s) for s in c.p],
            'appear': sorted({pid(s) for s in appear} - {0}),
            'M': M, 'alpha': [num(c, k['alpha']) for k in c.connectors],
            'H': num(c, c.H), 'dxH': [num(c, e) for e in c.dxH()],
            'z': [num(c, e) for e in c.z], 'o': [num(c, e) for e in c.observers.values()]}


def run(job):
    regs, core, obs = job['regs'], {}, []
    for e in job['ev']:
        exc, mutated = '', False
        try:
            if e['op'] == 'build':
                for r in regs:
                    core[r] = build(e['m'], 'lab' + r)
            else:
                c = core[e['r']]
                if e['op'] == 'setsub':
                    c.subs[psym(e['p'])] = value(e['e'], e['ty'])
                elif e['op'] == 'user':
                    kw = {}
                    d = None
                    if e['ps']:
                        d = {psym(p): value(x, 'float' if p % 2 else 'sym') for p, x in zip(e['ps'], e['es'])}
                        before = dict(d)
                        kw['subs'] = d
                    if e['self']:
                        kw['self' + e['self']] = True
                    if e['simp']:
                        kw['simplify'] = True
                    c.substitute(**kw)
                    mutated = d is not None and d != before
                elif e['op'] == 'simplify':
                    c.simplify()
                elif e['op'] == 'inverse':
                    c.subsinverse()
                elif e['op'] == 'param':
                    c.add_parameters(psym(e['p']))
                elif e['op'] == 'connect':
                    c.connect()
                elif e['op'] == 'copy':
                    core[e['t']] = c.__copy__()
            rec = {r: observe(core[r]) for r in regs}
        except Exception as err:
            exc = type(err).__name__ + ': ' + str(err)[:150]
            rec = {}
        obs.append({'exc': exc, 'mutated': mutated, 'reg': rec})
        if exc:
            break
    ev = [dict(e) for e in job['ev'][:len(obs)]]
    return {'ev': ev, 'obs': obs}
