"""Evaluates symbolic functions numerically with pyphs and records the values."""
import os, random, warnings
from fractions import Fraction
import numpy, sympy
warnings.simplefilter('ignore')
from common import q, rat
from pyphs import Core
from h_sim import Model, cfgs

FUN = {'exp': sympy.exp, 'log': sympy.log, 'sin': sympy.sin, 'cos': sympy.cos, 'tan': sympy.tan, 'tanh': sympy.tanh,
       'sqrt': sympy.sqrt, 'abs': sympy.Abs, 'sign': sympy.sign}
REL = {'lt': sympy.StrictLessThan, 'le': sympy.LessThan, 'gt': sympy.StrictGreaterThan, 'ge': sympy.GreaterThan, 'eq': sympy.Eq, 'ne': sympy.Ne}
LIMIT = 1500


class Unsupported(Exception):
    pass


def build(t, sym):
    """tree -> sympy"""
    k, a = t['k'], [build(s, sym) for s in t['a']]
    if k == 'num':
        return q(t['v'])
    if k == 'sym':
        return sym(t['v'])
    if k == 'add':
        return sympy.Add(*a)
    if k == 'mul':
        return sympy.Mul(*a)
    if k == 'pow':
        return a[0] ** t['v']
    if k == 'true':
        return True
    if k in REL:
        return REL[k](*a)
    if k == 'ite':
        return sympy.Piecewise(*[(a[i + 1], a[i]) for i in range(0, len(a), 2)])
    return FUN[k](*a)


def tree(e, count=None):
    """sympy -> tree"""
    count = [0] if count is None else count
    count[0] += 1
    if count[0] > LIMIT:
        raise Unsupported('too large')
    e = sympy.sympify(e)
    node = lambda k, a=(), v='': {'k': k, 'v': v, 'a': [tree(x, count) for x in a]}
    if e.is_Symbol:
        return {'k': 'sym', 'v': str(e), 'a': []}
    if e.is_Number or e.is_NumberSymbol:
        return {'k': 'num', 'v': rat(e), 'a': []}
    if e.is_Add:
        return node('add', e.args)
    if e.is_Mul:
        return node('mul', e.args)
    if e.is_Pow:
        if e.exp.is_Integer:
            return node('pow', [e.base], int(e.exp))
        if e.exp == sympy.Rational(1, 2):
            return node('sqrt', [e.base])
        if e.exp == sympy.Rational(-1, 2):
            return {'k': 'pow', 'v': -1, 'a': [node('sqrt', [e.base])]}
        return node('powr', e.args)
    if isinstance(e, sympy.Piecewise):
        a = []
        for v, c in e.args:
            a += [c, v]
        return node('ite', a)
    if e == True:
        return node('true')
    for k, c in REL.items():
        if isinstance(e, c):
            return node(k, e.args)
    if isinstance(e, sympy.And):
        return node('and', e.args)
    if isinstance(e, sympy.Or):
        return node('or', e.args)
    if isinstance(e, sympy.Max):
        return node('max', e.args)
    if isinstance(e, sympy.Min):
        return node('min', e.args)
    for k, c in FUN.items():
        if k != 'sqrt' and isinstance(e, c):
            return node(k, e.args)
    raise Unsupported(str(type(e)))


def trees(expr):
    """(number of axes, rows, columns) of a scalar, list or matrix expression"""
    if isinstance(expr, (list, tuple)):
        c = [0]
        return 1, [[tree(e, c)] for e in expr], 1
    if isinstance(expr, (sympy.MatrixBase, sympy.SparseMatrix)):
        c = [0]
        return 2, [[tree(expr[i, j], c) for j in range(expr.shape[1])] for i in range(expr.shape[0])], expr.shape[1]
    return 0, [[tree(expr)]], 1


def rows(a, d):
    a = numpy.asarray(a, dtype=float)
    if d == 0:
        return [[rat(float(a.reshape(-1)[0]))]] if a.size else []
    if d == 1:
        return [[rat(float(v))] for v in a.reshape(-1)]
    return [[rat(float(v)) for v in r] for r in a]


def item(what, shape, envs, call, series):
    """one recorded evaluation"""
    d, e, cols = shape
    it = {'kind': 'expr', 'what': what, 'd': d, 'e': e, 'cols': cols, 'env': envs, 'series': series, 'got': [], 'shape': [], 'exc': ''}
    try:
        v = numpy.asarray(call())
        it['shape'] = [int(n) for n in v.shape]
        if series and len(v.shape) == d + 1:
            it['got'] = [rows(x, d) for x in v]
        elif not series and len(v.shape) == d:
            it['got'] = [rows(v, d)]
    except Exception as x:
        it['exc'] = type(x).__name__ + ': ' + str(x)[:200]
    return it


def flo(v):
    return float(q(v))


# ------------------------------------------------------------------ lambdify
def lambdified(job):
    from pyphs.numerics.tools import lambdify
    sym = Core.symbols
    e = [[build(t, sym) for t in r] for r in job['e']]
    expr = e[0][0] if job['d'] == 0 else [r[0] for r in e] if job['d'] == 1 else sympy.SparseMatrix(e)
    args = [sym(a) for a in job['args']]
    subs = {sym(a): flo(job['vals'][a]) for a in job['subs']}
    out = []
    keep = dict(subs)
    try:
        f = lambdify(args, expr, subs=subs, theano=False)
    except Exception as x:
        return [{'kind': 'lambdify', 'exc': type(x).__name__ + ': ' + str(x)[:200], 'ok': False}]
    out.append({'kind': 'dictionary-changed', 'exc': '', 'ok': subs == keep})
    shape = (job['d'], job['e'], len(job['e'][0]))
    for pt in job['pts']:
        env = {a: (pt[a] if a in job['args'] else job['vals'][a]) for a in 'abcde'}
        out.append(item('lambdify', shape, [env], lambda: f(*[flo(pt[a]) for a in job['args']]), False))
    return out


# ---------------------------------------------------------------- Evaluation
def points(rng, names, n):
    vals = ['1/2', '-1/2', '1', '-1', '3/4', '-5/4', '3/2', '1/8', '-3/8', '1/4', '0', '2']
    return [{s: rng.choice(vals) for s in names} for _ in range(n)]


def attr(core, name):
    a = getattr(core, name)
    return a() if callable(a) else a


def evaluation(job):
    rng = random.Random(job['seed'])
    M = Model(job['m'], 'mod', job['sym'])
    core = M.core
    from pyphs import Evaluation
    out = []
    ev = Evaluation(core, vectorize=job['vec']) if job['names'] is None else Evaluation(core, names=job['names'], vectorize=job['vec'])
    allargs = [str(s) for s in ev.args()]
    subs = {str(k): rat(float(v)) for k, v in core.subs.items()}
    names = sorted(n for n in vars(ev) if n + '_args' in vars(ev) and getattr(ev, n) is not None)
    for n in names:
        try:
            expr = [core.observers[k] for k in core.observers] if n == 'o' else attr(core, n)
            if isinstance(expr, (list, tuple)) and len(expr) == 0:
                continue
            if isinstance(expr, (sympy.MatrixBase, sympy.SparseMatrix)) and 0 in expr.shape:
                continue
            shape = trees(expr)
        except Unsupported:
            continue
        args = [str(s) for s in getattr(ev, n + '_args')]
        inds = list(getattr(ev, n + '_inds'))
        out.append({'kind': 'arguments', 'what': n, 'exc': '', 'ok': args == [allargs[i] for i in inds]})
        pts = points(rng, allargs, 3)
        envs = [dict(subs, **p) for p in pts]
        f = getattr(ev, n)
        for i in range(2):
            out.append(item(n, shape, [envs[i]], lambda: f(*[flo(pts[i][a]) for a in args]), False))
        if job['vec'] and args:
            cols = [[flo(p[a]) for p in pts] for a in args]
            out.append(item(n, shape, envs, lambda: f(*cols), True))
            out.append(item(n, shape, envs, lambda: f(*[numpy.array(c) for c in cols]), True))
        if job['vec'] and not args:
            for k in (1, 2):            # constants: one value per given point
                cols = [[flo(p[a]) for p in pts] for a in allargs[:k]]
                if cols:
                    out.append(item(n, shape, envs, lambda: f(*cols), True))
                    out.append(item(n, shape, envs, lambda: f(*[numpy.array(c) for c in cols]), True))
    # selections of components
    for n in ('dxH', 'z', 'o'):
        expr = [core.observers[k] for k in core.observers] if n == 'o' else attr(core, n)
        if len(expr) == 0:
            continue
        try:
            d, e, c = trees(expr)
        except Unsupported:
            continue
        for vs in (rng.randrange(len(expr)), slice(None), slice(1, None), slice(0, len(expr), 2)):
            sel = [expr[vs]] if isinstance(vs, int) else expr[vs]
            if not sel:
                continue
            try:
                e1 = Evaluation(core, names=[n], vslice=vs)
                args = [str(s) for s in getattr(e1, n + '_args')]
            except Exception as x:
                out.append({'kind': 'selection', 'what': n, 'exc': type(x).__name__ + str(x)[:200], 'ok': False})
                continue
            f = getattr(e1, n)
            pts = points(rng, allargs, 2)
            envs = [dict(subs, **p) for p in pts]
            shape = (0, [e[vs]], 1) if isinstance(vs, int) else (1, e[vs], 1)
            out.append(item('%s[%s]' % (n, vs), shape, [envs[0]], lambda: f(*[flo(pts[0][a]) for a in args]), False))
            if args:
                cols = [[flo(p[a]) for p in pts] for a in args]
                out.append(item('%s[%s]' % (n, vs), shape, envs, lambda: f(*cols), True))
            elif allargs:
                cols = [[flo(p[a]) for p in pts] for a in allargs[:2]]
                out.append(item('%s[%s]' % (n, vs), shape, envs, lambda: f(*cols), True))
    return out


# ------------------------------------------------------------------- Numeric
def arr(v):
    a = numpy.asarray(v, dtype=float)
    return {'d': int(a.ndim), 'v': rows(a, a.ndim)}


def optree(o):
    from pyphs.numerics.tools import Operation
    if isinstance(o, Operation):
        return {'op': o.operation, 'a': [optree(a) for a in o.args], 'v': ''}
    if isinstance(o, str):
        return {'op': 'get', 'a': [], 'v': o}
    if isinstance(o, (int, float)):
        return {'op': 'num', 'a': [], 'v': rat(o)}
    raise Unsupported(str(o))


def opnames(t):
    return {t['v']} if t['op'] == 'get' else set().union(*[opnames(a) for a in t['a']]) if t['a'] else set()


def numeric(job):
    rng = random.Random(job['seed'])
    M = Model(job['m'], 'mod', job['sym'])
    mc = cfgs(job['cf'])
    meth = M.core.to_method(config=mc)
    fs = flo(job['cf']['fs'])
    nums = meth.to_numeric(config={'fs': fs})
    subs = {str(k): rat(float(v)) for k, v in meth.subs.items()}
    allargs = [str(s) for s in meth.args()]
    out = []
    out.append({'kind': 'sample-rate', 'exc': '', 'ok': subs[str(meth.fs)] == rat(fs)})
    funcs = sorted(set(meth.update_actions_deps()) - set(meth.args_names))
    for rep in range(2):
        p = points(rng, allargs, 1)[0]
        env = dict(subs, **p)
        for a in ('x', 'dx', 'w', 'u', 'p', 'o'):
            s = [str(v) for v in attr(meth, a)]
            if s:
                getattr(nums, 'set_' + a)(numpy.array([flo(p[v]) for v in s]))
        for a in ('x', 'dx', 'w', 'u', 'p', 'o', 'vl', 'vnl'):
            s = [str(v) for v in attr(meth, a)]
            got = [rat(float(v)) for v in getattr(nums, a)()] if s else []
            out.append({'kind': 'argument', 'what': a, 'exc': '', 'ok': got == [p[v] for v in s]})
        for n in funcs:
            if n in meth.ops_names:
                continue
            try:
                expr = getattr(meth, n + '_expr')
                if isinstance(expr, (list, tuple)) and len(expr) == 0:
                    continue
                if isinstance(expr, (sympy.MatrixBase, sympy.SparseMatrix)) and 0 in expr.shape:
                    continue
                shape = trees(expr)
            except Unsupported:
                continue
            out.append(item(n, shape, [env], lambda: getattr(nums, n + '_eval')(), False))
            if out[-1]['exc'] == '':
                v = getattr(nums, n + '_eval')()
                getattr(nums, 'set_' + n)(v)
                out.append({'kind': 'stored', 'what': n, 'exc': '', 'ok': bool(numpy.array_equal(getattr(nums, n)(), v))})
        for n in funcs:
            if n not in meth.ops_names:
                continue
            try:
                t = optree(getattr(meth, n + '_op'))
            except Unsupported:
                continue
            vals = {}
            for k in opnames(t):
                a = getattr(nums, k)()
                vals[k] = arr(a)
            if any(not v['v'] or not v['v'][0] for v in vals.values()):
                continue
            it = {'kind': 'op', 'what': n, 'o': t, 'env': vals, 'got': [], 'shape': [], 'exc': ''}
            try:
                a = numpy.asarray(getattr(nums, n + '_eval')(), dtype=float)
                it['shape'], it['got'] = [int(k) for k in a.shape], rows(a, a.ndim)
                if not numpy.all(numpy.isfinite(a)):
                    continue
            except numpy.linalg.LinAlgError:
                continue
            except Exception as x:
                it['exc'] = type(x).__name__ + ': ' + str(x)[:200]
            out.append(it)
            getattr(nums, 'set_' + n)(getattr(nums, n + '_eval')())
    return out


def run(job):
    out = {'kind': job['kind'], 'it': []}
    try:
        out['it'] = {'lambdify': lambdified, 'evaluation': evaluation, 'numeric': numeric}[job['kind']](job)
    except Exception as e:
        import traceback
        out['it'].append({'kind': 'run', 'ok': False, 'exc': type(e).__name__ + ': ' + str(e)[:200] + traceback.format_exc()[-500:]})
    return out
