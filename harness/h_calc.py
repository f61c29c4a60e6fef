"""Differentiates, inverts and multiplies with pyphs, and records the resulting expressions."""
import warnings
import sympy
warnings.simplefilter('ignore')
from pyphs import Core
from pyphs.core.maths import gradient, hessian, jacobian, inverse, matvecprod, sumvecs
from pyphs.core.tools import free_symbols
from h_eval import build, tree, Unsupported

sym = Core.symbols


def mat(rows, m, n):
    return sympy.SparseMatrix(m, n, lambda i, j: build(rows[i][j], sym))


def rows(v):
    c = [0]
    if isinstance(v, (sympy.MatrixBase, sympy.SparseMatrix)):
        return [[tree(v[i, j], c) for j in range(v.shape[1])] for i in range(v.shape[0])]
    if isinstance(v, (list, tuple)):
        return [[tree(e, c)] for e in v]
    return [[tree(v, c)]]


def show(a):
    return str(a)


def item(out, kind, call, operands, **more):
    it = dict(kind=kind, exc='', got=[], kept=True, **more)
    before = show(operands)
    try:
        v = call()
        it['kept'] = show(operands) == before
        if kind == 'free':
            it['names'] = sorted(str(s) for s in v)
        else:
            it['got'] = rows(v)
    except Unsupported:
        return
    except Exception as e:
        it['exc'] = '%s: %s' % (type(e).__name__, str(e)[:200])
    out.append(it)


def run(job):
    f = [sympy.sympify(build(t, sym)) for t in job['f']]
    vs = [sym(v) for v in job['vars']]
    out = []
    for simp in ((False, True) if job['simple'] else (False,)):
        for i, e in enumerate(f):
            item(out, 'gradient', lambda: gradient(e, vs, simplify=simp), [e, vs], i=i + 1)
            item(out, 'hessian', lambda: hessian(e, vs, simplify=simp), [e, vs], i=i + 1)
        item(out, 'jacobian', lambda: jacobian(f, vs, simplify=simp), [f, vs])
    n = len(job['A'])
    A = mat(job['A'], n, n)
    item(out, 'inverse', lambda: inverse(A), A)
    if job['simple']:
        item(out, 'inverse', lambda: inverse(A, dosimplify=True), A)
    B = mat(job['B'], job['rows'], job['cols'])
    v = [build(t, sym) for t in job['v']]
    item(out, 'matvecprod', lambda: matvecprod(B, v), [B, v])
    if job['extra']:
        item(out, 'mismatch', lambda: matvecprod(B, v + [sym('a')]), [B, v])
    ws = [[build(t, sym) for t in w] for w in job['vs']]
    item(out, 'sumvecs', lambda: sumvecs(*ws), ws)
    if job['extra'] and len(ws) > 1:
        item(out, 'mismatch', lambda: sumvecs(*(ws + [ws[0] + [sym('a')]])), ws)
    for t, e in zip(job['f'], f):
        item(out, 'free', lambda: free_symbols(e), e, e=t)
    both = {'k': 'add', 'v': '', 'a': job['f']}
    item(out, 'free', lambda: free_symbols(f), f, e=both)
    item(out, 'free', lambda: free_symbols({sym('k%d' % i): e for i, e in enumerate(f)}), f, e=both)
    item(out, 'free', lambda: free_symbols(A), A, e={'k': 'add', 'v': '', 'a': [t for r in job['A'] for t in r]})
    m = job['m']
    c = Core(label='m')
    c.add_storages([sym(s) for s in m['x']], build(m['H'], sym))
    for w, z in zip(m['w'], m['z']):
        c.add_dissipations(sym(w), build(z, sym))
    for u in m['u']:
        c.add_ports(sym(u), sym('y' + u))
    k = c.dims.tot()
    c.M = mat(m['M'], k, k)
    seen = lambda: [c.x, c.w, c.u, c.y, c.H, c.z, c.M, c.subs]
    for kind in ('dxH', 'hessH', 'jacz', 'a', 'output', 'pd'):
        before = show(seen())
        item(out, kind, getattr(c, kind), [])
        if out[-1]['kind'] == kind:
            out[-1]['kept'] = show(seen()) == before
    return {'j': job, 'it': out}
