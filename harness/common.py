"""Exact conversion between the implementation's numbers and the rational
strings of the specification."""
from fractions import Fraction
import os, signal
import sympy

PHASE = ['']


def phase(name, seconds):
    """the job enters a phase that has its own time limit"""
    PHASE[0] = name
    os.utime(os.path.join(os.environ['VERIF_SCRATCH'], 'out.ndjson'))
    signal.setitimer(signal.ITIMER_REAL, seconds, 1.0)


def q(s):
    f = Fraction(s)
    return sympy.Rational(f.numerator, f.denominator)


def fr(v):
    """any number -> exact Fraction (ValueError when not a finite real)"""
    if isinstance(v, Fraction):
        return v
    if isinstance(v, (int,)):
        return Fraction(v)
    if isinstance(v, sympy.Rational):
        return Fraction(int(v.p), int(v.q))
    if isinstance(v, sympy.Float):
        r = sympy.Rational(v)
        return Fraction(int(r.p), int(r.q))
    if isinstance(v, sympy.Basic):
        v = sympy.N(v, 30)
        if not v.is_real:
            raise ValueError('not a real number: %s' % v)
        r = sympy.Rational(v)
        return Fraction(int(r.p), int(r.q))
    f = float(v)
    return Fraction(f)          # raises on nan, inf


def rat(v):
    f = fr(v)
    return str(f.numerator) if f.denominator == 1 else '%d/%d' % (f.numerator, f.denominator)


def testval(k):
    return sympy.Rational(((7 * k) % 11) + 1, (k % 3) + 2)


def feval(e, env):
    """Exact value of a rational expression; env maps symbols to Fractions (a
    function of the symbol). Falls back on sympy for anything else."""
    e = sympy.sympify(e)
    if e.is_Symbol:
        return env(e)
    if e.is_Rational or e.is_Float:
        return fr(e)
    if e.is_Add:
        s = Fraction(0)
        for a in e.args:
            s += feval(a, env)
        return s
    if e.is_Mul:
        s = Fraction(1)
        for a in e.args:
            s *= feval(a, env)
        return s
    if e.is_Pow and e.exp.is_Integer:
        return feval(e.base, env) ** int(e.exp)
    v = {}
    for s in e.free_symbols:
        f = env(s)
        v[s] = sympy.Rational(f.numerator, f.denominator)
    return fr(e.subs(v))
