"""Contracts of the special matrices (src/SpecialMatrices.hpp)."""
from fractions import Fraction
from terms import *
from values import *
from contract import *
from specs.vector import rng, size

CONTRACTS = []


def C(key, nargs=None, ptypes=None, **kw):
    def d(f):
        CONTRACTS.append(Contract(key, f, nargs, ptypes, **kw))
        return f
    return d


def q(a, b=1): return R(Fraction(a, b))


@C('IdentityMatrix<double>::IdentityMatrix', ptypes=['unsigned long'])
def _(c):
    n = size(c, c[0])
    c.setthis(mkMatrix(n, n, lambda i, j: ite(eq(i, j), q(1), q(0))))


@C('DiagonalMatrix<double>::DiagonalMatrix', ptypes=['Vector<double>'])
def _(c):
    v = c.V(0)
    c.setthis(mkMatrix(v.n, v.n, lambda i, j: ite(eq(i, j), v(i), q(0))))


def fine2coarse(i, j): return ite(or_(eq(j, 2 * i), eq(j, 2 * i + 1)), q(1, 2), q(0))


@C('InterpolationMatrixFine2Coarse<double>::InterpolationMatrixFine2Coarse', ptypes=['unsigned long'])
def _(c):
    n = size(c, c[0])
    c.requires(lt(n, I(2 ** 30)))
    c.setthis(mkMatrix(n, 2 * n, fine2coarse))


def coarse2fine(n):
    """weights of n coarse cells in the fine cells: linear inside, extrapolation at both ends"""
    k = min_(n, I(3))
    w = [ite(le(I(3), n), q(45, 32), ite(eq(n, I(2)), q(5, 4), q(1))), ite(le(I(3), n), q(-9, 16), q(-1, 4)), q(5, 32)]
    def end(d):     # d: distance of the coarse cell from the end
        return ite(and_(lt(d, k), eq(d, I(0))), w[0], ite(and_(lt(d, k), eq(d, I(1))), w[1], ite(and_(lt(d, k), eq(d, I(2))), w[2], q(0))))
    def f(i, j):
        odd = ite(eq(i, 2 * j + 1), q(3, 4), ite(eq(i, 2 * j - 1), q(1, 4), q(0)))     # fine cell right of a centre
        even = ite(eq(i, 2 * j), q(3, 4), ite(eq(i, 2 * j + 2), q(1, 4), q(0)))
        inner = ite(or_(eq(i, 2 * j), eq(i, 2 * j + 1)), q(3, 4), ite(or_(eq(i, 2 * j - 1), eq(i, 2 * j + 2)), q(1, 4), q(0)))
        return ite(eq(i, I(0)), end(j), ite(eq(i, 2 * n - 1), end(n - 1 - j), inner))
    return f


def concrete_size(n):
    def setup(eng, st, this, argv): return [('val', I(n))]
    return ('%d fine cells' % n, setup)


@C('InterpolationMatrixCoarse2Fine<double>::InterpolationMatrixCoarse2Fine', ptypes=['unsigned long'],
   variants=[concrete_size(2 * h) for h in (1, 2, 3, 4, 5, 6, 7, 8, 10, 12, 16, 20, 24)], bounded='coarse-to-fine operator: selected even sizes of 2 to 48 fine cells')
def _(c):
    m = c[0]
    c.requires(and_(lt(I(0), m), lt(m, I(2 ** 30)), eq(imod(m, I(2)), I(0))))
    n = idiv(m, I(2))
    c.setthis(mkMatrix(2 * n, n, coarse2fine(n)))
