"""Contracts of the matrix functions: uninterpreted functions of the whole matrix (given its meaning numerically in
evalnum.py), related to each other by the defining equations listed here.

  orthonormal eigenvectors, V diag(l) V^T = A; the logarithms of the diagonal of the Cholesky factor sum to half the log determinant
  (these two are the rewriting rules for sums in norm.py); inv and sqrtm of a symmetric matrix are symmetric;
  solve(A, B) = inv(A) B;  cho_solve(cho_factor(A), B) = inv(A) B;  cholesky/expm/sqrtm/eigh: one function of A each.
"""
from fractions import Fraction
from .terms import *
from .terms import const as C
from .sarray import A, asarray, Sum, contract_dim, dim_eq, dim_out
from .ctx import Unsupported, ShapeError
from . import fakejax as fj


def try_matmul(a, b):
    return None


def try_trace(x):
    return None


def _sq(x):
    if x.ndim != 2:
        raise Unsupported('batched matrix function')
    if not dim_eq(x.dims[0], x.dims[1]):
        raise ShapeError('square matrix expected')
    return x.dims[0]


def lam_of(x):
    vs = [fresh('s') for _ in x.dims]
    return lam(vs, x.dims, x.num(tuple(vs)))


def is_symmetric(x):
    """syntactically symmetric: x(i, j) and x(j, i) have the same normal form"""
    from . import norm as N
    i, j = fresh('s'), fresh('s')
    with fj.hyps([le(ZERO, i), le(ZERO, j), lt(i, x.dims[0]), lt(j, x.dims[1])]):
        return N.padd(N.norm(x.num((i, j))), N.pscale(N.norm(x.num((j, i))), -1)).zero()


def uf(name, x, dims, sym=False):
    """function of the whole matrix; with sym its symmetry is built into the result"""
    n = _sq(x)
    L = lam_of(x)
    if sym:
        return A(dims, lambda i: fn('M:' + name + '_s', L, i[0], i[1]), 'f', x.tag if x.tag == ('pd',) else None)
    return A(dims, lambda i: fn('M:' + name, L, *i), 'f')


def inv(x):
    n = _sq(x)
    return uf('inv', x, (n, n), is_symmetric(x))


def expm(x):
    n = _sq(x)
    return uf('expm', x, (n, n))


def sqrtm(x):
    n = _sq(x)
    return uf('sqrtm', x, (n, n), is_symmetric(x))


def is_diagonal(x):
    """every entry off the diagonal of a matrix of constant size simplifies to zero"""
    from . import norm as N
    n = x.dims[0]
    return isc(n) and all(i == j or N.norm(x.num((C(i), C(j)))).zero() for i in range(cval(n)) for j in range(cval(n)))


def cholesky(x, lower=True):
    n = _sq(x)
    if is_diagonal(x):
        return A((n, n), lambda i: ite(eq(i[0], i[1]), fj.sqrt(A((), lambda _: x.num((i[0], i[0])), 'f')).term(), C(Fraction(0))), 'f')
    c = uf('chol', x, (n, n))
    return c if lower else c.T


def det(x):
    return uf('det', x, ())


def slogdet(x):
    return uf('sdet', x, ()), uf('logdet', x, ())


def eigh(x):
    n = _sq(x)
    if x.tag != ('pd',) and not is_symmetric(x):
        raise Unsupported('eigh of a matrix that is not known to be symmetric')
    return uf('eigvalp' if x.tag == ('pd',) else 'eigval', x, (n,)), uf('eigvec', x, (n, n))


def solve(a, b):
    n = _sq(a)
    return fj.matmul(inv(a), b)


def cho_factor(x, lower=False, **kw):
    n = _sq(x)
    c = cholesky(x, lower)
    c.tag = ('cho', x)
    return c, lower


def cho_solve(cf, b):
    c, _ = cf
    if not (c.tag and c.tag[0] == 'cho'):
        raise Unsupported('cho_solve of an unknown factor')
    return solve(c.tag[1], b)


def solve_triangular(a, b, **kw):
    raise Unsupported('solve_triangular')


def mvn_logpdf(x, mean, cov):
    x = x - mean
    if x.ndim != 1:
        raise Unsupported('batched multivariate normal logpdf')
    n = dim_out(x.dims[0])
    q = fj.matmul(x, fj.matmul(inv(cov), x))
    return (q + slogdet(cov)[1] + n * fj.log(asarray(2) * A((), lambda _: fj.PI(), "f"))) * Fraction(-1, 2)
