"""Elementary index formulas of the library functions the code uses.

Not properties of fbs: each obligation is proved for the assumed contract of the function (symbolic side) and evaluated on the
installed library (concrete side), so the two agree with the same written formula.   python3 check.py LIB"""
from vp.api import case
from contracts.lib import total

T = []


def inp(S):
    n, m, p = S.size('n', 2), S.size('m', 2), S.size('p', 1)
    return n, m, p, S.array('a', (n, m)), S.array('b', (m, p)), S.array('x', (n,)), S.array('y', (n,))


@case('LIB', 'elementwise', targets=T)
def _(S):
    n, m, p, a, b, x, y = inp(S)
    J = S.jnp
    W = lambda f: (lambda X: X.build((n,), f))
    S.same('maximum', lambda L: J.maximum(x, y), W(lambda i: J.where(x[i] < y[i], y[i], x[i])))
    S.same('minimum', lambda L: J.minimum(x, y), W(lambda i: J.where(x[i] < y[i], x[i], y[i])))
    S.same('clip', lambda L: J.clip(x, -0.5, 0.5), W(lambda i: J.where(x[i] < -0.5, -0.5, J.where(x[i] > 0.5, 0.5, x[i]))))
    S.same('abs', lambda L: J.abs(x), W(lambda i: J.where(x[i] < 0, -x[i], x[i])))
    S.same('square', lambda L: J.square(x), W(lambda i: x[i] * x[i]))
    S.same('sign', lambda L: J.sign(x) * J.abs(x), W(lambda i: x[i]))
    S.same('exp-sum', lambda L: J.exp(x + y), W(lambda i: J.exp(x[i]) * J.exp(y[i])))
    S.same('log-product', lambda L: J.log(J.exp(x) * J.exp(y)), W(lambda i: x[i] + y[i]))
    S.same('sqrt-square', lambda L: J.sqrt(x ** 2), W(lambda i: J.abs(x[i])))
    S.same('where', lambda L: J.where(x < y, x, 2.), W(lambda i: J.where(x[i] < y[i], x[i], 2.)))
    S.same('broadcast', lambda L: x[:, None] * y[None, :] + 1., lambda X: X.build((n, n), lambda i, j: x[i] * y[j] + 1.))
    S.same('expm1', lambda L: J.expm1(x) + 1., W(lambda i: J.exp(x[i])))
    S.same('log1p', lambda L: J.log1p(x ** 2), W(lambda i: J.log(1. + x[i] * x[i])))
    S.same('reciprocal', lambda L: J.reciprocal(1. + x ** 2), W(lambda i: 1. / (1. + x[i] * x[i])))
    S.same('select', lambda L: S.jax.lax.select(x < y, x, y), W(lambda i: J.where(x[i] < y[i], x[i], y[i])))
    S.same('logaddexp', lambda L: J.logaddexp(x, y), W(lambda i: J.log(J.exp(x[i]) + J.exp(y[i]))))
    S.same('sigmoid', lambda L: S.jax.nn.sigmoid(x), W(lambda i: 1. / (1. + J.exp(-x[i]))))


@case('LIB', 'reductions', targets=T)
def _(S):
    n, m, p, a, b, x, y = inp(S)
    J = S.jnp
    S.same('sum', lambda L: J.sum(a), lambda X: total(X, (n, m), lambda i: a[i]))
    S.same('sum-axis', lambda L: J.sum(a, axis=0), lambda X: X.build((m,), lambda j: X.sum(n, lambda i: a[i, j])))
    S.same('sum-last', lambda L: J.sum(a, axis=-1), lambda X: X.build((n,), lambda i: X.sum(m, lambda j: a[i, j])))
    S.same('sum-keep', lambda L: J.sum(a, axis=1, keepdims=True), lambda X: X.build((n, 1), lambda i, k: X.sum(m, lambda j: a[i, j])))
    S.same('mean', lambda L: J.mean(a, axis=0), lambda X: X.build((m,), lambda j: X.sum(n, lambda i: a[i, j]) / n))
    S.same('mean-all', lambda L: J.mean(a), lambda X: total(X, (n, m), lambda i: a[i]) / (n * m))
    mu = lambda X, j: X.sum(n, lambda i: a[i, j]) / n
    S.same('var', lambda L: J.var(a, axis=0), lambda X: X.build((m,), lambda j: X.sum(n, lambda i: (a[i, j] - mu(X, j)) ** 2) / n))
    S.same('std', lambda L: J.std(a, axis=0), lambda X: X.build((m,), lambda j: J.sqrt(X.sum(n, lambda i: (a[i, j] - mu(X, j)) ** 2) / n)))
    S.same('nansum', lambda L: J.nansum(x), lambda X: X.sum(n, lambda i: x[i]))
    S.same('logsumexp', lambda L: S.jax.scipy.special.logsumexp(x), lambda X: J.log(X.sum(n, lambda i: J.exp(x[i]))))
    S.same('logsumexp-axis', lambda L: S.jax.scipy.special.logsumexp(a, axis=1), lambda X: X.build((n,), lambda i: J.log(X.sum(m, lambda j: J.exp(a[i, j])))))
    S.same('cumsum', lambda L: J.cumsum(x), lambda X: X.build((n,), lambda i: X.sum(i + 1, lambda k: x[k])))
    S.same('cumsum-axis', lambda L: J.cumsum(a, axis=0), lambda X: X.build((n, m), lambda i, j: X.sum(i + 1, lambda k: a[k, j])))
    S.ensure('max', lambda L: J.max(x) - x, lambda X, d: d >= 0)
    S.ensure('min', lambda L: x - J.min(x), lambda X, d: d >= 0)
    S.same('softmax', lambda L: S.jax.nn.softmax(x), lambda X: X.build((n,), lambda i: J.exp(x[i]) / X.sum(n, lambda k: J.exp(x[k]))))


@case('LIB', 'shapes', targets=T)
def _(S):
    n, m, p, a, b, x, y = inp(S)
    J = S.jnp
    c = S.array('c', (n, m, p))
    S.same('reshape-split', lambda L: J.reshape(J.reshape(a, (n * m,)), (n, m)), lambda X: a)
    S.same('reshape-rows', lambda L: J.reshape(a, (-1,)), lambda X: X.build((n * m,), lambda k: a[k // m, k % m]))
    S.same('reshape-merge', lambda L: J.reshape(c, (n, -1)), lambda X: X.build((n, m * p), lambda i, k: c[i, k // p, k % p]))
    S.same('ravel', lambda L: J.ravel(a), lambda X: X.build((n * m,), lambda k: a[k // m, k % m]))
    S.same('expand', lambda L: J.expand_dims(a, 1), lambda X: X.build((n, 1, m), lambda i, k, j: a[i, j]))
    S.same('squeeze', lambda L: J.squeeze(a[:, None], 1), lambda X: a)
    S.same('transpose', lambda L: a.T, lambda X: X.build((m, n), lambda i, j: a[j, i]))
    S.same('transpose-axes', lambda L: J.transpose(c, (2, 0, 1)), lambda X: X.build((p, n, m), lambda k, i, j: c[i, j, k]))
    S.same('moveaxis', lambda L: J.moveaxis(c, 0, -1), lambda X: X.build((m, p, n), lambda j, k, i: c[i, j, k]))
    S.same('swapaxes', lambda L: J.swapaxes(c, 0, 1), lambda X: X.build((m, n, p), lambda j, i, k: c[i, j, k]))
    S.same('concatenate', lambda L: J.concatenate([x, y]), lambda X: X.build((2 * n,), lambda i: J.where(i < n, x[J.minimum(i, n - 1)], y[J.maximum(i - n, 0)])))
    S.same('concatenate-last', lambda L: J.concatenate([a, a[:, :1]], axis=-1), lambda X: X.build((n, m + 1), lambda i, j: J.where(j < m, a[i, J.minimum(j, m - 1)], a[i, 0])))
    S.same('vstack', lambda L: J.vstack([x, y]), lambda X: X.build((2, n), lambda k, i: J.where(k == 0, x[i], y[i])))
    S.same('hstack', lambda L: J.hstack([x, y]), lambda X: J.concatenate([x, y]))
    S.same('stack', lambda L: J.stack([x, y], axis=1), lambda X: X.build((n, 2), lambda i, k: J.where(k == 0, x[i], y[i])))
    S.same('dstack', lambda L: J.dstack([a, a * 2]), lambda X: X.build((n, m, 2), lambda i, j, k: (1. + k) * a[i, j]))
    S.same('tile', lambda L: J.tile(x, 2), lambda X: X.build((2 * n,), lambda i: x[i % n]))
    S.same('repeat', lambda L: J.repeat(x, 2), lambda X: X.build((2 * n,), lambda i: x[i // 2]))
    S.same('broadcast-to', lambda L: J.broadcast_to(x, (p, n)), lambda X: X.build((p, n), lambda k, i: x[i]))
    S.same('flip', lambda L: J.flip(x), lambda X: X.build((n,), lambda i: x[n - 1 - i]))
    S.same('slice-step', lambda L: x[::-1], lambda X: X.build((n,), lambda i: x[n - 1 - i]))
    S.same('slice', lambda L: x[1:], lambda X: X.build((n - 1,), lambda i: x[i + 1]))
    S.same('slice-last', lambda L: x[:-1], lambda X: X.build((n - 1,), lambda i: x[i]))
    S.same('diff', lambda L: J.diff(x), lambda X: X.build((n - 1,), lambda i: x[i + 1] - x[i]))
    S.same('pad', lambda L: J.pad(x, (1, 0)), lambda X: X.build((n + 1,), lambda i: J.where(i == 0, 0., x[J.maximum(i - 1, 0)])))
    S.same('insert', lambda L: J.insert(x, 0, 3.), lambda X: X.build((n + 1,), lambda i: J.where(i == 0, 3., x[J.maximum(i - 1, 0)])))
    S.same('append', lambda L: J.append(x, 3.), lambda X: X.build((n + 1,), lambda i: J.where(i == n, 3., x[J.minimum(i, n - 1)])))
    S.same('array-split', lambda L: J.array_split(J.concatenate([x, y]), 2)[1], lambda X: y)
    S.same('meshgrid', lambda L: J.meshgrid(x, b[:, 0])[1], lambda X: X.build((m, n), lambda j, i: b[j, 0]))
    S.same('meshgrid-ij', lambda L: J.meshgrid(x, b[:, 0], indexing='ij')[0], lambda X: X.build((n, m), lambda i, j: x[i]))


@case('LIB', 'indexing', targets=T)
def _(S):
    n, m, p, a, b, x, y = inp(S)
    J = S.jnp
    k = S.index('k', n)
    ks = S.indexarr('ks', (m,), n)
    w = S.array('w', (n,), 'simplex')
    v = S.real('v', 'unit')
    S.same('gather', lambda L: x[ks], lambda X: X.build((m,), lambda j: x[ks[j]]))
    S.same('gather-rows', lambda L: a[ks], lambda X: X.build((m, m), lambda j, l: a[ks[j], l]))
    S.same('take', lambda L: J.take(x, ks), lambda X: X.build((m,), lambda j: x[ks[j]]))
    S.same('take-axis', lambda L: J.take(a, ks, axis=0), lambda X: X.build((m, m), lambda j, l: a[ks[j], l]))
    S.same('pairs', lambda L: a[ks, J.arange(m)], lambda X: X.build((m,), lambda j: a[ks[j], j]))
    S.same('set', lambda L: x.at[k].set(2.), lambda X: X.build((n,), lambda i: J.where(i == k, 2., x[i])))
    S.same('set-row', lambda L: a.at[k].set(b[:, 0]), lambda X: X.build((n, m), lambda i, j: J.where(i == k, b[j, 0], a[i, j])))
    S.same('set-column', lambda L: a.at[:, 0].set(x), lambda X: X.build((n, m), lambda i, j: J.where(j == 0, x[i], a[i, j])))
    S.same('roll', lambda L: J.roll(x, k), lambda X: X.build((n,), lambda i: x[(i - k) % n]))
    S.same('searchsorted', lambda L: J.searchsorted(J.cumsum(w), v),
           lambda X: X.sum(n, lambda l: J.where(X.sum(l + 1, lambda r: w[r]) < v, 1, 0)))
    S.same('ravel-multi-index', lambda L: J.ravel_multi_index((J.asarray(k), J.asarray(1)), (n, 3), mode='clip'), lambda X: k * 3 + 1)
    S.same('arange', lambda L: J.arange(n) * 2, lambda X: X.build((n,), lambda i: 2 * i))
    S.same('linspace', lambda L: J.linspace(v, 2., n), lambda X: X.build((n,), lambda i: v + i * (2. - v) / (n - 1)))
    S.same('eye', lambda L: J.eye(n), lambda X: X.build((n, n), lambda i, j: J.where(i == j, 1., 0.)))
    S.same('diag', lambda L: J.diag(x), lambda X: X.build((n, n), lambda i, j: J.where(i == j, x[i], 0.)))
    S.same('zeros', lambda L: J.zeros((n, 2)) + J.ones((n, 2)) + J.full((n, 2), v), lambda X: X.build((n, 2), lambda i, j: 1. + v))
    S.same('scan', lambda L: S.jax.lax.scan(lambda c, e: (c * v + e, c), 0., x)[1],
           lambda X: X.build((n,), lambda i: X.rec(n, J.asarray(0.), lambda j, c: c * v + x[j])[i]))
    S.same('fori', lambda L: S.jax.lax.fori_loop(0, n, lambda j, c: c * v + x[j], 0.), lambda X: X.rec(n, J.asarray(0.), lambda j, c: c * v + x[j])[n])
    S.same('cond', lambda L: S.jax.lax.cond(v < 0.5, lambda u: u, lambda u: 2 * u, x), lambda X: X.build((n,), lambda i: J.where(v < 0.5, x[i], 2 * x[i])))
    S.same('vmap', lambda L: S.jax.vmap(lambda r, s: r * s, in_axes=(0, None))(a, v), lambda X: X.build((n, m), lambda i, j: a[i, j] * v))
    S.same('vmap-out', lambda L: S.jax.vmap(lambda r: r * 2, in_axes=1, out_axes=1)(a), lambda X: 2 * a)


@case('LIB', 'linear-algebra', targets=T)
def _(S):
    n, m, p, a, b, x, y = inp(S)
    J, P_ = S.jnp, S.pdmat('P', S.size('q', 1))
    mv = S.array('z', (m,))
    S.same('matmul', lambda L: a @ b, lambda X: X.build((n, p), lambda i, k: X.sum(m, lambda j: a[i, j] * b[j, k])))
    S.same('dot', lambda L: J.dot(x, y), lambda X: X.sum(n, lambda i: x[i] * y[i]))
    S.same('matvec', lambda L: a @ mv, lambda X: X.build((n,), lambda i: X.sum(m, lambda j: a[i, j] * mv[j])))
    S.same('einsum', lambda L: J.einsum('ij,jk->ki', a, b), lambda X: X.build((p, n), lambda k, i: X.sum(m, lambda j: a[i, j] * b[j, k])))
    S.same('outer', lambda L: J.outer(x, mv), lambda X: X.build((n, m), lambda i, j: x[i] * mv[j]))
    S.same('trace', lambda L: J.trace(a @ a.T), lambda X: total(X, (n, m), lambda i: a[i] ** 2))
    S.same('cholesky', lambda L: S.jax.scipy.linalg.cholesky(P_, lower=True) @ S.jax.scipy.linalg.cholesky(P_, lower=True).T, lambda X: P_)
    S.same('cholesky-upper', lambda L: S.jax.scipy.linalg.cholesky(P_).T @ S.jax.scipy.linalg.cholesky(P_), lambda X: P_)
    S.same('inverse', lambda L: J.linalg.inv(P_) @ P_, lambda X: X.build(P_.shape, lambda i, j: J.where(i == j, 1., 0.)))
    S.same('solve', lambda L: P_ @ J.linalg.solve(P_, P_), lambda X: P_)
    S.same('cho-solve', lambda L: P_ @ S.jax.scipy.linalg.cho_solve(S.jax.scipy.linalg.cho_factor(P_), P_), lambda X: P_)
    S.same('eigh', lambda L: (lambda r: (r[1] * r[0]) @ r[1].T)(J.linalg.eigh(P_)), lambda X: P_)
    S.same('norm-logpdf', lambda L: S.jax.scipy.stats.norm.logpdf(x, y, 2.),
           lambda X: X.build((n,), lambda i: -0.5 * ((x[i] - y[i]) / 2.) ** 2 - J.log(2.) - 0.5 * J.log(2 * J.pi)))
    S.same('grad', lambda L: S.jax.grad(lambda u: J.sum(J.exp(u * y) + u ** 3))(x), lambda X: X.build((n,), lambda i: y[i] * J.exp(x[i] * y[i]) + 3 * x[i] ** 2))
    S.same('jacfwd', lambda L: S.jax.jacfwd(lambda u: a * u ** 2)(x[0]), lambda X: 2 * x[0] * a)
    S.same('trapezoid', lambda L: S.jax.scipy.integrate.trapezoid(x, y), lambda X: X.sum(n - 1, lambda i: 0.5 * (y[i + 1] - y[i]) * (x[i] + x[i + 1])))


@case('LIB', 'draws', targets=T)
def _(S):
    n = S.size('n', 2)
    w = S.array('w', (n,), 'simplex')
    J = S.jnp
    key = S.key()
    ks = lambda: S.jax.random.split(key, 2)
    S.same('uniform', lambda L: S.jax.random.uniform(key, (n,)), lambda X: X.uniform('u', (n,)))
    S.same('uniform-range', lambda L: S.jax.random.uniform(key, (n,), minval=-1., maxval=2.), lambda X: 3 * X.uniform('u', (n,)) - 1)
    S.same('normal', lambda L: S.jax.random.normal(key, (n,)), lambda X: X.normal('z', (n,)))
    S.same('split', lambda L: S.jax.random.normal(ks()[0]) * S.jax.random.uniform(ks()[1]), lambda X: X.normal('z', ()) * X.uniform('u', ()))
    S.same('choice', lambda L: S.jax.random.choice(key, n, p=w), lambda X: X.cat('c', w, ()))
    S.same('categorical', lambda L: S.jax.random.categorical(key, J.log(w)), lambda X: X.cat('c', w, ()))
    S.same('randint', lambda L: S.jax.random.randint(key, (2,), 0, n), lambda X: X.randint('i', n, (2,)))
    S.same('permutation', lambda L: S.jax.random.permutation(key, n), lambda X: X.perm('p', n, n))
    S.same('subset', lambda L: S.jax.random.choice(key, J.arange(n), (2,), replace=False), lambda X: X.perm('p', n, 2))
