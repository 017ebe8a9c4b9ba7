from vp.api import case
from contracts.lib import dims, logn

B = 'fbs.samplers.smc'


def model(S, rank=1):
    K, n, d, m = S.size('K', 1), S.size('n', 1), dims(S, 'd', rank), dims(S, 'm', rank)
    ts = S.array('ts', (K + 1,))
    par = S.real('par')
    trans = S.func('trans', lambda us, v, t, par: (n,) + d, key=True)
    g = S.func('g', lambda v, us, vp, tp, par: (n,), 'logw')
    res = S.func('resample', lambda w: (n,), kind='i', key=True, bounds=(0, n))
    return K, n, d, m, ts, par, trans, g, res


def funcs(M):
    K, n, d, m, ts, par, trans, g, res = M
    return (lambda us, v, t, k, par: trans(k, us, v, t, par=par), lambda v, us, vp, tp, par: g(v, us, vp, tp, par=par),
            lambda w, k: res(k, w))


def filt(X, M, vs, u0s):
    """weight, resample, move; the log likelihood estimate accumulates the log of the mean weight"""
    K, n, d, m, ts, par, trans, g, res = M
    jnp = X.jnp

    def step(k, st):
        us, ell = st
        lw = g(vs[k + 1], us, vs[k], ts[k], par=par)
        A = res(X.key('resample', k), jnp.exp(logn(X, lw)))
        up = X.build((n,) + d, lambda i, *q: us[(A[i],) + q])
        return trans(X.key('move', k), up, vs[k], ts[k], par=par), ell + X.logsumexp(lw) - jnp.log(n * 1.)
    us, ell = X.rec(K, (u0s, jnp.asarray(0.)), step)
    return us[K], ell[K]


def filter_step(S, rank):
    M = model(S, rank)
    K, n, d, m, ts, par, trans, g, res = M
    vs = S.array('vs', (K + 1,) + m)
    u0s = S.array('u0s', (n,) + d)
    key = S.key()
    f = funcs(M)
    S.same('estimate', lambda L: L(B).pmcmc_filter_step(key, vs, u0s, ts, f[0], f[1], f[2], n, par=par),
           lambda X: filt(X, M, vs, u0s))


class Sde:
    def __init__(self, mean):
        self.mean = mean


def kernel(S, rank):
    M = model(S, rank)
    K, n, d, m, ts, par, trans, g, res = M
    jnp = S.jnp
    uT = S.array('uT', d)
    ell = S.real('ell')
    ys = S.array('ys', (K + 1,) + m)
    y0 = S.array('y0', m)
    which = S.index('which', n)
    delta = S.real('delta', 'pos')
    fwd = S.func('fwd', lambda y: (K + 1,) + m, key=True)
    ref = S.func('ref', lambda v, n_: (n_,) + d, key=True)
    mean = S.func('mean', lambda t, t0, y: m)
    key = S.key()
    f = funcs(M)
    sde = Sde(lambda t, s, y: mean(t, s, y))

    def code(L, **kw):
        return L(B).pmcmc_kernel(key, uT, ell, ys, y0, ts, lambda k, y: fwd(k, y), sde, lambda k, v, n_: ref(k, v, n_), f[0], f[1], f[2], n,
                                 which_u=which, par=par, **kw)

    def mh(X, prop):
        vs = X.build((K + 1,) + m, lambda k, *q: prop[(K - k,) + q])
        u0s = ref(X.key('ref'), vs[0], n)
        us, pell = filt(X, M, vs, u0s)
        la = jnp.minimum(0., pell - ell)
        acc = X.uniform('accept', ()) < jnp.exp(la)
        return (jnp.where(acc, us[which], uT), jnp.where(acc, pell, ell), jnp.where(acc, prop, ys), jnp.exp(la), acc, pell, ell)

    S.same('independent', lambda L: code(L), lambda X: mh(X, fwd(X.key('prop'), y0)))

    def pcn(X):
        beta = 2 / (2 + delta)
        mu = X.build((K + 1,) + m, lambda k, *q: mean(ts[k], ts[0], y0)[q])
        r1, r2 = fwd(X.key('ref1'), y0), fwd(X.key('ref2'), y0)
        return mh(X, mu + beta * (ys - mu) + beta * jnp.sqrt(delta / 2) * (r1 - mu) + jnp.sqrt(1 - beta) * (r2 - mu))
    S.same('pcn', lambda L: code(L, delta=delta), pcn)


def states(f, rank):
    return lambda S: f(S, rank)


for suffix, rank in (('', 1), ('-image', 2)):
    case('C07', 'filter_step' + suffix, targets=[B + ':pmcmc_filter_step'])(states(filter_step, rank))
    case('C07', 'kernel' + suffix, targets=[B + ':pmcmc_kernel', B + ':pmcmc_filter_step', B + ':pcn_proposal'],
         weight=3)(states(kernel, rank))
