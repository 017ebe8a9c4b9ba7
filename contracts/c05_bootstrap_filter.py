from vp.api import case
from contracts.lib import dims, logn

B = 'fbs.samplers.smc'


def model(S, rank=1):
    K, n, d, m = S.size('K', 1), S.size('n', 1), dims(S, 'd', rank), dims(S, 'm', rank)
    vs = S.array('vs', (K + 1,) + m)
    ts = S.array('ts', (K + 1,))
    par = S.real('par')
    init = S.func('init', lambda v0, n_: (n_,) + d, key=True)
    trans = S.func('trans', lambda us, v, t, par: (n,) + d, key=True)
    g = S.func('g', lambda v, us, vp, tp, par: (n,), 'logw')
    gp = S.func('gp', lambda v, us, vp, tp, par: (n,), pos=True)
    res = S.func('resample', lambda w: (n,), kind='i', key=True, bounds=(0, n))
    return K, n, d, m, vs, ts, par, init, trans, g, gp, res


def run(L, M, key, **kw):
    K, n, d, m, vs, ts, par, init, trans, g, gp, res = M
    f = gp if kw.get('log') is False else g
    return L(B).bootstrap_filter(lambda us, v, t, k, par: trans(k, us, v, t, par=par),
                                 lambda v, us, vp, tp, par: f(v, us, vp, tp, par=par), vs, ts,
                                 lambda k, v0, n_: init(k, v0, n_), key, n, lambda w, k: res(k, w), par=par, **kw)


def spec(X, M, log=True):
    """particles move, are weighted by the likelihood of the next observation given where they came from, and are
    resampled; the negative log likelihood accumulates -log of the mean weight"""
    K, n, d, m, vs, ts, par, init, trans, g, gp, res = M
    jnp = X.jnp
    u0 = init(X.key('init'), vs[0], n)

    def step(k, st):
        us, nell = st
        mv = trans(X.key('move', k), us, vs[k], ts[k], par=par)
        lw = g(vs[k + 1], us, vs[k], ts[k], par=par) if log else jnp.log(gp(vs[k + 1], us, vs[k], ts[k], par=par))
        w = jnp.exp(logn(X, lw))
        A = res(X.key('resample', k), w)
        return X.build((n,) + d, lambda i, *q: mv[(A[i],) + q]), nell - (X.logsumexp(lw) - jnp.log(n * 1.))
    return X.rec(K, (u0, jnp.asarray(0.)), step)


def last(S, rank):
    M = model(S, rank)
    key = S.key()

    def sp(X):
        us, nell = spec(X, M)
        return us[M[0]], nell[M[0]]
    S.same('filter', lambda L: run(L, M, key), sp)
    S.same('filter-explicit', lambda L: run(L, M, key, log=True, return_last=True), sp)


def path(S, rank):
    M = model(S, rank)
    key = S.key()

    def sp(X):
        us, nell = spec(X, M)
        return us, nell[M[0]]
    S.same('filter', lambda L: run(L, M, key, return_last=False), sp)


def states(f, rank):
    return lambda S: f(S, rank)


for suffix, rank in (('', 1), ('-image', 2)):
    case('C05', 'last' + suffix, targets=[B + ':bootstrap_filter'])(states(last, rank))
    case('C05', 'path' + suffix, targets=[B + ':bootstrap_filter'])(states(path, rank))


@case('C05', 'densities', targets=[B + ':bootstrap_filter'])
def _(S):
    M = model(S)
    key = S.key()

    def sp(X):
        us, nell = spec(X, M, log=False)
        return us[M[0]], nell[M[0]]
    S.same('filter', lambda L: run(L, M, key, log=False), sp)
