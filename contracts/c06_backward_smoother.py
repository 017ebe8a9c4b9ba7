from vp.api import case
from contracts.lib import dims, logn

B = 'fbs.samplers.smc'


def smoother(S, rank):
    K, n, d, m = S.size('K', 1), S.size('n', 2), dims(S, 'd', rank), dims(S, 'm', rank)
    us = S.array('us', (K + 1, n) + d)
    vs = S.array('vs', (K + 1,) + m)
    ts = S.array('ts', (K + 1,))
    par = S.real('par')
    extra = S.real('extra')
    tl = S.func('translogpdf', (n,), 'logw')
    key = S.key()

    def spec(X):
        def draw(j, x):
            k = K - 1 - j
            lw = tl(x, us[k], vs[k], ts[k], extra, par)
            return X.cat('back', X.jnp.exp(logn(X, lw)), (), j)
        last = us[K, X.randint('last', n, ())]
        r = X.rec(K, last, lambda j, x: us[K - 1 - j, draw(j, x)])
        return X.build((K + 1,) + d, lambda k, *q: r[(K - k,) + q])

    def code(L):
        return L(B).bootstrap_backward_smoother(key, us, vs, ts, lambda x, u, v, t, e, par: tl(x, u, v, t, e, par), extra, par=par)
    S.same('trajectory', code, spec)
    S.keys('keys', code)


def states(f, rank):
    return lambda S: f(S, rank)


for suffix, rank in (('', 1), ('-image', 2)):
    case('C06', 'smoother' + suffix, targets=[B + ':bootstrap_backward_smoother'])(states(smoother, rank))
