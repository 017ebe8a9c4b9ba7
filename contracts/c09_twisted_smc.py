from vp.api import case
from contracts.lib import dims, logn

B = 'fbs.samplers.smc'


def twisted(S, rank):
    K, n, d, m = S.size('K', 1), S.size('n', 1), dims(S, 'd', rank), dims(S, 'm', rank)
    jnp = S.jnp
    y = S.array('y', m)
    ts = S.array('ts', (K + 1,))
    par = S.real('par')
    init = S.func('init', lambda n_: (n_,) + d, key=True)
    tl = S.func('translogpdf', (n,), 'logw')
    tw = S.func('twist', lambda y, xs, t, par: (n,), 'logw')
    prop = S.func('prop', lambda xs, t, y, par: (n,) + d, key=True)
    pl = S.func('proplogpdf', lambda x, xp, t, y, par: (n,))
    res = S.func('resample', lambda w: (n,), kind='i', key=True, bounds=(0, n))
    key = S.key()

    def code(L):
        return L(B).twisted_smc(key, y, ts, lambda k, n_: init(k, n_), lambda x, xp, t: tl(x, xp, t),
                                lambda y, x, t, par: tw(y, x, t, par=par), lambda k, x, t, y, par: prop(k, x, t, y, par=par),
                                lambda x, xp, t, y, par: pl(x, xp, t, y, par=par), lambda w, k: res(k, w), n, par=par)

    def spec(X):
        x0 = init(X.key('init'), n)
        p0 = tw(y, x0, ts[0], par=par)

        def step(k, st):
            xs, ps, lw = st
            A = res(X.key('resample', k), jnp.exp(lw))
            xa = X.build((n,) + d, lambda i, *q: xs[(A[i],) + q])
            xn = prop(X.key('prop', k), xa, ts[k + 1], y, par=par)
            pn = tw(y, xn, ts[k + 1], par=par)
            un = X.build((n,), lambda i: tl(xn, xa, ts[k + 1])[i] + pn[i] - pl(xn, xa, ts[k + 1], y, par=par)[i] - ps[A[i]])
            return xn, pn, logn(X, un)
        xs, ps, lw = X.rec(K, (x0, p0, logn(X, p0)), step)
        return xs[K], lw[K]
    S.same('particles', code, spec)
    S.ensure('weights-normalised', lambda L: code(L)[1], lambda X, lw: X.eq(jnp.sum(jnp.exp(lw)), 1))
    S.keys('keys', code)


def states(f, rank):
    return lambda S: f(S, rank)


for suffix, rank in (('', 1), ('-image', 2)):
    case('C09', 'twisted_smc' + suffix, targets=[B + ':twisted_smc'])(states(twisted, rank))
