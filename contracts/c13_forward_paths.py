from vp.api import case
from contracts.lib_sde import sdes, make

M = 'fbs.sdes.linear'


def path_case(which, rank):
    def f(S):
        jnp = S.jnp
        D = sdes(S, which)
        K = S.size('K', 1)
        shape = tuple(S.size(c, 1) for c in 'dhw'[:rank])
        if which == 'LinLin':
            # times as increasing fractions of the interval
            fr = S.array('fr', (K + 1,), 'times')
            t0, T = D['args'][2], D['args'][3]
            ts = t0 + (T - t0) * jnp.exp(fr - fr[K] - 0.1)
        else:
            ts = S.array('ts', (K + 1,), 'times')
        x0 = S.array('x0', shape)
        key = S.key()
        F = lambda t, s: jnp.exp(D['ia'](t, s))
        Q = lambda t, s: D['var'] * (1 - F(t, s) ** 2)

        def path(X):
            z = X.normal('noise', (K,) + shape)
            return X.rec(K, x0, lambda k, x: F(ts[k + 1], ts[k]) * x + jnp.sqrt(Q(ts[k + 1], ts[k])) * z[k])

        def marginals(t0, X):
            z = X.normal('noise', (K + 1,) + shape)
            return X.build((K + 1,) + shape, lambda k, *q: F(ts[k], t0) * x0[q] + jnp.sqrt(Q(ts[k], t0)) * z[(k,) + q])

        if which == 'OU':
            a, b = D['args']
            sim = lambda L: L(M).make_ou_sde(a, b)[2]
        else:
            sim = lambda L: L(M).make_linear_sde(make(L, which, D['args']))[2]
        S.same('path', lambda L: sim(L)(key, x0, ts), path)
        S.same('marginals', lambda L: sim(L)(key, x0, ts, keep_path=False), lambda X: marginals(ts[0], X))
        if which != 'OU':
            S.same('marginals-from-t0', lambda L: sim(L)(key, x0, ts, t0=D['s'] if which == 'LinLin' else ts[0] - 0.5, keep_path=False),
                   lambda X: marginals(D['s'] if which == 'LinLin' else ts[0] - 0.5, X))

            def one(X):
                z = X.normal('noise', shape)
                return X.build(shape, lambda *q: F(D['t'], D['s']) * x0[q] + jnp.sqrt(Q(D['t'], D['s'])) * z[q])
            S.same('one-time', lambda L: sim(L)(key, x0, jnp.asarray(D['t']), t0=D['s'], keep_path=False), one)
        S.keys('keys', lambda L: sim(L)(key, x0, ts))
    return f


for w, rank in (('Const', 1), ('LinLin', 1), ('Exp', 1), ('LinLin', 3)):
    case('C13', f'{w}-rank{rank}', targets=[f'{M}:make_linear_sde.simulate_cond_forward'])(path_case(w, rank))


@case('C13', 'ou', targets=[f'{M}:make_ou_sde.simulate_cond_forward'])
def _(S):
    jnp = S.jnp
    D = sdes(S, 'Const')
    a, b = D['args']
    K, d = S.size('K', 1), S.size('d', 1)
    ts = S.array('ts', (K + 1,), 'times')
    x0 = S.array('x0', (d,))
    key = S.key()
    F = lambda dt: jnp.exp(a * dt)
    Q = lambda dt: b ** 2 / (2 * a) * (jnp.exp(2 * a * dt) - 1)
    sim = lambda L: L(M).make_ou_sde(a, b)[2]

    def path(X):
        z = X.normal('noise', (K, d))
        return X.rec(K, x0, lambda k, x: F(ts[k + 1] - ts[k]) * x + jnp.sqrt(Q(ts[k + 1] - ts[k])) * z[k])

    def marginals(X):
        z = X.normal('noise', (K + 1, d))
        return X.build((K + 1, d), lambda k, q: F(ts[k] - ts[0]) * x0[q] + jnp.sqrt(Q(ts[k] - ts[0])) * z[k, q])
    S.same('path', lambda L: sim(L)(key, x0, ts), path)
    S.same('marginals', lambda L: sim(L)(key, x0, ts, keep_path=False), marginals)
