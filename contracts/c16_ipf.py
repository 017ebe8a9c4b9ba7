from vp.api import case
from contracts.lib import total, vol

M = 'fbs.dsb.base'


def disc_case(S):
    K, n, d, p = S.size('K', 1), S.size('n', 1), S.size('d', 1), S.size('p', 1)
    x0s = S.array('x0s', (n, d))
    ks = S.array('ks', (K + 1,))
    gam = S.array('gammas', (K,), 'pos')
    param, sparam = S.array('param', (p,)), S.array('sparam', (p,))
    net = S.func('net', lambda x, k, p: (n, d))
    sim = S.func('sim', lambda x, k, p: (n, d))
    key = S.key()
    jnp = S.jnp

    def code(L):
        return L(M).ipf_loss_disc(param, sparam, x0s, ks, gam, lambda x, k, p: net(x, k, p), lambda x, k, p: sim(x, k, p), key)

    def spec(X):
        z = X.normal('noise', (K, n, d))
        x = X.rec(K, x0s, lambda k, x: sim(x, ks[k], sparam) + jnp.sqrt(gam[k]) * z[k])
        f0 = X.map(K, lambda k: sim(x[k], ks[k], sparam))
        f1 = X.map(K, lambda k: sim(x[k + 1], ks[k], sparam))
        b = X.map(K, lambda k: net(x[k + 1], ks[k + 1], param))
        return total(X, (K, n, d), lambda q: (b[q] - (x[(q[0] + 1,) + q[1:]] + f0[q] - f1[q])) ** 2) / (n * d)
    S.same('loss', code, spec)
    S.keys('keys', code)


case('C16', 'discrete', targets=[M + ':ipf_loss_disc'])(disc_case)


def cont_case(fn, rank, kind):
    def f(S):
        jnp = S.jnp
        K, n, p = S.size('K', 1), S.size('n', 1), S.size('p', 1)
        shape = (n,) + tuple(S.size(c, 1) for c in 'dhw'[:rank])
        x0s = S.array('x0s', shape)
        ts = S.array('ts', (K + 1,), kind)
        param, sparam = S.array('param', (p,)), S.array('sparam', (p,))
        b = S.func('b', lambda x, t, p: shape)
        f = S.func('f', lambda x, t, p: shape)
        disp = S.func('disp', lambda t: (), pos=True)
        key = S.key()

        def code(L):
            return getattr(L(M), fn)(key, param, sparam, x0s, ts, lambda x, t, p: b(x, t, p), lambda x, t, p: f(x, t, p), lambda t: disp(t))

        def spec(X):
            dt = X.build((K,), lambda k: jnp.abs(ts[k + 1] - ts[k]))
            z = X.normal('noise', (K,) + shape)
            x = X.rec(K, x0s, lambda k, x: x + f(x, ts[k], sparam) * dt[k] + jnp.sqrt(dt[k]) * disp(ts[k]) * z[k])
            f0 = X.map(K, lambda k: f(x[k], ts[k], sparam))
            f1 = X.map(K, lambda k: f(x[k + 1], ts[k], sparam))
            net = X.map(K, lambda k: b(x[k + 1], ts[k + 1], param))
            # mean matching of B(x) = x + b dt to x' + F(x) - F(x'), F(x) = x + f dt
            e = lambda q: net[q] * dt[q[0]] - ((x[q] + f0[q] * dt[q[0]]) - (x[(q[0] + 1,) + q[1:]] + f1[q] * dt[q[0]]))
            return total(X, (K,) + shape, lambda q: e(q) ** 2) / (K * vol(shape))
        S.same('loss', code, spec)
        S.keys('keys', code)
    return f


for fn in ('ipf_loss_cont', 'ipf_loss_cont_v'):
    for rank, kind in ((1, 'times'), (1, 'timesrev'), (3, 'times')):
        case('C16', f'{fn[9:]}-rank{rank}-{"increasing" if kind == "times" else "decreasing"}', targets=[f'{M}:{fn}'], weight=2)(cont_case(fn, rank, kind))
