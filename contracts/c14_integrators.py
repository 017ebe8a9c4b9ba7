from vp.api import case
from contracts.lib_sde import em
from contracts.lib import dims

M = 'fbs.sdes.simulators'


class Obj:
    pass


def grid(S, kind):
    K = S.size('K', 1)
    return K, S.array('ts', (K + 1,), kind)


def em_case(rank, kind, path, ns1=False):
    def f(S):
        K, ts = grid(S, kind)
        ns = 1 if ns1 else S.size('ns', 1)
        shape = tuple(S.size(c, 1) for c in 'dhw'[:rank])
        x0 = S.array('x0', shape)
        drift = S.func('drift', lambda x, t: shape)
        disp = S.func('disp', lambda t: (), pos=True)
        key = S.key()
        kw = {} if ns1 else dict(integration_nsteps=ns)

        def spec(X):
            p = em(X, K, ns, ts, x0, drift, disp)
            return p if path else p[K]
        S.same('path' if path else 'terminal',
               lambda L: L(M).euler_maruyama(key, x0, ts, lambda x, t: drift(x, t), lambda t: disp(t), return_path=path, **kw), spec)
        S.keys('keys', lambda L: L(M).euler_maruyama(key, x0, ts, lambda x, t: drift(x, t), lambda t: disp(t), return_path=path, **kw))
    return f


for rank in (1, 3):
    for kind in ('times', 'timesrev'):
        for path in (True, False):
            case('C14', f'euler-{"increasing" if kind == "times" else "decreasing"}-{"path" if path else "terminal"}-rank{rank}',
                 targets=[M + ':euler_maruyama'])(em_case(rank, kind, path))
case('C14', 'euler-default', targets=[M + ':euler_maruyama'])(em_case(1, 'times', True, ns1=True))


def reverse_case(S, rank):
    K, ts = grid(S, 'times')
    ns, d = S.size('ns', 1), dims(S, 'd', rank)
    u0 = S.array('u0', d)
    drift = S.func('drift', lambda x, t: d)
    score = S.func('score', lambda x, t: d)
    disp = S.func('disp', lambda t: (), pos=True)
    key = S.key()
    T = ts[K]

    def spec(X):
        # time reversal: minus the drift plus squared dispersion times score, at the mirrored time
        return em(X, K, ns, ts, u0, lambda u, t: -drift(u, T - t) + disp(T - t) ** 2 * score(u, T - t), lambda t: disp(T - t))[K]
    S.same('terminal', lambda L: L(M).reverse_simulator(key, u0, ts, lambda u, t: score(u, t), lambda u, t: drift(u, t), lambda t: disp(t),
                                                        integration_nsteps=ns), spec)
    S.same('one-step', lambda L: L(M).reverse_simulator(key, u0, ts, lambda u, t: score(u, t), lambda u, t: drift(u, t), lambda t: disp(t)),
           lambda X: em(X, K, 1, ts, u0, lambda u, t: -drift(u, T - t) + disp(T - t) ** 2 * score(u, T - t), lambda t: disp(T - t))[K])
    S.raises('unknown', lambda L: L(M).reverse_simulator(key, u0, ts, lambda u, t: score(u, t), lambda u, t: drift(u, t), lambda t: disp(t),
                                                         integrator='nope'), NotImplementedError)


def discrete_case(S, rank):
    K, ts = grid(S, 'times')
    d = dims(S, 'd', rank)
    x0 = S.array('x0', d)
    f = S.func('f', lambda x, t, s: d)
    q = S.func('q', lambda t, s: (), pos=True)
    key = S.key()

    def spec(X):
        z = X.normal('noise', (K,) + d)
        return X.rec(K, x0, lambda k, x: f(x, ts[k + 1], ts[k]) + q(ts[k + 1], ts[k]) * z[k])[K]
    S.same('terminal', lambda L: L(M).discrete_time_simulator(key, x0, ts, lambda x, t, s: f(x, t, s), lambda t, s: q(t, s)), spec)


def doob_case(replace, rank):
    def f(S):
        K, ts = grid(S, 'times')
        ns, d = S.size('ns', 1), dims(S, 'd', rank)
        x0, xT = S.array('x0', d), S.array('xT', d)
        bd = S.func('bridge_drift', lambda x, t, target, T: d)
        disp = S.func('disp', lambda t: (), pos=True)
        key = S.key()
        sde = Obj()
        sde.bridge_drift = lambda x, t, target, T: bd(x, t, target, T)
        sde.dispersion = lambda t: disp(t)
        jnp = S.jnp

        def spec(X):
            p = em(X, K, ns, ts, x0, lambda x, t: bd(x, t, xT, ts[K]), disp)
            return X.build((K + 1,) + d, lambda k, *q: jnp.where(k == K, xT[q], p[(k,) + q]) if replace else p[(k,) + q])
        S.same('path', lambda L: L(M).doob_bridge_simulator(key, sde, x0, xT, ts, integration_nsteps=ns, replace=replace), spec)
    return f


def states(f, rank):
    return lambda S: f(S, rank)


for rank in (1, 3):
    case('C14', f'reverse-rank{rank}', targets=[M + ':reverse_simulator', M + ':euler_maruyama'])(states(reverse_case, rank))
for rank in (1, 2):
    case('C14', f'discrete-rank{rank}', targets=[M + ':discrete_time_simulator'])(states(discrete_case, rank))
    for rp in (True, False):
        case('C14', f'bridge-{"pinned" if rp else "free"}-rank{rank}', targets=[M + ':doob_bridge_simulator'])(doob_case(rp, rank))
