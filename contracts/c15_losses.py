from vp.api import case
from contracts.lib_sde import sdes, make
from contracts.lib import total, vol

M = 'fbs.sdes.linear'


def setup(S, rank, which):
    D = sdes(S, which)
    n = S.size('n', 1)
    K = S.size('K', 2)
    shape = tuple(S.size(c, 1) for c in 'dhw'[:rank])
    x0s = S.array('x0s', (n,) + shape)
    p = S.size('p', 1)
    param = S.array('param', (p,))
    if which == 'LinLin':
        t0, T = D['args'][2], D['args'][3]
    else:
        t0 = D['s']
        T = D['r']
    F = lambda t, s: S.jnp.exp(D['ia'](t, s))
    Q = lambda t, s: D['var'] * (1 - F(t, s) ** 2)
    if S.symbolic:
        # make_linear_sde is used through its contract (C12, C13): a discretisation, its score and a simulator of paths
        jnp = S.jnp
        Fu = S.func('F', lambda t, s: (), pos=True)
        Qu = S.func('Q', lambda t, s: (), pos=True)
        rest = S.func('path', lambda x0, ts: (ts.shape[0] - 1,) + tuple(x0.shape), key=True)
        onev = S.func('marginal', lambda x0, t, t0: x0.shape, key=True)

        def ew(f, t, s):
            t, s = jnp.asarray(t), jnp.asarray(s)
            if t.ndim:
                return S.jax.vmap(lambda a: ew(f, a, s))(t)
            if s.ndim:
                return S.jax.vmap(lambda a: ew(f, t, a))(s)
            return f(t, s)
        F, Q = (lambda t, s: ew(Fu, t, s)), (lambda t, s: ew(Qu, t, s))

        def simulate(key, x0, ts, t0=None, keep_path=True):
            if keep_path:
                return jnp.concatenate([x0[None], rest(key, x0, ts)], axis=0)
            return onev(key, x0, ts, t0)

        def contract(sde):
            return (lambda t, s: (F(t, s), Q(t, s))), (lambda x, t, x0, s: -(x - F(t, s) * x0) / Q(t, s)), simulate
        S.callee(f'{M}:make_linear_sde', contract)
        S.callee(f'{M}:make_ou_sde', lambda a, b: ((lambda t: (F(t, 0.), Q(t, 0.))), (lambda x, t, x0: -(x - F(t, 0.) * x0) / Q(t, 0.)), simulate))
        D['path'], D['one'] = rest, onev
    return D, n, K, shape, x0s, param, t0, T, F, Q


def times(X, K, t0, T, random, eps=1e-5):
    jnp = X.jnp
    if not random:
        return X.build((K + 1,), lambda k: t0 + k * (T - t0) / K)
    u = X.jnp.sort(t0 + eps + (T - t0 - eps) * X.uniform('times', (K - 1,)))
    return jnp.hstack([t0, u, T])


def paths(X, D, n, K, shape, x0s, ts, F, Q):
    jnp = X.jnp
    if 'path' in D:
        p = X.map(n, lambda i: D['path'](X.key('path', i), x0s[i], ts))
        return X.build((K + 1, n) + shape, lambda k, i, *q: jnp.where(k == 0, x0s[(i,) + q], p[(i, jnp.clip(k - 1, 0, K - 1)) + q]))
    z = X.normal('noise', (n, K) + shape)
    return X.rec(K, x0s, lambda k, x: X.build((n,) + shape, lambda i, *q: F(ts[k + 1], ts[k]) * x[(i,) + q]
                                              + jnp.sqrt(Q(ts[k + 1], ts[k])) * z[(i, k) + q]))


def loss_case(kind, which, rank, random):
    def f(S):
        D, n, K, shape, x0s, param, t0, T, F, Q = setup(S, rank, which)
        nn = S.func('nn', lambda xs, t, p: xs.shape)
        key = S.key()

        def code(L):
            loss = L(M).make_linear_sde_law_loss(make(L, which, D['args']), lambda x, t, p: nn(x, t, p), t0=t0, T=T, nsteps=K,
                                                 random_times=random, loss_type=kind)
            return loss(param, key, x0s)

        def spec(X):
            ts = times(X, K, t0, T, random)
            x = paths(X, D, n, K, shape, x0s, ts, F, Q)       # (K + 1, n, ...)
            net = X.map(K, lambda k: nn(x[k + 1], ts[k + 1], param))

            def err(k, i, q):
                e = net[(k, i) + q]
                if kind == 'score':
                    return (e + (x[(k + 1, i) + q] - F(ts[k + 1], ts[0]) * x0s[(i,) + q]) / Q(ts[k + 1], ts[0])) ** 2 * Q(ts[k + 1], ts[0])
                Fk = F(ts[k + 1], ts[k])
                if kind == 'ipf':
                    return (e - (x[(k + 1, i) + q] + Fk * x[(k, i) + q] - Fk * x[(k + 1, i) + q])) ** 2
                return (e + (x[(k + 1, i) + q] - Fk * x[(k, i) + q]) / Q(ts[k + 1], ts[k])) ** 2
            return total(X, (n, K) + shape, lambda z: err(z[1], z[0], z[2:])) / (n * K * vol(shape))
        S.same('loss', code, spec)
        S.keys('keys', code)
    return f


for kind in ('score', 'ipf', 'ipf-score'):
    for which, rank, random in (('LinLin', 1, True), ('Const', 1, False), ('Exp', 2, True)):
        case('C15', f'{kind}-{which}-rank{rank}-{"random" if random else "grid"}', weight=2,
             targets=[f'{M}:make_linear_sde_law_loss.loss_fn'])(loss_case(kind, which, rank, random))


def mem_case(which, rank, random):
    def f(S):
        jnp = S.jnp
        D, n, K, shape, x0s, param, t0, T, F, Q = setup(S, rank, which)
        n = S.size('n2', 2)
        x0s = S.array('x0s2', (n,) + shape)
        nn = S.func('nn', lambda xs, ts, p: xs.shape)
        key = S.key()

        def code(L):
            loss = L(M).make_linear_sde_law_loss(make(L, which, D['args']), lambda x, t, p: nn(x, t, p), t0=t0, T=T,
                                                 random_times=random, loss_type='score', save_mem=True)
            return loss(param, key, x0s)

        def spec(X):
            if random:
                u = jnp.sort(t0 + 1e-5 + (T - t0 - 1e-5) * X.uniform('times', (n - 1,)))
                ts = jnp.hstack([u, T])
            else:
                ts = X.build((n,), lambda k: t0 + (k + 1) * (T - t0) / n)
            z = X.normal('noise', (n,) + shape)
            x = X.map(n, lambda i: D['one'](X.key('path', i), x0s[i], ts[i], t0)) if S.symbolic else \
                X.build((n,) + shape, lambda i, *q: F(ts[i], t0) * x0s[(i,) + q] + jnp.sqrt(Q(ts[i], t0)) * z[(i,) + q])
            net = nn(x, ts, param)
            return total(X, (n,) + shape, lambda z: (net[z] + (x[z] - F(ts[z[0]], t0) * x0s[z]) / Q(ts[z[0]], t0)) ** 2
                         * Q(ts[z[0]], t0)) / (n * vol(shape))
        S.same('loss', code, spec)
        S.keys('keys', code)
    return f


for which, rank, random in (('LinLin', 1, True), ('LinLin', 3, True), ('Const', 1, False), ('Exp', 2, True)):
    case('C15', f'save-mem-{which}-rank{rank}-{"random" if random else "grid"}', weight=2,
         targets=[f'{M}:make_linear_sde_law_loss.loss_fn_save_mem'])(mem_case(which, rank, random))


@case('C15', 'unknown', targets=[f'{M}:make_linear_sde_law_loss.loss_fn'])
def _(S):
    D, n, K, shape, x0s, param, t0, T, F, Q = setup(S, 1, 'Const')
    nn = S.func('nn', lambda xs, t, p: xs.shape)
    key = S.key()
    for mem in (False, True):
        S.raises(f'unknown-{mem}', lambda L, mem=mem: L(M).make_linear_sde_law_loss(
            make(L, 'Const', D['args']), lambda x, t, p: nn(x, t, p), t0=t0, T=T, nsteps=K, loss_type='nope', save_mem=mem)(
                param, key, S.array('x2', (3,) + shape)), NotImplementedError)


def ou_case(random):
    def f(S):
        D, n, K, shape, x0s, param, t0, T, F, Q = setup(S, 1, 'Const')
        a, b = D['args']
        nn = S.func('nn', lambda xs, t, p: xs.shape)
        key = S.key()
        el = (lambda t, s: (t - s, 0.)) if S.symbolic else (lambda t, s: (t, s))

        def code(L):
            return L(M).make_ou_score_matching_loss(a, b, lambda x, t, p: nn(x, t, p), t0=t0, T=T, nsteps=K, random_times=random)(param, key, x0s)

        def spec(X):
            ts = times(X, K, t0, T, random, eps=0.)
            x = paths(X, D, n, K, shape, x0s, ts, F, Q)
            net = X.map(K, lambda k: nn(x[k + 1], ts[k + 1], param))
            return total(X, (n, K) + shape, lambda z: (net[z[1], z[0], z[2]] + (x[z[1] + 1, z[0], z[2]] - F(*el(ts[z[1] + 1], ts[0])) * x0s[z[0], z[2]])
                                                       / Q(*el(ts[z[1] + 1], ts[0]))) ** 2 * Q(*el(ts[z[1] + 1], ts[0]))) / (n * K * vol(shape))
        S.same('loss', code, spec)
        S.keys('keys', code)
    return f


for random in (True, False):
    case('C15', f'ou-{"random" if random else "grid"}', weight=2, targets=[f'{M}:make_ou_score_matching_loss.loss_fn'])(ou_case(random))


def mem_ipf(kind):
    def f(S):
        """the memory-saving variant of the path losses: one pair of times per sample"""
        jnp = S.jnp
        D, n, K, shape, x0s, param, t0, T, F, Q = setup(S, 1, 'LinLin')
        n = S.size('n2', 4)
        d = S.size('d2', 9)
        x0s = S.array('x0s2', (n, d))
        nn = S.func('nn', lambda xs, t, p: xs.shape)
        key = S.key()
        S.ensure('evaluates', lambda L: L(M).make_linear_sde_law_loss(make(L, 'LinLin', D['args']), lambda x, t, p: nn(x, t, p), t0=t0, T=T,
                                                                      loss_type=kind, save_mem=True)(param, key, x0s),
                 lambda X, r: jnp.isfinite(r))
    return f


for kind in ('ipf', 'ipf-score'):
    case('C15', f'save-mem-{kind}', bounded=True, targets=[])(mem_ipf(kind))
