"""Shared models and specification functions."""


def dims(S, name, rank, lo=1):
    """the shape of one state: `rank` axes, each of any size"""
    return tuple(S.size(f'{name}{i}' if i else name, lo) for i in range(rank))


def csmc_model(S, rank=1):
    K = S.size('K', 1)
    n = S.size('n', 2)
    d = dims(S, 'd', rank)
    m = dims(S, 'm', rank)
    us_star = S.array('us_star', (K + 1,) + d)
    bs_star = S.indexarr('bs_star', (K + 1,), n)
    vs = S.array('vs', (K + 1,) + m)
    ts = S.array('ts', (K + 1,))
    par = S.real('par')
    init = S.func('init', lambda n_: (n_,) + d, key=True)
    g0 = S.func('g0', lambda v0, u0, v1, par: (n,), 'logw')
    trans = S.func('trans', lambda us, v, t, par: (n,) + d, key=True)
    g = S.func('g', lambda v, us, vp, tp, par: (n,), 'logw')
    res = S.func('resample', lambda w, i, j, c: (n,), kind='i', key=True, bounds=(0, n))
    return K, n, d, m, us_star, bs_star, vs, ts, par, init, g0, trans, g, res


def fwd_args(M):
    K, n, d, m, us_star, bs_star, vs, ts, par, init, g0, trans, g, res = M
    return (lambda k, n_: init(k, n_), lambda v0, u0, v1, par: g0(v0, u0, v1, par=par),
            lambda us, v, t, k, par: trans(k, us, v, t, par=par), lambda v, us, vp, tp, par: g(v, us, vp, tp, par=par),
            lambda k, w, i, j, c: res(k, w, i, j, c))


def fwd_code(L, M, key):
    K, n, d, m, us_star, bs_star, vs, ts, par, init, g0, trans, g, res = M
    return L('fbs.samplers.csmc.csmc').forward_pass(key, us_star, bs_star, vs, ts, *fwd_args(M), n - 1, par=par)


def logn(X, lw):
    return lw - X.logsumexp(lw)


def csmc_fwd(X, K, n, d, us_star, bs_star, vs, ts, init, g0, trans, g, anc):
    """conditional SMC: resample conditionally on the reference lineage, move, re-insert the reference, weight"""
    jnp = X.jnp

    def put(us, k):
        return X.build((n,) + d, lambda p, *q: jnp.where(p == bs_star[k], us_star[(k,) + q], us[(p,) + q]))

    def A(lw, k):
        return anc(k, jnp.exp(lw), bs_star[k], bs_star[k + 1])

    u0 = put(init(), 0)
    lw0 = logn(X, g0(u0))

    def step(k, st):
        lw, us = st
        up = us[A(lw, k)]
        un = put(trans(k, up, vs[k], ts[k]), k + 1)
        return logn(X, g(vs[k + 1], up, vs[k], ts[k])), un
    lws, uss = X.rec(K, (lw0, u0), step)
    As = X.map(K, lambda k: A(lws[k], k))
    return As, lws, uss


def fwd_spec(X, M):
    K, n, d, m, us_star, bs_star, vs, ts, par, init, g0, trans, g, res = M
    return csmc_fwd(X, K, n, d, us_star, bs_star, vs, ts,
                    init=lambda: init(X.key('init'), n),
                    g0=lambda u0: g0(vs[0], u0, vs[1], par=par),
                    trans=lambda k, up, v, t: trans(X.key('move', k), up, v, t, par=par),
                    g=lambda v, up, vp, tp: g(v, up, vp, tp, par=par),
                    anc=lambda k, w, i, j: res(X.key('resample', k), w, i, j, True))


def scan_spec(X, K, n, d, As, xss, lw):
    """draw the last index from the final weights, then follow the ancestors"""
    jnp = X.jnp
    b = X.cat('last', jnp.exp(logn(X, lw)), ())
    r = X.rec(K, b, lambda j, r: As[K - 1 - j, r])        # r[j] is the index at time K - j
    bs = X.build((K + 1,), lambda k: r[K - k])
    return X.build((K + 1,) + d, lambda k, *q: xss[(k, r[K - k]) + q]), bs


def sampling_spec(X, K, n, d, uss, lws, vs, ts, tl):
    """backward simulation: B_k ~ Cat(w_k(i) p(x_{k+1} | u_k^i, v_k))"""
    jnp = X.jnp
    b = X.cat('last', jnp.exp(logn(X, lws[K])), ())

    def step(j, r):
        k = K - 1 - j
        x = uss[k + 1, r]
        lw = lws[k] + tl(x, uss[k], vs[k], ts[k])
        return X.cat('back', jnp.exp(logn(X, lw)), (), j)
    r = X.rec(K, b, step)
    bs = X.build((K + 1,), lambda k: r[K - k])
    return X.build((K + 1,) + d, lambda k, *q: uss[(k, r[K - k]) + q]), bs


def kill_base(X, n, w, *ctx):
    """unconditional killing: m survives when u_m w_max < w_m, else is replaced by a categorical draw"""
    jnp = X.jnp
    u = X.uniform('kill', (n,), *ctx)
    c = X.cat('replace', w, (n,), *ctx)
    return jnp.where(u * jnp.max(w) >= w, c, jnp.arange(n))


def kill_law(X, n, w, i):
    """law of the position J of the retained particle: P(J = m) = P(B_m = i) / sum_l P(B_l = i)"""
    jnp = X.jnp
    q = (1. - w / jnp.max(w)) / n
    others = X.sum(n, lambda m: jnp.where(m == i, 0., q[m]))
    return X.build((n,), lambda m: jnp.where(m == i, 1. - others, q[m]))


def kill_cond(X, n, w, i, j, *ctx):
    """conditional killing resampling: A_j = i"""
    jnp = X.jnp
    base = kill_base(X, n, w, *ctx)
    J = X.cat('shift', kill_law(X, n, w, i), (), *ctx)
    return X.build((n,), lambda m: jnp.where(m == j, i, base[(m - (j - J)) % n]))


def force_move(X, n, w, k):
    """propose an index other than k in proportion to the weights, accept with min(1, (1 - w_k) / (1 - w_i))"""
    jnp = X.jnp
    wk = w[k]
    thr = jnp.maximum(1 - jnp.exp(-n * 1.), 1 - 1e-12)
    p = X.build((n,), lambda i: jnp.where(wk < thr, jnp.where(i == k, 0., w[i]) / (1 - wk), 1. / n))
    i = X.cat('proposal', p, ())
    u = X.uniform('accept', ())
    return jnp.where(u * (1 - w[i]) < 1 - wk, i, k)


def inverse_cdf(X, n, w, v):
    """generalised inverse of the weight distribution at v: the number of partial sums strictly below v, capped"""
    jnp = X.jnp
    below = X.sum(n, lambda l: jnp.where(X.sum(l + 1, lambda r: w[r]) < v, 1, 0))
    return jnp.clip(below, 0, n - 1).astype(int)


def stratified(X, n, w, *ctx):
    u = X.uniform('strata', (n,), *ctx)
    return X.build((n,), lambda m: inverse_cdf(X, n, w, (m + u[m]) / n))


def boot_spec(X, K, n, dims, u0, move, g, anc):
    """bootstrap filter: particles move, are weighted by g (given where they came from) and are resampled"""
    jnp = X.jnp

    def step(k, st):
        us, nell = st
        mv = move(k, us)
        lw = g(k, us)
        w = jnp.exp(logn(X, lw))
        A = anc(k, w)
        return X.build((n,) + dims, lambda i, *q: mv[(A[i],) + q]), nell - (X.logsumexp(lw) - jnp.log(n * 1.))
    return X.rec(K, (u0, jnp.asarray(0.)), step)


def smooth_spec(X, K, n, d, us, vs, ts, tl):
    jnp = X.jnp

    def draw(j, x):
        k = K - 1 - j
        return X.cat('back', jnp.exp(logn(X, tl(x, us[k], vs[k], ts[k]))), (), j)
    last = us[K, X.randint('last', n, ())]
    r = X.rec(K, last, lambda j, x: us[K - 1 - j, draw(j, x)])
    return X.build((K + 1,) + d, lambda k, *q: r[(K - k,) + q])


def total(X, dims, f):
    """sum of f over a box"""
    if not dims:
        return f(())
    return X.sum(dims[0], lambda i: total(X, dims[1:], lambda q: f((i,) + q)))


def vol(shape):
    r = 1
    for s in shape:
        r = r * s
    return r
