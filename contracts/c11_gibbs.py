from vp.api import case
from contracts.lib import dims, csmc_fwd, scan_spec, kill_cond, force_move, boot_spec, stratified, smooth_spec
from contracts.lib_sde import em

G = 'fbs.samplers.gibbs'


def model(S, rank=1):
    K, n, d, m, q = S.size('K', 1), S.size('n', 3), dims(S, 'd', rank), dims(S, 'm', rank), S.size('q', 1)
    ts = S.array('ts', (K + 1,), 'times')
    par = S.real('par')
    x0 = S.array('x0', d)
    y0 = S.array('y0', m)
    fwd = S.func('fwd', lambda x, y, par: (K + 1, q), key=True)
    ux = S.func('ux', lambda p, par: (K + 1,) + d)
    uy = S.func('uy', lambda p, par: (K + 1,) + m)
    trans = S.func('trans', lambda us, v, t, par: (us.shape[0],) + d, key=True)
    g = S.func('g', lambda v, us, vp, tp, par: (us.shape[0],), 'logw')
    tl = S.func('translogpdf', lambda x, us, v, t, par: (us.shape[0],), 'logw')
    return K, n, d, m, ts, par, x0, y0, fwd, ux, uy, trans, g, tl


def funcs(M):
    K, n, d, m, ts, par, x0, y0, fwd, ux, uy, trans, g, tl = M
    return dict(fwd_sampler=lambda k, x, y, par: fwd(k, x, y, par=par),
                unpack=lambda p, par: (ux(p, par=par), uy(p, par=par)),
                transition_sampler=lambda us, v, t, k, par: trans(k, us, v, t, par=par),
                transition_logpdf=lambda x, us, v, t, par: tl(x, us, v, t, par=par),
                likelihood_logpdf=lambda v, us, vp, tp, par: g(v, us, vp, tp, par=par))


def states(f, rank):
    return lambda S: f(S, rank)


class Obj:
    pass


def bridge(S, m):
    """a linear SDE, and the specification of the bridge between the end points of the noised observation"""
    bd = S.func('bridge_drift', lambda x, t, target, T: m)
    disp = S.func('disp', lambda t: (), pos=True)
    sde = Obj()
    sde.bridge_drift = lambda x, t, target, T: bd(x, t, target, T)
    sde.dispersion = lambda t: disp(t)

    def path(X, K, ts, a, b):
        p = em(X, K, 100, ts, a, lambda x, t: bd(x, t, b, ts[K]), disp, 'bridge')
        return X.build((K + 1,) + m, lambda k, *i: S.jnp.where(k == K, b[i], p[(k,) + i]))
    return sde, path


def bridge_case(S, rank):
    K, m = S.size('K', 1), dims(S, 'm', rank)
    ts = S.array('ts', (K + 1,), 'times')
    a, b = S.array('a', m), S.array('b', m)
    key = S.key()
    sde, path = bridge(S, m)
    S.same('path', lambda L: L(G).bridge_sampler(key, a, b, ts, sde), lambda X: path(X, K, ts, a, b))


for name, r in (('bridge-sampler', 1), ('bridge-sampler-image', 2)):
    case('C11', name, targets=[G + ':bridge_sampler'])(states(bridge_case, r))


def noised(S, marg_y, K, m):
    """the observation path handed to the smoother: the noised one, or a bridge between its end points (contract of bridge_sampler)"""
    if not marg_y:
        return None, lambda X, ts, py: py
    sde, path = bridge(S, m)
    B = S.func('bridge', lambda a, b, ts: (K + 1,) + m, key=True)
    S.callee(G + ':bridge_sampler', lambda key, a, b, ts, sde: B(key, a, b, ts))
    if S.symbolic:
        return sde, lambda X, ts, py: B(X.key('bridge'), py[0], py[K], ts)
    return sde, lambda X, ts, py: path(X, K, ts, py[0], py[K])


def kernel_case(explicit_backward, explicit_final, marg_y=False, rank=1):
    def f(S):
        M = model(S, rank)
        K, n, d, m, ts, par, x0, y0, fwd, ux, uy, trans, g, tl = M
        # with an explicit reference draw one particle is added to hold the retained path
        N = n
        n = N - 1 if explicit_final else N
        us_star = S.array('us_star', (K + 1,) + d)
        bs_star = S.indexarr('bs_star', (K + 1,), N)
        key = S.key()
        jnp = S.jnp
        sde, obs = noised(S, marg_y, K, m)
        res = S.func('killing', lambda w, i, j, c: (w.shape[0],), kind='i', key=True, bounds=(0, N))
        S.callee('fbs.samplers.csmc.resamplings:killing', lambda key, weights, i=0, j=0, conditional=True: res(key, weights, i, j, conditional))

        def code(L):
            return L(G).gibbs_kernel(key, x0, y0, us_star, bs_star, ts, sde=sde, nparticles=n, marg_y=marg_y,
                                     explicit_backward=explicit_backward, explicit_final=explicit_final, par=par, **funcs(M))

        def spec(X):
            path = fwd(X.key('fwd'), x0, y0, par=par)
            px, py = ux(path, par=par), obs(X, ts, uy(path, par=par))
            us = X.build((K + 1,) + d, lambda k, *j: px[(K - k,) + j])
            vs = X.build((K + 1,) + m, lambda k, *j: py[(K - k,) + j])
            if explicit_final:
                init = lambda: X.normal('init', (N,) + d)
                g0 = lambda u0: g(vs[0], u0, vs[1], ts[0], par=par)
            else:
                init = lambda: X.build((N,) + d, lambda i, *j: us[(0,) + j])
                g0 = lambda u0: -jnp.log(n * 1.) * jnp.ones(N)
            As, lws, uss = csmc_fwd(X, K, N, d, us, bs_star, vs, ts, init, g0,
                                    trans=lambda k, up, v, t: trans(X.key('move', k), up, v, t, par=par),
                                    g=lambda v, up, vp, tp: g(v, up, vp, tp, par=par),
                                    anc=lambda k, w, i, j: res(X.key('resample', k), w, i, j, True) if S.symbolic
                                    else kill_cond(X, N, w, i, j, k))
            if explicit_backward:
                idx = force_move(X, N, jnp.exp(lws[K]), bs_star[K])
                p2 = ux(fwd(X.key('refresh'), uss[K, idx], y0, par=par), par=par)
                us_next = X.build((K + 1,) + d, lambda k, *j: p2[(K - k,) + j])
                bs_next = X.randint('bs', n, (K + 1,))
            else:
                us_next, bs_next = scan_spec(X, K, N, d, As, uss, lws[K])
            return us_next[K], us_next, bs_next, bs_next != bs_star
        S.same('kernel', code, spec)
        S.keys('keys', code)
    return f


for eb in (True, False):
    for ef in (True, False):
        case('C11', f'kernel-{"refresh" if eb else "trace"}-{"reference" if ef else "delta"}', weight=3,
             targets=[G + ':gibbs_kernel'])(kernel_case(eb, ef))


case('C11', 'kernel-bridge', weight=3, targets=[G + ':gibbs_kernel'])(kernel_case(True, False, True))
case('C11', 'kernel-refresh-image', weight=3, targets=[G + ':gibbs_kernel'])(kernel_case(True, True, rank=2))
case('C11', 'kernel-trace-image', weight=3, targets=[G + ':gibbs_kernel'])(kernel_case(False, False, rank=2))


def init_case(method, with_x0, marg_y=False, rank=1):
    def f(S):
        M = model(S, rank)
        K, n, d, m, ts, par, x0, y0, fwd, ux, uy, trans, g, tl = M
        key = S.key()
        jnp = S.jnp
        sde, obs = noised(S, marg_y, K, m)

        def code(L):
            r = L(G).gibbs_init(key, y0, d, ts, sde=sde, nparticles=n, method=method, marg_y=marg_y,
                                x0=x0 if with_x0 else None, par=par, **funcs(M))
            return r if method != 'debug' else r[0]

        def spec(X):
            path = fwd(X.key('fwd'), x0 if with_x0 else jnp.zeros(d), y0, par=par)
            py = obs(X, ts, uy(path, par=par))
            vs = X.build((K + 1,) + m, lambda k, *j: py[(K - k,) + j])
            us, _ = boot_spec(X, K, n, d, X.normal('init', (n,) + d),
                              move=lambda k, us: trans(X.key('move', k), us, vs[k], ts[k], par=par),
                              g=lambda k, us: g(vs[k + 1], us, vs[k], ts[k], par=par),
                              anc=lambda k, w: stratified(X, n, w, k))
            if method == 'filter':
                p2 = ux(fwd(X.key('refresh'), us[K, 0], y0, par=par), par=par)
                return us[K, 0], X.build((K + 1,) + d, lambda k, *j: p2[(K - k,) + j])
            if method == 'debug':
                return us
            return us[K, 0], smooth_spec(X, K, n, d, us, vs, ts, lambda x, u, v, t: tl(x, u, v, t, par=par))
        S.same('init', code, spec)
        S.keys('keys', code)
    return f


for meth in ('filter', 'smoother', 'debug'):
    case('C11', f'init-{meth}', weight=2, targets=[G + ':gibbs_init'])(init_case(meth, meth != 'filter'))
case('C11', 'init-bridge', weight=2, targets=[G + ':gibbs_init'])(init_case('filter', True, True))
for meth in ('filter', 'smoother'):
    case('C11', f'init-{meth}-image', weight=2, targets=[G + ':gibbs_init'])(init_case(meth, meth != 'filter', rank=2))
case('C11', 'init-default-x0', weight=2, targets=[G + ':gibbs_init'])(init_case('filter', False))


@case('C11', 'init-unknown', targets=[G + ':gibbs_init'])
def _(S):
    M = model(S)
    key = S.key()
    S.raises('unknown-method', lambda L: L(G).gibbs_init(key, M[7], M[2], M[4], sde=None, nparticles=M[1], method='nope', marg_y=False,
                                                         par=M[5], **funcs(M)), ValueError)
