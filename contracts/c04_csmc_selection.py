from vp.api import case
from contracts.lib import csmc_model, dims, fwd_args, fwd_spec, scan_spec, sampling_spec

M_ = 'fbs.samplers.csmc.csmc'


def scanning(S, rank):
    K, n, d = S.size('K', 1), S.size('n', 2), dims(S, 'd', rank)
    xss = S.array('xss', (K + 1, n) + d)
    As = S.indexarr('As', (K, n), n)
    lw = S.array('lw', (n,), 'logw')
    key = S.key()
    S.same('trajectory', lambda L: L(M_).backward_scanning_pass(key, As, xss, lw),
           lambda X: scan_spec(X, K, n, d, As, xss, lw))
    S.ensure('lineage', lambda L: L(M_).backward_scanning_pass(key, As, xss, lw)[1],
             lambda X, bs: X.build((K,), lambda k: As[k, bs[k + 1]] == bs[k]))


def sampling(S, rank):
    K, n, d, m = S.size('K', 1), S.size('n', 2), dims(S, 'd', rank), dims(S, 'm', rank)
    uss = S.array('uss', (K + 1, n) + d)
    lws = S.array('lws', (K + 1, n), 'logw')
    vs = S.array('vs', (K + 1,) + m)
    ts = S.array('ts', (K + 1,))
    par = S.real('par')
    tl = S.func('translogpdf', (n,), 'logw')
    key = S.key()
    S.same('trajectory', lambda L: L(M_).backward_sampling_pass(key, lambda x, u, v, t, par: tl(x, u, v, t, par), vs, ts, uss, lws, par=par),
           lambda X: sampling_spec(X, K, n, d, uss, lws, vs, ts, lambda x, u, v, t: tl(x, u, v, t, par)))


def kernel(S, rank):
    M = csmc_model(S, rank)
    K, n, d, m, us_star, bs_star, vs, ts, par, init, g0, trans, g, res = M
    tl = S.func('translogpdf', (n,), 'logw')
    key = S.key()
    a = fwd_args(M)

    def code(L, backward):
        return L(M_).csmc_kernel(key, us_star, bs_star, vs, ts, a[0], a[1], a[2], lambda x, u, v, t, par: tl(x, u, v, t, par), a[3], a[4],
                                 n - 1, backward=backward, par=par)

    def spec_scan(X):
        As, lws, uss = fwd_spec(X, M)
        return scan_spec(X, K, n, d, As, uss, lws[K])

    def spec_back(X):
        As, lws, uss = fwd_spec(X, M)
        return sampling_spec(X, K, n, d, uss, lws, vs, ts, lambda x, u, v, t: tl(x, u, v, t, par))
    S.same('scanning', lambda L: code(L, False), spec_scan)
    S.same('sampling', lambda L: code(L, True), spec_back)


def states(f, rank):
    return lambda S: f(S, rank)


for suffix, rank in (('', 1), ('-image', 2)):
    case('C04', 'scanning' + suffix, targets=[M_ + ':backward_scanning_pass', M_ + ':barker_move', M_ + ':normalise'])(states(scanning, rank))
    case('C04', 'sampling' + suffix, targets=[M_ + ':backward_sampling_pass', M_ + ':barker_move', M_ + ':normalise'])(states(sampling, rank))
    case('C04', 'kernel' + suffix, targets=[M_ + ':csmc_kernel'], weight=3)(states(kernel, rank))


@case('C04', 'normalise', targets=[M_ + ':normalise'])
def _(S):
    n = S.size('n', 1)
    lw = S.array('lw', (n,))
    jnp = S.jnp
    S.ensure('sum', lambda L: L(M_).normalise(lw), lambda X, w: X.eq(jnp.sum(w), 1))
    S.ensure('nonnegative', lambda L: L(M_).normalise(lw), lambda X, w: w >= 0)
    S.ensure('proportional', lambda L: L(M_).normalise(lw),
             lambda X, w: X.build((n, n), lambda i, j: X.eq(w[i] * jnp.exp(lw[j]), w[j] * jnp.exp(lw[i]))))
    S.same('log', lambda L: L(M_).normalise(lw, log_space=True), lambda X: lw - jnp.log(X.sum(n, lambda i: jnp.exp(lw[i]))))
