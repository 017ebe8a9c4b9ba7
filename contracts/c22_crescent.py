from vp.api import case

M = 'fbs.data.bayesian'
CR = M + ':Crescent'


def make(S, L, psi, xi, m=None, cov=None, diag=None):
    d = L(M).Crescent(10, psi=psi, xi=xi)
    if m is not None:
        d.m, d.cov = m, cov
    if diag is not None:
        d.cov_is_diag = diag
    return d


def pars(S):
    return S.real('psi', 'pos'), S.real('xi', 'pos')


def emission(psi):
    return lambda phi: phi[1] / psi + 0.5 * (phi[0] ** 2 + psi ** 2)


def logn(S, x, m, v):
    jnp = S.jnp
    return -0.5 * (x - m) ** 2 / v - 0.5 * jnp.log(2 * jnp.pi * v)


def prior_diag(S, phi, m=(0., 0.), v=(2., 1.)):
    return logn(S, phi[0], m[0], v[0]) + logn(S, phi[1], m[1], v[1])


@case('C22', 'sampler', targets=[CR + '.sampler', CR + '.emission', CR + '.__init__'])
def _(S):
    jnp = S.jnp
    psi, xi = pars(S)
    B = S.size('B', 1)
    key = S.key()

    def spec(X):
        z, e = X.normal('prior', (B, 2)), X.normal('noise', (B,))
        sd = (jnp.sqrt(jnp.asarray(2.)), 1.)
        xs = X.build((B, 2), lambda b, i: z[b, i] * jnp.where(i == 0, sd[0], sd[1]))
        return xs, X.build((B,), lambda b: emission(psi)(xs[b]) + jnp.sqrt(xi) * e[b])
    S.same('joint', lambda L: make(S, L, psi, xi).sampler(key, B), spec)


@case('C22', 'defaults', targets=[CR + '.sampler', CR + '.emission', CR + '.__init__'])
def _(S):
    B = S.size('B', 1)
    key = S.key()

    def spec(X):
        z, e = X.normal('prior', (B, 2)), X.normal('noise', (B,))
        xs = X.build((B, 2), lambda b, i: z[b, i] * S.jnp.where(i == 0, S.jnp.sqrt(S.jnp.asarray(2.)), 1.))
        return xs, X.build((B,), lambda b: emission(1.)(xs[b]) + e[b])
    S.same('joint', lambda L: L(M).Crescent().sampler(key, B), spec)


@case('C22', 'sampler-correlated', targets=[CR + '.sampler'])
def _(S):
    jnp = S.jnp
    psi, xi = pars(S)
    B = S.size('B', 1)
    m, cov = S.array('m', (2,)), S.pdmat('cov', 2)
    key = S.key()

    def spec(X):
        z, e = X.normal('prior', (B, 2)), X.normal('noise', (B,))
        # any square root of the covariance: the lower triangular one
        c = jnp.linalg.cholesky(cov)
        xs = X.build((B, 2), lambda b, i: m[i] + X.sum(2, lambda k: c[i, k] * z[b, k]))
        return xs, X.build((B,), lambda b: emission(psi)(xs[b]) + jnp.sqrt(xi) * e[b])
    S.same('joint', lambda L: make(S, L, psi, xi, m, cov, False).sampler(key, B), spec)


@case('C22', 'densities', targets=[CR + '.log_prior_pdf', CR + '.log_cond_pdf_likelihood'])
def _(S):
    jnp = S.jnp
    psi, xi = pars(S)
    phi, y = S.array('phi', (2,)), S.real('y')
    m, v = S.array('m', (2,)), S.array('v', (2,), 'pos')
    cov = S.pdmat('cov', 2)
    S.same('prior', lambda L: make(S, L, psi, xi).log_prior_pdf(phi), lambda X: prior_diag(S, phi))
    S.same('prior-diagonal', lambda L: make(S, L, psi, xi, m, jnp.diag(v)).log_prior_pdf(phi), lambda X: prior_diag(S, phi, m, v))
    S.same('prior-full', lambda L: make(S, L, psi, xi, m, cov, False).log_prior_pdf(phi),
           lambda X: S.jax.scipy.stats.multivariate_normal.logpdf(phi, m, cov))
    S.same('likelihood', lambda L: make(S, L, psi, xi).log_cond_pdf_likelihood(y, phi), lambda X: logn(S, y, emission(psi)(phi), xi))


@case('C22', 'score', targets=[CR + '.score'])
def _(S):
    jnp = S.jnp
    psi, xi = pars(S)
    xy = S.array('xy', (3,))

    def spec(X):
        r = (xy[2] - emission(psi)(xy)) / xi
        return jnp.stack([-xy[0] / 2 + r * xy[0], -xy[1] + r / psi, -r])
    S.same('gradient', lambda L: make(S, L, psi, xi).score(xy), spec)

    # and the gradient of the code's own joint density
    def own(L):
        d = make(S, L, psi, xi)
        g = S.jax.grad(lambda z: d.log_prior_pdf(z[:2]) + d.log_cond_pdf_likelihood(z[2], z[:2]))
        return d.score(xy) - g(xy)
    S.same('own-density', own, lambda X: jnp.zeros((3,)))


@case('C22', 'posterior', targets=[CR + '.posterior'], weight=2)
def _(S):
    jnp = S.jnp
    psi, xi = pars(S)
    a, b = S.size('a', 2), S.size('b', 2)
    g0, g1 = S.array('g0', (a,), 'times'), S.array('g1', (b,), 'times')
    y = S.real('y')
    mesh = lambda X: X.build((b, a, 2), lambda j, i, k: jnp.where(k == 0, g0[i], g1[j]))

    def spec(X):
        joint = X.build((b, a), lambda j, i: jnp.exp(prior_diag(S, (g0[i], g1[j])) + logn(S, y, emission(psi)((g0[i], g1[j])), xi)))
        inner = lambda j: X.sum(a - 1, lambda i: (joint[j, i] + joint[j, i + 1]) / 2 * (g0[i + 1] - g0[i]))
        ins = X.build((b,), inner)
        z = X.sum(b - 1, lambda j: (ins[j] + ins[j + 1]) / 2 * (g1[j + 1] - g1[j]))
        return X.build((b, a), lambda j, i: joint[j, i] / z)
    S.same('normalised-on-the-mesh', lambda L: make(S, L, psi, xi).posterior(jnp.dstack(jnp.meshgrid(g0, g1)), y), spec)


@case('C22', 'unpack', targets=[CR + '.unpack'])
def _(S):
    n = S.size('n', 1)
    xy, one = S.array('xy', (n, 3)), S.array('one', (3,))
    S.same('batch', lambda L: L(M).Crescent.unpack(xy), lambda X: (X.build((n, 2), lambda i, k: xy[i, k]), X.build((n,), lambda i: xy[i, 2])))
    S.same('single', lambda L: L(M).Crescent.unpack(one), lambda X: (X.build((2,), lambda k: one[k]), one[2]))
