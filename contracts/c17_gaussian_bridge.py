from vp.api import case

M = 'fbs.sdes.linear'
U = 'fbs.utils'
FN = M + ':make_gaussian_bw_sb'
T = [FN + '.' + f for f in ('marginal_mean', 'marginal_cov', 'drift', 's', 'kappa', 'r', 'r_bar', 'rho')] + [FN]


def model(S):
    n = S.size('n', 1)
    return n, S.array('m0', (n,)), S.pdmat('C0', n), S.array('m1', (n,)), S.pdmat('C1', n), S.real('sig', 'pos')


def closed(S, X, Z):
    """Bunne, Hsieh, Cuturi, Krause (2023), Table 1, Brownian reference: the closed-form bridge between N(m0, C0) and N(m1, C1)"""
    jnp = S.jnp
    n, m0, A, m1, B, sig = Z
    root = lambda M_: jnp.real(S.jax.scipy.linalg.sqrtm(M_))
    eye = jnp.eye(n)
    R = root(A)
    D = root(4 * (R @ B @ R) + sig ** 4 * eye)
    C = 0.5 * (R @ D @ jnp.linalg.inv(R) - sig ** 2 * eye)
    mean = lambda t: X.build((n,), lambda i: (1 - t) * m0[i] + t * m1[i])
    cov = lambda t: X.build((n, n), lambda i, j: (1 - t) ** 2 * A[i, j] + t ** 2 * B[i, j] + t * (1 - t) * (C[i, j] + C[j, i] + sig ** 2 * eye[i, j]))
    # minus the drift of the linearised flow: S = P - Q^T - sig^2 t I
    s = lambda t: X.build((n, n), lambda i, j: t * B[i, j] + (1 - t) * C[i, j] - ((1 - t) * A[j, i] + t * C[j, i]) - sig ** 2 * t * eye[i, j])
    return mean, cov, s


def roots(S):
    S.callee(U + ':sqrtm', lambda M_, method='eigh': S.jnp.real(S.jax.scipy.linalg.sqrtm(M_)))


@case('C17', 'marginals', targets=T, weight=2)
def _(S):
    jnp = S.jnp
    Z = n, m0, A, m1, B, sig = model(S)
    t = S.real('t', 'unit')
    roots(S)
    sb = lambda L: L(M).make_gaussian_bw_sb(m0, A, m1, B, sig)
    S.same('mean', lambda L: sb(L)[0](t), lambda X: closed(S, X, Z)[0](t))
    S.same('covariance', lambda L: sb(L)[1](t), lambda X: closed(S, X, Z)[1](t))
    S.same('ends', lambda L: (sb(L)[0](0.), sb(L)[1](0.), sb(L)[0](1.), sb(L)[1](1.)), lambda X: (m0, A, m1, B))


@case('C17', 'drift', targets=T, weight=2)
def _(S):
    jnp = S.jnp
    Z = n, m0, A, m1, B, sig = model(S)
    t = S.real('t', 'unit')
    x = S.array('x', (n,))
    roots(S)

    def spec(X):
        mean, cov, s = closed(S, X, Z)
        mt, P, st = mean(t), jnp.linalg.inv(cov(t)), s(t)
        return X.build((n,), lambda i: X.sum(n, lambda k: X.sum(n, lambda l: st[k, i] * P[k, l] * (x[l] - mt[l]))) + m1[i] - m0[i])
    S.same('drift', lambda L: L(M).make_gaussian_bw_sb(m0, A, m1, B, sig)[2](x, t), spec)


@case('C17', 'defaults', targets=T)
def _(S):
    n, m0, A, m1, B, sig = model(S)
    t = S.real('t', 'unit')
    roots(S)
    S.same('unit-reference', lambda L: L(M).make_gaussian_bw_sb(m0, A, m1, B)[1](t), lambda X: closed(S, X, (n, m0, A, m1, B, 1.))[1](t))


@case('C17', 'moment-equations', targets=T, weight=2)
def _(S):
    jnp = S.jnp
    Z = n, m0, A, m1, B, sig = model(S)
    t = S.real('t', 'unit')
    roots(S)
    # the closed-form moments solve the moment equations of the linear drift: Sigma' = S + S^T + sig^2 I
    def code(L):
        return S.jax.jacfwd(L(M).make_gaussian_bw_sb(m0, A, m1, B, sig)[1])(t)

    def spec(X):
        s = closed(S, X, Z)[2](t)
        return s + s.T + sig ** 2 * jnp.eye(n)
    S.same('covariance-equation', code, spec)
    S.same('mean-equation', lambda L: S.jax.jacfwd(L(M).make_gaussian_bw_sb(m0, A, m1, B, sig)[0])(t), lambda X: X.build((n,), lambda i: m1[i] - m0[i]))


@case('C17', 'bridge-law', targets=T, bounded=True)
def _(S):
    jnp = S.jnp
    Z = n, m0, A, m1, B, sig = model(S)
    t = S.real('t', 'unit')
    x = S.array('x', (n,))
    roots(S)

    # the drift transports the marginals: with Jacobian J, J Sigma + Sigma J^T + sig^2 I = Sigma', and the mean moves along it
    def code(L):
        mean, cov, drift = L(M).make_gaussian_bw_sb(m0, A, m1, B, sig)
        J = S.jax.jacfwd(lambda x: drift(x, t))(x)
        P = cov(t)
        return J @ P + P @ J.T + sig ** 2 * jnp.eye(n) - S.jax.jacfwd(cov)(t), drift(mean(t), t) - S.jax.jacfwd(mean)(t)
    S.same('law', code, lambda X: (jnp.zeros((n, n)), jnp.zeros((n,))))


@case('C17', 'optimal', targets=T, bounded=True)
def _(S):
    jnp = S.jnp
    Z = n, m0, A, m1, B, sig = model(S)
    t = S.real('t', 'unit', lo=0.05, hi=0.95)
    x = S.array('x', (n,))

    # on the real code, roots included: a Schroedinger bridge drift is a gradient field
    def code(L):
        mean, cov, drift = L(M).make_gaussian_bw_sb(m0, A, m1, B, sig)
        J = S.jax.jacfwd(lambda x: drift(x, t))(x)
        return J - J.T
    S.same('gradient-field', code, lambda X: jnp.zeros((n, n)))
