from vp.api import case

U = 'fbs.utils'


@case('C18', 'sqrtm', targets=[U + ':sqrtm'])
def _(S):
    jnp = S.jnp
    n = S.size('n', 1)
    A = S.pdmat('A', n)
    r = lambda L: L(U).sqrtm(A)
    S.same('square', lambda L: r(L) @ r(L), lambda X: A)
    S.same('symmetric', lambda L: r(L) - r(L).T, lambda X: jnp.zeros((n, n)))
    S.same('other-method', lambda L: L(U).sqrtm(A, method='schur'), lambda X: jnp.real(S.jax.scipy.linalg.sqrtm(A)))


@case('C18', 'bures', targets=[U + ':bures_dist'])
def _(S):
    jnp = S.jnp
    n = S.size('n', 1)
    A, B = S.pdmat('A', n), S.pdmat('B', n)
    m0, m1 = S.array('m0', (n,)), S.array('m1', (n,))
    root = lambda M: jnp.real(S.jax.scipy.linalg.sqrtm(M))
    S.callee(U + ':sqrtm', lambda M, method='eigh': root(M))

    def spec(X):
        # squared 2-Wasserstein distance between Gaussians
        R = root(A)
        cross = root(X.build((n, n), lambda i, j: X.sum(n, lambda k: X.sum(n, lambda l: R[i, k] * B[k, l] * R[l, j]))))
        return X.sum(n, lambda i: (m0[i] - m1[i]) ** 2) + X.sum(n, lambda i: A[i, i] + B[i, i] - 2 * cross[i, i])
    S.same('distance', lambda L: L(U).bures_dist(m0, A, m1, B), spec)


@case('C18', 'kl', targets=[U + ':kl', U + ':_log_det'])
def _(S):
    jnp = S.jnp
    n = S.size('n', 1)
    A, B = S.pdmat('A', n), S.pdmat('B', n)
    m0, m1 = S.array('m0', (n,)), S.array('m1', (n,))
    if not S.symbolic and S.cfg % 4 == 2:
        # determinants outside the range of floats
        A, B, m0, m1 = A * 1e-200, B * 1e-200, m0 * 1e-100, m1 * 1e-100

    def spec(X):
        P = jnp.linalg.inv(B)
        ld = lambda M: jnp.linalg.slogdet(M)[1]
        tr = X.sum(n, lambda i: X.sum(n, lambda k: P[i, k] * A[k, i]))
        q = X.sum(n, lambda i: X.sum(n, lambda k: (m1[i] - m0[i]) * P[i, k] * (m1[k] - m0[k])))
        return 0.5 * (tr - n + q + ld(B) - ld(A))
    S.same('divergence', lambda L: L(U).kl(m0, A, m1, B), spec)


@case('C18', 'discretise', targets=[U + ':discretise_lti_sde'], assumes=['Van Loan (1978): the matrix fraction decomposition integrates exp(A s) gamma exp(A s)^T'])
def _(S):
    jnp = S.jnp
    n = S.size('n', 1)
    A = S.array('A', (n, n))
    G = S.pdmat('G', n)
    dt = S.real('dt', 'pos', hi=1.5)
    expm = S.jax.scipy.linalg.expm

    def spec(X):
        F = expm(A * dt)
        phi = X.build((2 * n, 2 * n), lambda i, j: jnp.where(i < n, jnp.where(j < n, A[jnp.minimum(i, n - 1), jnp.minimum(j, n - 1)],
                                                                               G[jnp.minimum(i, n - 1), jnp.maximum(j - n, 0)]),
                                                             jnp.where(j < n, 0., -A[jnp.maximum(j - n, 0), jnp.maximum(i - n, 0)])))
        E = expm(phi * dt)
        return F, X.build((n, n), lambda i, j: X.sum(n, lambda k: E[i, n + k] * F[j, k]))
    S.same('discretisation', lambda L: L(U).discretise_lti_sde(A, G, dt), spec)
