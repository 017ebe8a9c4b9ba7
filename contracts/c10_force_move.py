from vp.api import case
from contracts.lib import force_move

G = 'fbs.samplers.gibbs'


@case('C10', 'force_move', targets=[G + ':force_move'])
def _(S):
    jnp = S.jnp
    n = S.size('n', 2)
    w = S.array('w', (n,), 'simplex')
    k = S.index('k', n)
    key = S.key()
    S.same('index', lambda L: L(G).force_move(key, w, k)[0], lambda X: force_move(X, n, w, k))

    def alpha(X):
        wk = w[k]
        thr = jnp.maximum(1 - jnp.exp(-n * 1.), 1 - 1e-12)
        tot = X.sum(n, lambda i: jnp.where(i == k, 0., w[i]) / (1 - wk) * jnp.minimum(1., (1 - wk) / (1 - w[i])))
        return jnp.where(wk < thr, jnp.clip(tot, 0., 1.), 0.)
    S.same('acceptance-probability', lambda L: jnp.where(w[k] < jnp.maximum(1 - jnp.exp(-n * 1.), 1 - 1e-12), L(G).force_move(key, w, k)[1], 0.), alpha)
    S.keys('keys', lambda L: L(G).force_move(key, w, k))


@case('C10', 'reversible', targets=[G + ':force_move'])
def _(S):
    """the forced move leaves the categorical law invariant: w_k P(k -> i) = w_i P(i -> k)"""
    jnp = S.jnp
    n = S.size('n', 2)
    w = S.array('w', (n,), 'simplex')
    k = S.index('k', n)
    i = S.index('i', n)
    S.assume(k != i)
    if not S.symbolic:
        S.assume((w[k] < 1) & (w[i] < 1))

    def flow(a, b):
        # accepted when u (1 - w_b) < 1 - w_a
        # u uniform: min(1, (1 - w_a) / (1 - w_b))
        p = (1 - w[a]) / jnp.maximum(1 - w[a], 1 - w[b])
        return w[a] * (w[b] / (1 - w[a])) * p
    S.lemma('detailed-balance', lambda X: (flow(k, i), flow(i, k)))
