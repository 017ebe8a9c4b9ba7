from vp.api import case
from contracts.lib import kill_base, kill_law, kill_cond


def setup(S):
    n = S.size('n', 2)
    w = S.array('w', (n,), 'simplex')
    i = S.index('i', n)
    j = S.index('j', n)
    return n, w, i, j, S.key()


@case('C01', 'killing_conditional', targets=['fbs.samplers.csmc.resamplings:killing'])
def _(S):
    n, w, i, j, key = setup(S)
    jnp = S.jnp

    def spec(X):
        return kill_cond(X, n, w, i, j)

    S.same('indices', lambda L: L('fbs.samplers.csmc.resamplings').killing(key, w, i, j, True), spec)
    S.ensure('pinned', lambda L: L('fbs.samplers.csmc.resamplings').killing(key, w, i, j, True),
             lambda X, out: out[j] == i)
    S.ensure('range', lambda L: L('fbs.samplers.csmc.resamplings').killing(key, w, i, j, True),
             lambda X, out: (out >= 0) & (out < n))

    # exactness of the conditional law given A_j = i, from Bayes' rule over the uniform shift
    def law(X):
        wm = jnp.max(w)
        pB = X.build((n,), lambda m: jnp.where(m == i, w[i] / wm, 0.) + (1 - w[m] / wm) * w[i])   # P(B_m = i)
        return kill_law(X, n, w, i) * w[i], pB / n
    S.lemma('conditional-law', law)

    def marginal(X):
        wm = jnp.max(w)
        return X.sum(n, lambda m: (jnp.where(m == i, w[i] / wm, 0.) + (1 - w[m] / wm) * w[i])), n * w[i]
    S.lemma('unbiased', marginal)


@case('C01', 'killing_unconditional', targets=['fbs.samplers.csmc.resamplings:killing'])
def _(S):
    n, w, i, j, key = setup(S)
    S.same('indices', lambda L: L('fbs.samplers.csmc.resamplings').killing(key, w, i, j, False),
           lambda X: kill_base(X, n, w))


@case('C01', 'multinomial', targets=['fbs.samplers.csmc.resamplings:multinomial'])
def _(S):
    n, w, i, j, key = setup(S)
    jnp = S.jnp

    def spec(X):
        c = X.cat('draw', w, (n,))
        return X.build((n,), lambda m: jnp.where(m == j, i, c[m]))
    S.same('conditional', lambda L: L('fbs.samplers.csmc.resamplings').multinomial(key, w, i, j, True), spec)
    S.same('unconditional', lambda L: L('fbs.samplers.csmc.resamplings').multinomial(key, w, i, j, False),
           lambda X: X.cat('draw', w, (n,)))
    S.ensure('pinned', lambda L: L('fbs.samplers.csmc.resamplings').multinomial(key, w, i, j, True),
             lambda X, out: out[j] == i)


@case('C01', 'systematic', targets=['fbs.samplers.csmc.resamplings:systematic'])
def _(S):
    n, w, i, j, key = setup(S)
    jnp = S.jnp

    def spec(X):
        u = X.uniform('u', ())
        return X.build((n,), lambda m: X.sum(n, lambda l: jnp.where(X.sum(l + 1, lambda r: w[r]) < (m + u) / n, 1, 0)))
    S.same('unconditional', lambda L: L('fbs.samplers.csmc.resamplings').systematic(key, w, i, j, False), spec)
    S.raises('conditional-not-implemented', lambda L: L('fbs.samplers.csmc.resamplings').systematic(key, w, i, j, True),
             NotImplementedError)
