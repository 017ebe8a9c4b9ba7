from vp.api import case

R = 'fbs.samplers.resampling'


def setup(S, gen='simplex'):
    n = S.size('n', 1)
    w = S.array('w', (n,), gen)
    return n, w, S.key()


def inverse_cdf(X, n, w, v):
    """generalised inverse of the weight distribution at v: the number of partial sums strictly below v, capped"""
    jnp = X.jnp
    below = X.sum(n, lambda l: jnp.where(X.sum(l + 1, lambda r: w[r]) < v, 1, 0))
    return jnp.clip(below, 0, n - 1)


@case('C02', 'systematic', targets=[R + ':systematic', R + ':_systematic_or_stratified'])
def _(S):
    n, w, key = setup(S, 'weights')

    def spec(X):
        u = X.uniform('u', ())
        return X.build((n,), lambda m: inverse_cdf(X, n, w, (m + u) / n))
    S.same('indices', lambda L: L(R).systematic(w, key), spec)
    S.ensure('range', lambda L: L(R).systematic(w, key), lambda X, out: (out >= 0) & (out < n))


@case('C02', 'stratified', targets=[R + ':stratified', R + ':_systematic_or_stratified'])
def _(S):
    n, w, key = setup(S, 'weights')

    def spec(X):
        u = X.uniform('u', (n,))
        return X.build((n,), lambda m: inverse_cdf(X, n, w, (m + u[m]) / n))
    S.same('indices', lambda L: L(R).stratified(w, key), spec)
    S.ensure('range', lambda L: L(R).stratified(w, key), lambda X, out: (out >= 0) & (out < n))


@case('C02', 'multinomial', targets=[R + ':multinomial', R + ':_sorted_uniforms'])
def _(S):
    n, w, key = setup(S, 'weights')
    jnp = S.jnp

    def spec(X):
        u = X.uniform('u', (n + 1,))
        tot = X.sum(n + 1, lambda r: -jnp.log(u[r]))
        return X.build((n,), lambda m: inverse_cdf(X, n, w, X.sum(m + 1, lambda r: -jnp.log(u[r])) / tot))
    S.same('indices', lambda L: L(R).multinomial(w, key), spec)
    S.ensure('range', lambda L: L(R).multinomial(w, key), lambda X, out: (out >= 0) & (out < n))


@case('C02', 'killing', targets=[R + ':killing'])
def _(S):
    n, w, key = setup(S)
    jnp = S.jnp

    def spec(X):
        u = X.uniform('kill', (n,))
        c = X.cat('replace', w, (n,))
        return X.build((n,), lambda m: jnp.where(u[m] * jnp.max(w) < w[m], m, c[m]))
    S.same('indices', lambda L: L(R).killing(w, key), spec)
    S.ensure('range', lambda L: L(R).killing(w, key), lambda X, out: (out >= 0) & (out < n))

    # expected number of copies of particle i: survive with probability w_i / max w, else a categorical replacement
    def offspring(X):
        i = S.index('i_', n)
        wm = jnp.max(w)
        return X.sum(n, lambda m: (jnp.where(m == i, w[i] / wm, 0.) + (1 - w[m] / wm) * w[i])), n * w[i]
    S.lemma('unbiased', offspring)


@case('C02', 'average', targets=[R + ':_avg_n_nplusone'])
def _(S):
    n = S.size('n', 1)
    x = S.array('x', (n,))
    jnp = S.jnp
    S.same('values', lambda L: L(R)._avg_n_nplusone(x),
           lambda X: X.build((n + 1,), lambda m: 0.5 * jnp.where(m < n, x[jnp.minimum(m, n - 1)], 0.)
                             + 0.5 * jnp.where(m > 0, x[jnp.maximum(m - 1, 0)], 0.)))
