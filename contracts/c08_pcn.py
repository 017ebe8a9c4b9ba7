from vp.api import case
from contracts.lib import dims

B = 'fbs.samplers.smc'


def proposal(S, rank):
    m = dims(S, 'm', rank)
    jnp = S.jnp
    delta = S.real('delta', 'pos')
    x = S.array('x', m)
    mean = S.array('mean', m)
    samp = S.func('sampler', lambda: m, key=True)
    key = S.key()

    def spec(X):
        b = 2 / (2 + delta)
        r1, r2 = samp(X.key('r1')), samp(X.key('r2'))
        return mean + b * (x - mean) + b * jnp.sqrt(delta / 2) * (r1 - mean) + jnp.sqrt(1 - b) * (r2 - mean)
    S.same('proposal', lambda L: L(B).pcn_proposal(key, delta, x, mean, lambda k: samp(k)), spec)

    def stationary(X):
        b = 2 / (2 + delta)
        return b ** 2 + (b * jnp.sqrt(delta / 2)) ** 2 + jnp.sqrt(1 - b) ** 2, jnp.asarray(1.)
    S.lemma('stationary', stationary)


def states(f, rank):
    return lambda S: f(S, rank)


for name, r in (('proposal', 1), ('proposal-path', 2)):
    case('C08', name, targets=[B + ':pcn_proposal'])(states(proposal, r))


@case('C08', 'gaussian', targets=[B + ':pcn_proposal'])
def _(S):
    """With standard normal reference draws the proposal is x' = mean + beta (x - mean) + noise of variance 1 - beta^2."""
    jnp = S.jnp
    m = S.size('m', 1)
    delta = S.real('delta', 'pos')
    x = S.array('x', (m,))
    mean = S.array('mean', (m,))
    key = S.key()

    def spec(X):
        b = 2 / (2 + delta)
        z1, z2 = X.normal('r1', (m,)), X.normal('r2', (m,))
        return mean + b * (x - mean) + b * jnp.sqrt(delta / 2) * z1 + jnp.sqrt(1 - b) * z2
    S.same('proposal', lambda L: L(B).pcn_proposal(key, delta, x, mean, lambda k: mean + S.jax.random.normal(k, (m,))), spec)

    def transition(X):
        # log pi(x) + log q(x, x') is symmetric in (x, x')
        b = 2 / (2 + delta)
        v = (b * jnp.sqrt(delta / 2)) ** 2 + (1 - b)
        y = S.array('y', (m,))

        def joint(p, q):
            return X.sum(m, lambda i: -0.5 * (p[i] - mean[i]) ** 2 - 0.5 * (q[i] - mean[i] - b * (p[i] - mean[i])) ** 2 / v)
        return joint(x, y), joint(y, x)
    S.lemma('reversible', transition)
