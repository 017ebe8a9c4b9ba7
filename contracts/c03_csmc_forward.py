from vp.api import case
from contracts.lib import csmc_model, fwd_code, fwd_spec


def forward_case(rank):
    def f(S):
        M = csmc_model(S, rank)
        key = S.key()
        S.same('trajectory', lambda L: fwd_code(L, M, key), lambda X: fwd_spec(X, M))
        K, n, d, us_star, bs_star = M[0], M[1], M[2], M[4], M[5]
        S.ensure('reference-retained', lambda L: fwd_code(L, M, key)[2],
                 lambda X, uss: X.build((K + 1,) + d, lambda k, *q: X.eq(uss[(k, bs_star[k]) + q], us_star[(k,) + q])))
        S.ensure('weights-normalised', lambda L: fwd_code(L, M, key)[1],
                 lambda X, lws: X.build((K + 1,), lambda k: X.eq(X.jnp.sum(X.jnp.exp(lws[k])), 1)))
    return f


for name, rank in (('forward_pass', 1), ('forward_pass-image', 2)):
    case('C03', name, targets=['fbs.samplers.csmc.csmc:forward_pass', 'fbs.samplers.csmc.csmc:normalise'])(forward_case(rank))
