from vp.api import case
from contracts.lib_sde import sdes, make, M, NAMES


def common(which):
    def f(S):
        jnp = S.jnp
        D = sdes(S, which)
        args, s, t, r = D['args'], D['s'], D['t'], D['r']
        d = S.size('d', 1)
        x, x0, tgt = S.array('x', (d,)), S.array('x0', (d,)), S.array('target', (d,))
        sde = lambda L: make(L, which, args)
        disc = lambda L: L(M).make_linear_sde(sde(L))[0]
        F = lambda t, s: jnp.exp(D['ia'](t, s))
        Q = lambda t, s: D['var'] * (1 - F(t, s) ** 2)
        S.same('drift', lambda L: sde(L).drift(x, t), lambda X: X.build((d,), lambda i: D['a'](t) * x[i]))
        S.same('dispersion', lambda L: sde(L).dispersion(t) ** 2, lambda X: D['b2'](t))
        S.same('discretise', lambda L: disc(L)(t, s), lambda X: (F(t, s), Q(t, s)))
        # the pair (F, Q) solves the moment equations of the very drift and dispersion of the class
        S.same('mean-equation', lambda L: S.jax.grad(lambda t: disc(L)(t, s)[0])(t) - sde(L).drift(disc(L)(t, s)[0], t), lambda X: jnp.asarray(0.))
        S.same('variance-equation', lambda L: S.jax.grad(lambda t: disc(L)(t, s)[1])(t) - 2 * sde(L).drift(disc(L)(t, s)[1], t)
               - sde(L).dispersion(t) ** 2, lambda X: jnp.asarray(0.))
        S.same('initial', lambda L: disc(L)(s, s), lambda X: (jnp.asarray(1.), jnp.asarray(0.)))

        def chapman(L):
            h = disc(L)
            F1, Q1 = h(t, s)
            F2, Q2 = h(r, t)
            F3, Q3 = h(r, s)
            return F2 * F1 - F3, F2 ** 2 * Q1 + Q2 - Q3
        S.same('chapman-kolmogorov', chapman, lambda X: (jnp.asarray(0.), jnp.asarray(0.)))

        def stationary(L):
            F1, Q1 = disc(L)(t, s)
            return F1 ** 2 * D['var'] + Q1 - D['var']
        S.same('stationary', stationary, lambda X: jnp.asarray(0.))
        # score of N(x; F x0, Q)
        S.same('score', lambda L: L(M).make_linear_sde(sde(L))[1](x, t, x0, s),
               lambda X: X.build((d,), lambda i: -(x[i] - F(t, s) * x0[i]) / Q(t, s)))
        if which != 'Exp':
            S.same('mean', lambda L: sde(L).mean(t, s, x0), lambda X: X.build((d,), lambda i: F(t, s) * x0[i]))
            S.same('variance', lambda L: sde(L).variance(t, s), lambda X: Q(t, s))
            # h-transform: drift plus dispersion squared times the gradient of log N(target; F x, Q)
            S.same('bridge', lambda L: sde(L).bridge_drift(x, t, tgt, r),
                   lambda X: X.build((d,), lambda i: D['a'](t) * x[i] + D['b2'](t) * F(r, t) * (tgt[i] - F(r, t) * x[i]) / Q(r, t)))
    return f


for w in ('Const', 'LinLin', 'Exp'):
    case('C12', w, targets=[f'{M}:Stationary{NAMES[w]}LinearSDE.drift', f'{M}:Stationary{NAMES[w]}LinearSDE.dispersion', f'{M}:make_linear_sde.discretise_linear_sde',
                            f'{M}:make_linear_sde.cond_score_t_0'] +
         ([f'{M}:Stationary{NAMES[w]}LinearSDE.mean', f'{M}:Stationary{NAMES[w]}LinearSDE.variance', f'{M}:Stationary{NAMES[w]}LinearSDE.bridge_drift'] if w != 'Exp' else []) +
         ([f'{M}:StationaryLinLinearSDE.beta', f'{M}:StationaryLinLinearSDE.beta_integral'] if w == 'LinLin' else []))(common(w))


@case('C12', 'beta', targets=[f'{M}:StationaryLinLinearSDE.beta', f'{M}:StationaryLinLinearSDE.beta_integral'])
def _(S):
    jnp = S.jnp
    D = sdes(S, 'LinLin')
    bmin, bmax, t0, T = D['args']
    sde = lambda L: make(L, 'LinLin', D['args'])
    S.same('ends', lambda L: (sde(L).beta(t0), sde(L).beta(T)), lambda X: (bmin, bmax))
    S.same('integral', lambda L: S.jax.grad(lambda t: sde(L).beta_integral(t, D['s']))(D['t']) - sde(L).beta(D['t']), lambda X: jnp.asarray(0.))
    S.same('integral-empty', lambda L: sde(L).beta_integral(D['s'], D['s']), lambda X: jnp.asarray(0.))


@case('C12', 'image-shaped', targets=[f'{M}:StationaryLinLinearSDE.bridge_drift', f'{M}:StationaryConstLinearSDE.bridge_drift'])
def _(S):
    D = sdes(S, 'LinLin')
    h, w, c = S.size('h', 1), S.size('w', 1), S.size('c', 1)
    x, x0, tgt = S.array('x', (h, w, c)), S.array('x0', (h, w, c)), S.array('target', (h, w, c))
    jnp = S.jnp
    t, r, s = D['t'], D['r'], D['s']
    F = lambda t, s: jnp.exp(D['ia'](t, s))
    Q = lambda t, s: 1 - F(t, s) ** 2
    S.same('bridge', lambda L: make(L, 'LinLin', D['args']).bridge_drift(x, t, tgt, r),
           lambda X: X.build((h, w, c), lambda i, j, k: D['a'](t) * x[i, j, k] + D['b2'](t) * F(r, t) * (tgt[i, j, k] - F(r, t) * x[i, j, k]) / Q(r, t)))
    S.same('mean', lambda L: make(L, 'LinLin', D['args']).mean(t, s, x0), lambda X: X.build((h, w, c), lambda i, j, k: F(t, s) * x0[i, j, k]))


@case('C12', 'ou', targets=[f'{M}:make_ou_sde.discretise_ou_sde', f'{M}:make_ou_sde.cond_score_t_0'])
def _(S):
    jnp = S.jnp
    D = sdes(S, 'Const')
    a, b = D['args']
    t = D['t'] - D['s']
    d = S.size('d', 1)
    x, x0 = S.array('x', (d,)), S.array('x0', (d,))
    F = jnp.exp(a * t)
    Q = b ** 2 / (2 * a) * (jnp.exp(2 * a * t) - 1)
    S.same('discretise', lambda L: L(M).make_ou_sde(a, b)[0](t), lambda X: (F, Q))
    S.same('moment-equations', lambda L: (S.jax.grad(lambda t: L(M).make_ou_sde(a, b)[0](t)[0])(t) - a * L(M).make_ou_sde(a, b)[0](t)[0],
                                          S.jax.grad(lambda t: L(M).make_ou_sde(a, b)[0](t)[1])(t) - 2 * a * L(M).make_ou_sde(a, b)[0](t)[1] - b ** 2),
           lambda X: (jnp.asarray(0.), jnp.asarray(0.)))
    S.same('initial', lambda L: L(M).make_ou_sde(a, b)[0](0.), lambda X: (jnp.asarray(1.), jnp.asarray(0.)))
    S.same('score', lambda L: L(M).make_ou_sde(a, b)[1](x, t, x0), lambda X: X.build((d,), lambda i: -(x[i] - F * x0[i]) / Q))


@case('C12', 'unknown', targets=[f'{M}:make_linear_sde.discretise_linear_sde'])
def _(S):
    S.raises('unknown-model', lambda L: L(M).make_linear_sde(L(M).LinearSDE())[0](1., 0.), NotImplementedError)
