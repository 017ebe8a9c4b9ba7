"""Linear SDE models of the contracts."""

M = 'fbs.sdes.linear'
NAMES = dict(Const='Const', LinLin='Lin', Exp='Exp')


def sdes(S, which):
    """(constructor arguments, a(t), b(t)^2, integral of a over [s, t]) of each model, with two times s < t (< r)"""
    jnp = S.jnp
    if which == 'LinLin':
        bmin, db = S.real('beta_min', 'pos', hi=2), S.real('dbeta', 'pos', hi=3)
        t0, D = S.real('t0', lo=-1, hi=1), S.real('D', 'pos', hi=3)
        bmax, T = bmin + db, t0 + D
        u1, u2, u3 = S.real('u1', 'unit'), S.real('u2', 'unit'), S.real('u3', 'unit')
        s = t0 + D * u1 * u2 * u3
        t = t0 + D * u1 * u2
        r = t0 + D * u1
        beta = lambda x: bmin + db * (x - t0) / D
        return dict(args=(bmin, bmax, t0, T), a=lambda x: -0.5 * beta(x), b2=beta,
                    ia=lambda t, s: -0.5 * (t - s) * (beta(t) + beta(s)) / 2, var=1., s=s, t=t, r=r)
    s = S.real('s', lo=-1, hi=1)
    t = s + S.real('dt', 'pos', hi=2)
    r = t + S.real('dr', 'pos', hi=2)
    a, b = -S.real('na', 'pos', hi=2), S.real('b', 'pos', hi=2)
    if which == 'Const':
        return dict(args=(a, b), a=lambda x: a, b2=lambda x: b ** 2, ia=lambda t, s: a * (t - s), var=-b ** 2 / (2 * a), s=s, t=t, r=r)
    c, z = S.real('c', 'pos', hi=2), S.real('z', lo=-1, hi=1)
    return dict(args=(a, b, c, z), a=lambda x: a * jnp.exp(c * (x - z)), b2=lambda x: b ** 2 * jnp.exp(c * (x - z)),
                ia=lambda t, s: a / c * (jnp.exp(c * (t - z)) - jnp.exp(c * (s - z))), var=-b ** 2 / (2 * a), s=s, t=t, r=r)


def make(L, which, args):
    return getattr(L(M), f'Stationary{NAMES[which]}LinearSDE')(*args)


def em(X, K, ns, ts, x0, drift, disp, name='noise'):
    """Euler-Maruyama with ns equal substeps on every interval"""
    jnp = X.jnp
    shape = x0.shape

    def outer(k, x):
        h = (ts[k + 1] - ts[k]) / ns
        z = X.normal(name, (ns,) + tuple(shape), k)

        def inner(j, y):
            t = ts[k] + j * h
            return y + drift(y, t) * jnp.abs(h) + disp(t) * jnp.sqrt(jnp.abs(h)) * z[j]
        return X.rec(ns, x, inner)[ns]
    return X.rec(K, x0, outer)
