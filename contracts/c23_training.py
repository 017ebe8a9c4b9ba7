from vp.api import case

U = 'fbs.nn.utils'
B = 'fbs.nn.base'


class Opt:
    """an arbitrary optimiser"""
    def __init__(self, upd, st):
        self.upd, self.st = upd, st

    def update(self, g, s, p):
        return self.upd(g, s, p), self.st(g, s, p)


@case('C23', 'optimiser-step', targets=[U + ':make_optax_kernel'])
def _(S):
    jnp = S.jnp
    p, q, b, d = S.size('p', 1), S.size('q', 1), S.size('b', 1), S.size('d', 1)
    param, state, batch = S.array('param', (p,)), S.array('state', (q,)), S.array('batch', (b, d))
    upd, st = S.func('upd', lambda g, s, p_: (p,)), S.func('st', lambda g, s, p_: (q,))
    A, c = S.array('A', (p, p)), S.real('c')
    # a loss with a known gradient that depends on its extra arguments
    loss = lambda w, x, scale=1.: 0.5 * jnp.sum((A @ w) ** 2) * scale + jnp.sum(w) * jnp.sum(x)
    grad = lambda w, x, scale=1.: A.T @ (A @ w) * scale + jnp.sum(x)
    opt = Opt(upd, st)

    def spec(X):
        g = grad(param, batch, c)
        return param + upd(g, state, param), st(g, state, param), loss(param, batch, c)
    for jit in (True, False):
        S.same(f'jit={jit}', lambda L, jit=jit: L(U).make_optax_kernel(opt, loss, jit=jit)[0](param, state, batch, scale=c), spec)


@case('C23', 'moving-average', targets=[U + ':make_optax_kernel'])
def _(S):
    p = S.size('p', 1)
    ema, param, decay = S.array('ema', (p,)), S.array('param', (p,)), S.real('decay', 'unit')
    loss = lambda w: 0.
    f = lambda L, *a: L(U).make_optax_kernel(None, loss)[1](ema, param, *a)
    start, every, k = S.size('start', 1), S.size('every', 1), S.size('k', 0)
    avg = lambda X: X.build((p,), lambda i: decay * ema[i] + (1 - decay) * param[i])
    # before the start: the parameter itself
    S.same('before', lambda L: f(L, start - 1, start, every, decay), lambda X: param)
    # from the start on: averaged at the multiples of the period, unchanged in between
    S.same('multiple', lambda L: f(L, start * every, start, every, decay), avg)
    S.same('multiples', lambda L: f(L, (start + k) * every, start, every, decay), avg)
    S.same('between', lambda L: f(L, (start + k) * (every + 1) + 1, start, every + 1, decay), lambda X: ema)
    S.same('start', lambda L: f(L, 0, 0, every, decay), avg)


class Net:
    """an arbitrary network with parameters in a nested dictionary"""
    def __init__(self, S, out, calls=None):
        self.S, self.out, self.calls = S, out, calls

    def init(self, key, *xs):
        if self.calls is not None:
            self.calls.append((key,) + xs)
        return {'params': {'a': self.W, 'b': self.b}}

    def apply(self, p, *xs):
        return self.out(p['params']['a'], p['params']['b'], *xs)


def net(S, out, calls=None):
    n = Net(S, out, calls)
    k, l = S.size('k', 1), S.size('l', 1)
    n.W, n.b = S.array('W', (k, l)), S.array('bias', (k,))
    return n, k, l


@case('C23', 'space-time-network', targets=[B + ':make_st_nn'])
def _(S):
    jnp = S.jnp
    m, d, e, B_ = S.size('m', 1), S.size('d', 1), S.size('e', 1), S.size('B', 1)
    out = S.func('out', lambda W, b, x, t: (m, d, e))
    nn, k, l = net(S, out)
    x, t = S.array('x', (m, d, e)), S.array('t', (m,))
    v = S.array('v', (k * l + k,))
    key = S.key()
    mk = lambda L: L(B).make_st_nn(key, nn, (d, e), B_)
    # leaves in the order of their names
    S.same('parameters', lambda L: mk(L)[0], lambda X: jnp.concatenate([jnp.ravel(nn.W), nn.b]))
    W = lambda X: X.build((k, l), lambda i, j: v[i * l + j])
    b = lambda X: X.build((k,), lambda i: v[k * l + i])
    S.same('unravel', lambda L: (mk(L)[1](v)['params']['a'], mk(L)[1](v)['params']['b']), lambda X: (W(X), b(X)))
    S.same('forward', lambda L: mk(L)[2](x, t, v), lambda X: out(W(X), b(X), x, t))

    def inits(L):
        nn.calls = []
        L(B).make_st_nn(key, nn, (d, e), B_)
        return nn.calls[0][1:]
    S.same('initialisation-inputs', inits, lambda X: (jnp.ones((B_, d, e)), jnp.ones((B_,))))


@case('C23', 'network-with-time', targets=[U + ':make_nn_with_time'])
def _(S):
    jnp = S.jnp
    d, B_ = S.size('d', 1), S.size('B', 1)
    out = S.func('out', lambda W, b, x: (d,))
    nn, k, l = net(S, out)
    x, t, c = S.array('x', (d,)), S.real('t'), S.real('c')
    v = S.array('v', (k * l + k,))
    key = S.key()
    mk = lambda L: L(U).make_nn_with_time(nn, d, B_, c, key)
    S.same('parameters', lambda L: mk(L)[0], lambda X: jnp.concatenate([jnp.ravel(nn.W), nn.b]))
    S.same('forward', lambda L: mk(L)[2](x, t, v), lambda X: out(X.build((k, l), lambda i, j: v[i * l + j]), X.build((k,), lambda i: v[k * l + i]),
                                                              X.build((d + 1,), lambda i: jnp.where(i < d, x[jnp.minimum(i, d - 1)], t * c))))

    def inits(L):
        nn.calls = []
        L(U).make_nn_with_time(nn, d, B_, c, key)
        return nn.calls[0][1]
    S.same('initialisation-inputs', inits, lambda X: jnp.ones((B_, d + 1)))


@case('C23', 'time-embedding', targets=[B + ':sinusoidal_embedding'])
def _(S):
    jnp = S.jnp
    h = S.size('half', 2)
    t, P = S.real('t'), S.size('P', 2)
    # angular frequencies from 1 down to 1 / period, geometrically
    f = lambda X, P: X.build((h,), lambda i: jnp.exp(-jnp.log(P * 1.) * i / (h - 1)))
    both = lambda X, P: X.build((2 * h,), lambda i: jnp.where(i < h, jnp.sin(t * f(X, P)[jnp.minimum(i, h - 1)]), jnp.cos(t * f(X, P)[jnp.maximum(i - h, 0)])))
    S.same('embedding', lambda L: L(B).sinusoidal_embedding(t, 2 * h, 10_000), lambda X: both(X, 10_000))
    S.same('period', lambda L: L(B).sinusoidal_embedding(t, 2 * h, P), lambda X: both(X, P))
    S.same('default-period', lambda L: L(B).sinusoidal_embedding(t, 2 * h), lambda X: both(X, 10_000))
    S.same('default-size', lambda L: L(B).sinusoidal_embedding(t).shape, lambda X: (64,))
    S.raises('odd', lambda L: L(B).sinusoidal_embedding(t, 7), NotImplementedError)


@case('C23', 'pixel-shuffle', targets=[U + ':PixelShuffle'])
def _(S):
    n, h, w, c = S.size('n', 1), S.size('h', 1), S.size('w', 1), S.size('c', 1)
    for s in (2, 3):
        x = S.array(f'x{s}', (n, h, w, s * s * c))
        S.same(f'scale-{s}', lambda L, s=s, x=x: L(U).PixelShuffle(s).apply({}, x),
               lambda X, s=s, x=x: X.build((n, s * h, s * w, c), lambda b, i, j, k: x[b, i // s, j // s, ((i % s) * s + j % s) * c + k]))
