from vp.api import case

M = 'fbs.data.images'
IM = M + ':Image'


def make(L, w, h, c, task='none', n=None, xs=None):
    d = object.__new__(L(M).Image)
    d.image_shape = (w, h, c)
    d.task = task
    if xs is not None:
        d.n, d.xs = n, xs
    return d


def side(S, name, r):
    """a side that is at least the rectangle"""
    return r + S.size(name, 0)


def painted(S, X, img, w, h, c, r, q):
    """the q-th of 4 x 4 rectangles, evenly spread over the image, set to zero"""
    jnp = S.jnp
    i, j = (w - r) * (q // 4) // 3, (h - r) * (q % 4) // 3
    hit = lambda x, y: (i <= x) & (x < i + r) & (j <= y) & (y < j + r)
    return X.build((w, h, c), lambda x, y, l: jnp.where(hit(x, y), 0., img[x, y, l]))


@case('C20', 'paint', targets=[IM + '.paint'], weight=2)
def _(S):
    r, c = S.size('r', 1), S.size('c', 1)
    w, h = side(S, 'w', r), side(S, 'h', r)
    img = S.array('img', (w, h, c))
    key = S.key()
    S.same('rectangle', lambda L: make(L, w, h, c).paint(key, img, r), lambda X: painted(S, X, img, w, h, c, r, X.randint('place', 16, ())))


def blurred(S, X, img, w, h, k):
    jnp = S.jnp
    m = k // 2
    v = X.uniform('variance', ()) * 4.9 + 0.1
    g = lambda p: (p - m) / m          # the grid of the kernel, from -1 to 1
    kern = X.build((k, k), lambda p, q: jnp.exp(-(g(p) ** 2 + g(q) ** 2) / v))
    at = lambda x, y: jnp.where((0 <= x) & (x < w) & (0 <= y) & (y < h), img[jnp.clip(x, 0, w - 1), jnp.clip(y, 0, h - 1), 0], 0.)
    out = X.build((w, h, 1), lambda x, y, l: X.sum(k, lambda p: X.sum(k, lambda q: kern[p, q] * at(x + p - m, y + q - m))))
    if S.symbolic:
        return out
    lo, hi = jnp.min(out), jnp.max(out)
    return (out - lo) / (hi - lo)


@case('C20', 'blur', targets=[IM + '.conv', IM + '.corrupt', M + ':normalise'], weight=2)
def _(S):
    jnp = S.jnp
    w, h = S.size('w', 2), S.size('h', 2)
    m = S.size('m', 1, None if S.symbolic else 2)
    k = 2 * m + 1
    img = S.array('img', (w, h, 1))
    key = S.key()

    # normalise has its own contract (below); here it is only required to be applied, once and with the right method
    S.callee(M + ':normalise', lambda x, method='clip': x if method == 'norm' else x * 0)

    S.same('gaussian', lambda L: make(L, w, h, 1).conv(key, img, k), lambda X: blurred(S, X, img, w, h, k))
    S.same('task', lambda L: make(L, w, h, 1, 'deconv-5').corrupt(key, img), lambda X: blurred(S, X, img, w, h, 5))


def blocks(S, X, img, w, h):
    s = X.randint('ratio', 2, ())
    ratio = S.jnp.where(s == 0, 4, 8)
    # every block of ratio x ratio pixels shows one of its own pixels (its centre)
    at = lambda m: X.build((m,), lambda x: x // ratio * ratio + ratio // 2)
    return img[at(w)][:, at(h)]


@case('C20', 'downsample', targets=[IM + '.downsample', IM + '.corrupt'], weight=2)
def _(S):
    a, b, c = S.size('a', 1), S.size('b', 1), S.size('c', 1)
    w, h = 8 * a, 8 * b
    img = S.array('img', (w, h, c))
    key = S.key()

    S.same('blocks', lambda L: make(L, w, h, c).downsample(key, img), lambda X: blocks(S, X, img, w, h))
    S.same('task', lambda L: make(L, w, h, c, 'supr-4').corrupt(key, img), lambda X: blocks(S, X, img, w, h))


@case('C20', 'normalise', targets=[M + ':normalise'])
def _(S):
    jnp = S.jnp
    n, w, h, c = S.size('n', 1), S.size('w', 2), S.size('h', 1), S.size('c', 1)
    img, one = S.array('img', (n, w, h, c)), S.array('one', (w, h, c))
    S.same('clip', lambda L: L(M).normalise(img), lambda X: jnp.minimum(jnp.maximum(img, 0.), 1.))

    def spec(X):
        # each channel of each image on its own, to the whole unit interval
        lo, hi = jnp.min(jnp.min(img, axis=1), axis=1), jnp.max(jnp.max(img, axis=1), axis=1)
        return X.build((n, w, h, c), lambda i, x, y, l: (img[i, x, y, l] - lo[i, l]) / (hi[i, l] - lo[i, l]))
    S.same('norm-single', lambda L: L(M).normalise(one, method='norm'),
           lambda X: X.build((w, h, c), lambda x, y, l: (one[x, y, l] - jnp.min(one[:, :, l])) / (jnp.max(one[:, :, l]) - jnp.min(one[:, :, l]))))
    S.same('norm', lambda L: L(M).normalise(img, method='norm'), spec)


@case('C20', 'tasks', targets=[IM + '.corrupt', IM + '.paint'])
def _(S):
    c = S.size('c', 1)
    w, h = side(S, 'w', 5), side(S, 'h', 5)
    img = S.array('img', (w, h, c))
    key = S.key()
    S.same('inpainting', lambda L: make(L, w, h, c, 'inpaint-5').corrupt(key, img),
           lambda X: painted(S, X, img, w, h, c, 5, X.randint('place', 16, ())))
    S.raises('unknown', lambda L: make(L, w, h, c, 'nonsense').corrupt(key, img), ValueError)


@case('C20', 'pairs', targets=[IM + '.sampler', IM + '.enumerate_subset', IM + '._enumerate_jit', IM + '.corrupt'])
def _(S):
    jnp = S.jnp
    n, c, b, e = S.size('n', 1), S.size('c', 1), S.size('b', 1), S.size('e', 1)
    w, h = side(S, 'w', 2), side(S, 'h', 2)
    xs = S.array('xs', (n, w, h, c))
    inds = S.indexarr('inds', (e, b), n)
    i = S.index('i', e)
    key = S.key()

    def pair(X):
        x = xs[X.randint('which', n, ())]
        return x, painted(S, X, x, w, h, c, 2, X.randint('place', 16, ()))
    S.same('sampler', lambda L: make(L, w, h, c, 'inpaint-2', n, xs).sampler(key), pair)

    def batch(X):
        q = X.randint('places', 16, (b,))
        x = X.build((b, w, h, c), lambda k, u, v, l: xs[inds[i, k], u, v, l])
        return x, X.map(b, lambda k: painted(S, X, x[k], w, h, c, 2, q[k]))
    S.same('batch', lambda L: make(L, w, h, c, 'inpaint-2', n, xs).enumerate_subset(i, inds, key), batch)
    S.same('clean-batch', lambda L: make(L, w, h, c, 'none', n, xs).enumerate_subset(i, inds, key)[0],
           lambda X: X.build((b, w, h, c), lambda k, u, v, l: xs[inds[i, k], u, v, l]))


@case('C20', 'channels', targets=[IM + '.concat', IM + '.unpack'])
def _(S):
    n, w, h, c, e = S.size('n', 1), S.size('w', 1), S.size('h', 1), S.size('c', 1), S.size('e', 1)
    x, y = S.array('x', (n, w, h, c)), S.array('y', (n, w, h, e))
    u, v = S.array('u', (n, w, h)), S.array('v', (n, w, h))
    S.same('inverse', lambda L: make(L, w, h, c).unpack(L(M).Image.concat(x, y)), lambda X: (x, y))
    S.same('joined', lambda L: make(L, w, h, c).unpack(x), lambda X: (x, X.build((n, w, h, 0), lambda *i: 0.)))
    S.same('expand', lambda L: L(M).Image.concat(u, v, expand=True), lambda X: X.build((n, w, h, 2), lambda a, b, d, k: S.jnp.where(k == 0, u[a, b, d], v[a, b, d])))
