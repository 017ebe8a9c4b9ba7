from vp.api import case

M = 'fbs.data.images'
IR = M + ':ImageRestore'


def obj(L, w, h, c, task='inpaint-1'):
    d = object.__new__(L(M).ImageRestore)
    d.image_shape = (w, h, c)
    d.task = task
    return d


def divmod_(x, h):
    return x // h, x % h


def ordered(S, n1, n2, n3, n4):
    """four sizes, 1 <= n1 <= n2 < n3 <= n4"""
    if S.symbolic:
        a, b, c, d = S.size(n1, 1), S.size(n2, 1), S.size(n3, 2), S.size(n4, 2)
        S.assume(a <= b), S.assume(b + 1 <= c), S.assume(c <= d)
        return a, b, c, d
    a = S.size(n1, 1)
    b = a + S.size(n2, 0)
    c = b + S.size(n3, 1)
    return a, b, c, c + S.size(n4, 0)


def rect_of(m):
    return m.width, m.height, m.shift, m.unobs_inds_ravelled


def inpainting(wide, flat):
    def f(S):
        jnp = S.jnp
        # small: the shorter rectangle side, big: the longer one, short: the shorter image side, long: the longer one
        small, big, short, long = ordered(S, 'small', 'big', 'short', 'long')
        a, b = (small, big) if wide else (big, small)
        w, h = (short, long) if flat else (long, short)
        g = short - big
        key = S.key()
        mask = lambda L: obj(L, w, h, 1)._gen_inpaint_mask(key, a, b)

        def parts(X):
            s = X.randint('shift', g, ())
            rect = X.build((a * b,), lambda k: (k // b + s) * h + k % b + s)
            return s, rect
        S.same('rectangle', lambda L: rect_of(mask(L)), lambda X: (a, b) + parts(X))
        S.same('observed', lambda L: mask(L).obs_inds_ravelled,
               lambda X: jnp.setdiff1d(jnp.arange(w * h), parts(X)[1], assume_unique=True, size=w * h - a * b))

        # the pixels are distinct and inside the image: their coordinates can be recovered
        def coordinates(X):
            s = parts(X)[0]
            return X.build((a * b,), lambda k: k // b + s), X.build((a * b,), lambda k: k % b + s)
        S.same('coordinates', lambda L: divmod_(mask(L).unobs_inds_ravelled, h), coordinates)
    return f


for wide in (0, 1):
    for flat in (0, 1):
        case('C19', f'inpainting-mask-{"wide" if wide else "tall"}-in-{"wide" if flat else "tall"}', targets=[IR + '._gen_inpaint_mask'], weight=2)(inpainting(wide, flat))


@case('C19', 'super-resolution-mask', targets=[IR + '._gen_supr_mask'], weight=2)
def _(S):
    jnp = S.jnp
    r, a, b = S.size('r', 2), S.size('a', 1), S.size('b', 1)
    w, h = r * a, r * b
    key = S.key()

    def spec(X, s):
        obs = X.build((a * b,), lambda k: ((k // b) * r + s[k, 0]) * h + (k % b) * r + s[k, 1])
        return r, obs, jnp.setdiff1d(jnp.arange(w * h), obs, assume_unique=True, size=w * h - a * b)
    out = lambda m: (m.rate, m.obs_inds_ravelled, m.unobs_inds_ravelled)
    S.same('random', lambda L: out(obj(L, w, h, 1)._gen_supr_mask(key, r, random=True)), lambda X: spec(X, X.randint('shift', r, (a * b, 2))))
    S.same('middle', lambda L: out(obj(L, w, h, 1)._gen_supr_mask(key, r, random=False)), lambda X: spec(X, jnp.zeros((a * b, 2), dtype=int) + r // 2))
    # one observed pixel in every block
    blk = lambda L: obj(L, w, h, 1)._gen_supr_mask(key, r, random=False).obs_inds_ravelled
    S.same('blocks', lambda L: tuple(v // r for v in divmod_(blk(L), h)), lambda X: (X.build((a * b,), lambda k: k // b), X.build((a * b,), lambda k: k % b)))


@case('C19', 'split', targets=[IR + '.unpack', IR + '.concat'])
def _(S):
    jnp = S.jnp
    w, h, c, n = S.size('w', 1), S.size('h', 1), S.size('c', 1), S.size('n', 1)
    img = S.array('img', (n, w, h, c))
    p, q = S.size('p', 1), S.size('q', 1)
    U, O = S.indexarr('U', (p,), w * h), S.indexarr('O', (q,), w * h)
    mask = lambda L: L(M).InpaintingMask(1, 1, 0, unobs_inds_ravelled=U, obs_inds_ravelled=O)
    sr = lambda L: L(M).SRMask(1, unobs_inds_ravelled=U, obs_inds_ravelled=O)

    def spec(X):
        at = lambda I, m: X.build((n, m, c), lambda i, k, l: img[i, I[k] // h, I[k] % h, l])
        return at(U, p), at(O, q)
    S.same('unpack', lambda L: obj(L, w, h, c).unpack(img, mask(L)), spec)
    S.same('unpack-super-resolution', lambda L: obj(L, w, h, c).unpack(img, sr(L)), spec)
    one = S.array('one', (w, h, c))
    S.same('unpack-single', lambda L: obj(L, w, h, c).unpack(one, mask(L)),
           lambda X: tuple(X.build((m, c), lambda k, l: one[I[k] // h, I[k] % h, l]) for I, m in ((U, p), (O, q))))


@case('C19', 'inverse', targets=[IR + '.unpack', IR + '.concat'])
def _(S):
    jnp = S.jnp
    h, c, n, p, g = S.size('h', 1), S.size('c', 1), S.size('n', 1), S.size('p', 1), S.size('g', 1)
    # p unobserved pixels among w * h (q observed)
    w = p + g
    q = w * h - p
    U, O = S.partition('mask', p, q)
    mask = lambda L: L(M).InpaintingMask(1, 1, 0, unobs_inds_ravelled=U, obs_inds_ravelled=O)
    img = S.array('img', (n, w, h, c))
    x, y = S.array('x', (n, p, c)), S.array('y', (n, q, c))
    S.same('restore', lambda L: obj(L, w, h, c).concat(*obj(L, w, h, c).unpack(img, mask(L)), mask(L)), lambda X: img)
    S.same('split', lambda L: obj(L, w, h, c).unpack(obj(L, w, h, c).concat(x, y, mask(L)), mask(L)), lambda X: (x, y))
    one = S.array('one', (w, h, c))
    S.same('restore-single', lambda L: obj(L, w, h, c).concat(*obj(L, w, h, c).unpack(one, mask(L)), mask(L)), lambda X: one)


def tasks(kind, s, rnd):
    def f(S):
        jnp = S.jnp
        c, n = S.size('c', 1), S.size('n', 1)
        if kind == 'supr':
            a, b = S.size('a', 1), S.size('b', 1)
            w, h = s * a, s * b
        else:
            w = S.size('short', s + 1)
            h = S.size('long', s + 1) if S.symbolic else w + S.size('more', 0)
            if S.symbolic:
                S.assume(w <= h)
            short = w
            w, h = (w, h) if rnd else (h, w)
        xs = S.array('xs', (n, w, h, c))
        key = S.key()

        def make(L):
            d = L(M).ImageRestore(f'{kind}-{s}', (w, h, c), **({} if rnd or kind != 'supr' else {'sr_random': False}))
            d.n, d.xs = n, xs
            return d

        def spec_mask(X):
            if kind == 'supr':
                q = X.randint('shift', s, (a * b, 2)) if rnd else jnp.zeros((a * b, 2), dtype=int) + s // 2
                obs = X.build((a * b,), lambda k: ((k // b) * s + q[k, 0]) * h + (k % b) * s + q[k, 1])
                return jnp.setdiff1d(jnp.arange(w * h), obs, assume_unique=True, size=w * h - a * b), obs
            q = X.randint('shift', short - s, ())
            rect = X.build((s * s,), lambda k: (k // s + q) * h + k % s + q)
            return rect, jnp.setdiff1d(jnp.arange(w * h), rect, assume_unique=True, size=w * h - s * s)

        def both(m):
            return m.unobs_inds_ravelled, m.obs_inds_ravelled
        S.same('mask', lambda L: both(make(L).gen_mask(key)), spec_mask)
        # the declared shape of the unobserved part is the shape that unpack returns
        S.same('shape', lambda L: make(L).unobs_shape, lambda X: (w * h - a * b if kind == 'supr' else s * s, c))

        def sample(L):
            x, y, m = make(L).sampler(key)
            return (x, y) + both(m)

        def spec_sample(X):
            i = X.randint('image', n, ())
            U, O = spec_mask(X)
            m = a * b if kind == 'supr' else w * h - s * s
            return xs[i], X.build((m, c), lambda k, l: xs[i, O[k] // h, O[k] % h, l]), U, O
        S.same('sample', sample, spec_sample)
        S.keys('sample/keys', sample)
    return f


for kind, s, rnd in (('inpaint', 1, True), ('inpaint', 3, False), ('inpainting', 15, True), ('inpainting', 15, False), ('supr', 2, True), ('supr', 4, True), ('supr', 3, False), ('supr', 4, False)):
    case('C19', f'task-{kind}-{s}' + ('' if rnd else '-middle' if kind == 'supr' else '-tall'), weight=2, targets=[IR + '.__init__', IR + '.gen_mask', IR + '.sampler'])(tasks(kind, s, rnd))


@case('C19', 'unknown-task', targets=[IR + '.__init__', IR + '.gen_mask'])
def _(S):
    S.raises('constructor', lambda L: L(M).ImageRestore('deblur-3', (4, 4, 1)), ValueError)
    S.raises('mask', lambda L: obj(L, 4, 4, 1, 'deblur-3').gen_mask(S.key()), ValueError)


@case('C19', 'batches', targets=[IR + '.enumerate_subset'])
def _(S):
    m, b, n, w, h, c = [S.size(k, 1) for k in 'mbnwhc']
    xs = S.array('xs', (n, w, h, c))
    P1, P2 = S.indexarr('P1', (m, b), n), S.indexarr('P2', (m, b), n)
    i = S.index('i', m)

    def make(L):
        d = obj(L, w, h, c)
        d.xs, d.n, d.perm_inds = xs, n, P1
        return d
    S.same('stored', lambda L: make(L).enumerate_subset(i), lambda X: X.build((b, w, h, c), lambda k, *q: xs[(P1[i, k],) + q]))
    S.same('given', lambda L: make(L).enumerate_subset(i, P2), lambda X: X.build((b, w, h, c), lambda k, *q: xs[(P2[i, k],) + q]))
