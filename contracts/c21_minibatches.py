from vp.api import case

M = 'fbs.data.base'
D = M + ':Dataset'


def make(L, n, xs=None):
    class Data(L(M).Dataset):
        pass
    d = object.__new__(Data)
    d.n = n
    if xs is not None:
        d.xs = xs
    return d


@case('C21', 'epoch', targets=[D + '.init_enumeration', D + '.enumerate_subset'], weight=2)
def _(S):
    jnp = S.jnp
    b, c, r, d = S.size('b', 1), S.size('c', 1), S.size('r', 0), S.size('d', 1)
    # c batches of b, and r < b rows that do not fill a batch
    if S.symbolic:
        S.assume(r + 1 <= b)
    else:
        r = min(r, b - 1)
    n = b * c + r
    xs = S.array('xs', (n, d))
    key = S.key()
    i = S.index('i', c)

    def chunks(L):
        o = make(L, n, xs)
        p = o.init_enumeration(key, b)
        return o, p
    # the batches cut one random permutation of the first b * c rows into c pieces of b
    S.same('chunk', lambda L: chunks(L)[1][i], lambda X: X.build((b,), lambda k: X.perm('order', b * c, b * c)[i * b + k]))
    if not S.symbolic:
        S.ensure('distinct', lambda L: jnp.concatenate(chunks(L)[1]), lambda X, p: jnp.sort(p) == jnp.arange(b * c))
    S.same('stored', lambda L: chunks(L)[0].perm_inds[i], lambda X: X.build((b,), lambda k: X.perm('order', b * c, b * c)[i * b + k]))
    S.same('batch', lambda L: chunks(L)[0].enumerate_subset(i), lambda X: X.build((b, d), lambda k, l: xs[X.perm('order', b * c, b * c)[i * b + k], l]))
    # a new epoch replaces the cut of the one before it
    b2 = S.size('b2', 1)

    def second(L):
        o = make(L, n, xs)
        o.perm_inds = [jnp.arange(b2)]
        o.init_enumeration(key, b)
        return o.enumerate_subset(i)
    S.same('next-epoch', second, lambda X: X.build((b, d), lambda k, l: xs[X.perm('order', b * c, b * c)[i * b + k], l]))
    S.same('number', lambda L: S.len(chunks(L)[1]), lambda X: c)

    def given(L):
        o = make(L, n, xs)
        return o.enumerate_subset(0, [jnp.arange(b)])
    S.same('given', given, lambda X: X.build((b, d), lambda k, l: xs[k, l]))


@case('C21', 'subset', targets=[D + '.draw_subset', D + '.reshape'])
def _(S):
    jnp = S.jnp
    b, r, d = S.size('b', 1), S.size('r', 0), S.size('d', 1)
    n = b + r
    xs = S.array('xs', (n, d))
    key = S.key()
    S.same('without-replacement', lambda L: make(L, n, xs).draw_subset(key, b),
           lambda X: X.build((b, d), lambda k, l: xs[X.perm('subset', n, b)[k], l]))


@case('C21', 'reshape', targets=[D + '.reshape'])
def _(S):
    n, d, e = S.size('n', 1), S.size('d', 1), S.size('e', 1)
    x, v, m, t = S.array('x', ()), S.array('v', (n,)), S.array('m', (n, d)), S.array('t', (n, d, e))
    f = lambda L, a: L(M).Dataset.reshape(a)
    S.same('scalar', lambda L: f(L, x), lambda X: X.build((1, 1), lambda i, j: x))
    S.same('vector', lambda L: f(L, v), lambda X: X.build((n, 1), lambda i, j: v[i]))
    S.same('matrix', lambda L: f(L, m), lambda X: m)
    S.same('tensor', lambda L: f(L, t), lambda X: t)


@case('C21', 'standardise', targets=[D + '.standardise'])
def _(S):
    jnp = S.jnp
    n, d = S.size('n', 2), S.size('d', 1)
    a = S.array('a', (n, d))

    def spec(X):
        m = X.build((d,), lambda j: X.sum(n, lambda i: a[i, j]) / n)
        v = X.build((d,), lambda j: X.sum(n, lambda i: (a[i, j] - m[j]) ** 2) / n)
        return X.build((n, d), lambda i, j: (a[i, j] - m[j]) / jnp.sqrt(v[j]))
    S.same('columns', lambda L: L(M).Dataset.standardise(a), spec)
