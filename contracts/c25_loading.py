from vp.api import case

M = 'fbs.data.images'


def images(S, name, shape):
    """stored images: arbitrary; in the concrete evaluations every image differs from the others"""
    if S.symbolic:
        return S.array(name, shape)
    import numpy as np
    n = shape[0]
    i, p = np.arange(n)[:, None], np.arange(int(np.prod(shape[1:])))[None]
    u = lambda v: v.astype('uint8')
    return (u(i % 251) + u(i // 251) * u(p)).reshape(shape)


def shuffled(X, xs, lo, n, N, tail):
    p = X.perm('order', N, N)
    return X.jnp.reshape(X.jnp.asarray(xs)[p[lo:lo + n]], (n,) + tail)



def flat_case(cls, names, sizes, tail, stored, extra):
    def f(S):
        key = S.key()

        def variant(test):
            n = sizes[test]
            data = {names[test]: images(S, f'xs{int(test)}', (n,) + stored), names[not test]: images(S, f'other{int(test)}', (2,) + stored)}
            path = S.file(f'{cls}-{test}', data)
            make = lambda L: getattr(L(M), cls)(key, path, test=test, **extra)
            S.same('test' if test else 'train', lambda L: make(L).xs, lambda X: shuffled(X, data[names[test]], 0, n, n, tail))
            S.ensure(f'attributes-{test}', lambda L: (lambda d: (d.n, d.image_shape, d.task))(make(L)),
                     lambda X, r: r[0] == n and tuple(r[1]) == tail and r[2] == extra['task'])
            if not test:
                S.ensure('default-part', lambda L: getattr(L(M), cls)(key, path, **extra).n, lambda X, q: q == n)
        variant(False)
        variant(True)
    return f


case('C25', 'mnist', targets=[M + ':MNIST', M + ':MNIST.__init__', M + ':Image.standardise'])(
    flat_case('MNIST', ('X', 'X_test'), (60000, 10000), (28, 28, 1), (784,), dict(task='inpaint-3')))
case('C25', 'mnist-restore', targets=[M + ':MNISTRestore', M + ':MNISTRestore.__init__', M + ':ImageRestore.standardise'])(
    flat_case('MNISTRestore', ('X', 'X_test'), (60000, 10000), (28, 28, 1), (28, 28), dict(task='inpaint-3')))
case('C25', 'cifar', targets=[M + ':CIFAR10', M + ':CIFAR10.__init__', M + ':Image.standardise'])(
    flat_case('CIFAR10', ('train_data', 'test_data'), (50000, 10000), (32, 32, 3), (32, 32, 3), dict(task='supr')))


def split_case(cls, task):
    def f(S):
        key = S.key()
        r = 2
        data = images(S, 'xs', (30000, r, r, 3))
        path = S.file(cls, data)
        make = lambda L, test: getattr(L(M), cls)(key, path, resolution=r, task=task, test=test)
        # one order of all images, of which the first thousand are for testing: no image is in both parts
        S.same('train', lambda L: make(L, False).xs, lambda X: shuffled(X, data, 1000, 29000, 30000, (r, r, 3)))
        S.same('test', lambda L: make(L, True).xs, lambda X: shuffled(X, data, 0, 1000, 30000, (r, r, 3)))

        S.ensure('default-resolution', lambda L: getattr(L(M), cls)(key, path, task=task).image_shape, lambda X, q: tuple(q) == (64, 64, 3))

        def attributes(test, n):
            S.ensure(f'attributes-{test}', lambda L: (lambda d: (d.n, d.image_shape, d.task))(make(L, test)),
                     lambda X, q: q[0] == n and tuple(q[1]) == (r, r, 3) and q[2] == task)
        S.ensure('default-part', lambda L: getattr(L(M), cls)(key, path, resolution=r, task=task).n, lambda X, q: q == 29000)
        attributes(True, 1000)
        attributes(False, 29000)
    return f


case('C25', 'celeba', targets=[M + ':CelebAHQ', M + ':CelebAHQ.__init__', M + ':Image.standardise'])(split_case('CelebAHQ', 'supr'))
case('C25', 'celeba-restore', targets=[M + ':CelebAHQRestore', M + ':CelebAHQRestore.__init__', M + ':ImageRestore.standardise'])(
    split_case('CelebAHQRestore', 'supr-2'))
