"""Concrete side of a case: the same contract text is run against the real library under real JAX.

Everything is executed eagerly (disable_jit, vmap as a loop), random primitives are recorded, and the draws the contract
names are matched with the draws the code made; the outputs must then agree.  Used to replay counterexamples and as a
bounded stand-in.  Run with /opt/venv."""
import hashlib
import itertools
import math
import os
import sys
import time
import traceback

os.environ.setdefault('JAX_PLATFORMS', 'cpu')
os.environ.setdefault('TF_CPP_MIN_LOG_LEVEL', '3')
import numpy as np
import jax
import jax.numpy as jnp
import jax.scipy

jax.config.update('jax_enable_x64', True)

ROOT = '/repo'
O = {}                       # original functions


class Reject(Exception):
    pass


class Mismatch(Exception):
    """spec and code disagree about a recorded draw"""


def h32(*a):
    return int.from_bytes(hashlib.sha256(repr(a).encode()).digest()[:4], 'little')


# ---------------------------------------------------------------- recording
class Rec:
    __slots__ = ('kind', 'stack', 'vals', 'par', 'key', 't', 'shape')


class Recorder:
    on = False
    free = False
    recs = []
    splits = []
    opaque = False

    @classmethod
    def start(cls):
        cls.on, cls.recs, cls.splits, cls.opaque = True, [], [], False

    @classmethod
    def stop(cls):
        cls.on = False
        return cls.recs


def stack():
    out = []
    f = sys._getframe(2)
    while f is not None:
        fn = f.f_code.co_filename
        if fn.startswith(ROOT):
            out.append((fn[len(ROOT):], f.f_lineno, f.f_code.co_name))
        f = f.f_back
    return tuple(out)


def keybytes(key):
    try:
        if jnp.issubdtype(key.dtype, jax.dtypes.prng_key):
            key = jax.random.key_data(key)
        return np.asarray(key).tobytes()
    except Exception:
        Recorder.opaque = True
        return None


def conc(x):
    try:
        return np.asarray(jax.lax.stop_gradient(x))
    except Exception:
        try:
            return np.asarray(jax.core.get_aval(x).val)
        except Exception:
            pass
    x = jax.lax.stop_gradient(x)
    while isinstance(x, jax.core.Tracer):
        if hasattr(x, 'primal'):
            x = x.primal
        elif hasattr(x, 'val'):
            x = x.val
        else:
            Recorder.opaque = True
            return None
    return np.asarray(x)


def record(kind, key, vals, par=None):
    if not Recorder.on:
        return
    kb = keybytes(key)
    v = conc(vals)
    if kb is None or v is None:
        Recorder.opaque = True
        return
    r = Rec()
    r.kind, r.key, r.vals, r.shape, r.stack = kind, kb, v.reshape(-1), v.shape, stack()
    r.par = None if par is None else [par] * v.size if not isinstance(par, list) else par
    r.t = len(Recorder.recs)
    Recorder.recs.append(r)


def jitted(f):
    def g(*a, **k):
        with jax.disable_jit(False):
            return f(*a, **k)
    return g


def shp(s):
    if s is None:
        return ()
    if isinstance(s, (int, np.integer)):
        return (int(s),)
    return tuple(int(x) for x in s)


def r_normal(key, shape=(), dtype=None):
    v = O['normal'](key, shp(shape), **({'dtype': dtype} if dtype is not None else {}))
    record('normal', key, v)
    return v


def r_uniform(key, shape=(), dtype=None, minval=0., maxval=1.):
    u = O['uniform'](key, shp(shape), **({'dtype': dtype} if dtype is not None else {}))
    record('uniform', key, u)
    return u * (maxval - minval) + minval if not (isinstance(minval, (int, float)) and isinstance(maxval, (int, float)) and minval == 0 and maxval == 1) else u


def r_randint(key, shape, minval, maxval, dtype=None):
    v = O['randint'](key, shp(shape), minval, maxval, **({'dtype': dtype} if dtype is not None else {}))
    if Recorder.on:
        lo, hi = conc(minval), conc(maxval)
        w = conc(v) - lo
        record('randint', key, w, [int(x) for x in np.broadcast_to(hi - lo, w.shape).reshape(-1)])
    return v


def r_choice(key, a, shape=(), replace=True, p=None, axis=0):
    arr = None
    if isinstance(a, (int, np.integer)):
        n = int(a)
    else:
        a = jnp.asarray(a)
        n, arr = (int(a), None) if a.ndim == 0 else (a.shape[axis], a)
    shape = shp(shape)
    idx = O['choice'](key, n, shape, replace, p)
    if p is not None and replace:
        pp = conc(p)
        record('cat', key, idx, [pp] * max(1, int(np.prod(shape))))
    elif replace:
        record('randint', key, idx, [n] * max(1, int(np.prod(shape))))
    elif p is None:
        record('perm', key, idx)
    else:
        record('choice-noreplace', key, idx)
    return idx if arr is None else jnp.take(arr, idx, axis=axis)


def r_categorical(key, logits, axis=-1, shape=None):
    v = O['categorical'](key, logits, axis=axis, **({} if shape is None else {'shape': shp(shape)}))
    if Recorder.on:
        lg = np.moveaxis(conc(logits), axis, -1)
        p = np.exp(lg - lg.max(-1, keepdims=True))
        p = p / p.sum(-1, keepdims=True)
        p = np.broadcast_to(p, conc(v).shape + p.shape[-1:]).reshape(-1, p.shape[-1])
        record('cat', key, v, list(p))
    return v


def r_permutation(key, x, axis=0, independent=False):
    if independent:
        v = O['permutation'](key, x, axis, independent)
        record('perm-indep', key, v)
        return v
    if isinstance(x, (int, np.integer)) or jnp.ndim(x) == 0:
        v = O['permutation'](key, int(x))
        record('perm', key, v)
        return v
    x = jnp.asarray(x)
    idx = O['permutation'](key, x.shape[axis])
    record('perm', key, idx)
    return jnp.take(x, idx, axis=axis)


def r_bernoulli(key, p=0.5, shape=None):
    p = jnp.asarray(p)
    s = p.shape if shape is None else shp(shape)
    u = O['uniform'](key, s)
    record('uniform', key, u)
    return u < p


def r_mvn(key, mean, cov, shape=None, dtype=None, method='cholesky'):
    mean, cov = jnp.asarray(mean), jnp.asarray(cov)
    s = (mean.shape[:-1] if shape is None else shp(shape)) + mean.shape[-1:]
    z = O['normal'](key, s)
    record('normal', key, z)
    return mean + jnp.einsum('...ij,...j->...i', jnp.linalg.cholesky(cov), z)


def r_split(key, num=2):
    v = O['split'](key, num)
    if Recorder.on:
        kb = keybytes(key)
        Recorder.splits.append((kb, num if isinstance(num, int) else tuple(num), stack()))
    return v


def other(name):
    def f(key, *a, **k):
        v = O[name](key, *a, **k)
        record(name, key, v)
        return v
    return f


def py_vmap(fun, in_axes=0, out_axes=0, axis_name=None, axis_size=None, spmd_axis_name=None):
    def wrapped(*args, **kwargs):
        if Recorder.free:
            return O['vmap'](fun, in_axes, out_axes)(*args, **kwargs)
        ia = in_axes
        if isinstance(ia, list):
            ia = tuple(ia)
        if isinstance(ia, tuple) and len(ia) != len(args):
            raise ValueError('vmap in_axes must match the number of positional arguments')
        flat, tree = jax.tree_util.tree_flatten((args, kwargs))
        axes = jax._src.api_util.flatten_axes('vmap in_axes', tree, (ia if isinstance(ia, tuple) else (ia,) * len(args), 0), kws=True) \
            if True else None
        sizes = {jnp.shape(x)[a] for x, a in zip(flat, axes) if a is not None}
        if len(sizes) != 1:
            raise ValueError(f'vmap got inconsistent sizes {sizes}')
        n = sizes.pop()
        if n == 0:
            return O['vmap'](fun, in_axes, out_axes)(*args, **kwargs)
        outs = []
        for i in range(n):
            leaves = [x if a is None else take_axis(x, i, a) for x, a in zip(flat, axes)]
            ar, kw = jax.tree_util.tree_unflatten(tree, leaves)
            outs.append(fun(*ar, **kw))
        l0, t0 = jax.tree_util.tree_flatten(outs[0])
        oa = jax._src.api_util.flatten_axes('vmap out_axes', t0, out_axes)
        ls = [jax.tree_util.tree_flatten(o)[0] for o in outs]
        res = [ls[0][q] if a is None else stack_axis([l[q] for l in ls], a) for q, a in enumerate(oa)]
        return jax.tree_util.tree_unflatten(t0, res)
    return wrapped


def take_axis(x, i, a):
    a = a % jnp.ndim(x)
    return x[(slice(None),) * a + (i,)]


def stack_axis(xs, a):
    return jnp.stack(xs, axis=a)


def r_scan(f, init, xs=None, length=None, *a, **k):
    n = length
    if xs is not None:
        l = jax.tree_util.tree_leaves(xs)
        if l:
            n = l[0].shape[0]
    if n == 0 or Recorder.free:
        with jax.disable_jit(False):
            return O['scan'](f, init, xs, length, *a, **k)
    if isinstance(init, (float, int)):
        init = jnp.asarray(init)
    return O['scan'](f, init, xs, length, *a, **k)


def install(root):
    global ROOT
    ROOT = os.path.abspath(root)
    sys.path.insert(0, ROOT)
    for n in ('normal', 'uniform', 'randint', 'choice', 'categorical', 'permutation', 'bernoulli', 'multivariate_normal', 'split',
              'exponential', 'gumbel', 'truncated_normal', 'laplace', 'gamma', 'beta', 'dirichlet', 'rademacher', 't', 'poisson',
              'cauchy', 'logistic', 'bits', 'ball', 'orthogonal'):
        if hasattr(jax.random, n):
            O[n] = jitted(getattr(jax.random, n))
    for n in O:
        g = globals().get('r_' + n)
        if n == 'multivariate_normal':
            g = r_mvn
        setattr(jax.random, n, g or other(n))
    O['vmap'] = jax.vmap
    O['scan'] = jax.lax.scan
    jax.vmap = py_vmap
    jax.lax.scan = r_scan
    jax.config.update('jax_disable_jit', True)


# ---------------------------------------------------------------- spec side
class SKey:
    def __init__(self, name, ctx):
        self.name, self.ctx = name, ctx


def cint(c):
    return int(np.asarray(c))


class Draws:
    """the draws requested by the contract: collected first, then replayed from an assignment"""

    def __init__(self, assign=None, free=None):
        self.req = {}          # (kind, name) -> {ctx: (shape, par)}
        self.assign = assign
        self.free = free

    def get(self, kind, name, shape, ctx, par=None):
        ctx = tuple(cint(c) for c in ctx)
        shape = shp(shape)
        if self.free is not None:
            k = jax.random.fold_in(self.free, h32(kind, name, ctx) & 0x7fffffff)
            if kind == 'normal' or kind.startswith('U='):
                return O['normal'](k, shape)
            if kind == 'uniform':
                return O['uniform'](k, shape)
            if kind == 'randint':
                return O['randint'](k, shape, 0, par)
            if kind == 'cat':
                return O['choice'](k, par.shape[0], shape, True, par)
            if kind == 'perm':
                return O['permutation'](k, par)[:shape[0]]
            return O[kind](k, shape=shape)
        d = self.req.setdefault((kind, name), {})
        if ctx in d and d[ctx][0] != shape:
            raise RuntimeError(f'contract draws {name}{ctx} with two shapes')
        d[ctx] = (shape, None)
        n = int(np.prod(shape))
        if self.assign is None:
            r = np.random.RandomState(h32(kind, name, ctx))
            if kind in ('uniform', 'beta'):
                v = r.rand(*shape)
            elif kind == 'randint':
                v = r.randint(0, max(1, int(par)), shape)
            elif kind == 'cat':
                v = r.randint(0, par.shape[0], shape)
            elif kind == 'perm':
                v = r.permutation(int(par))[:shape[0]]
            else:
                v = r.randn(*shape)
            return jnp.asarray(v)
        vals = []
        for idx in itertools.product(*[range(s) for s in shape]):
            v, p = self.assign[kind, name][ctx + idx]
            if kind == 'cat':
                q = conc(par)
                if p.shape != q.shape or not np.allclose(p, q, rtol=1e-6, atol=1e-9, equal_nan=True):
                    raise Mismatch(f'categorical probabilities of {name}{ctx + idx}: code {p}, contract {q}')
            if kind == 'randint' and int(p) != int(par):
                raise Mismatch(f'integer range of {name}{ctx + idx}: code {p}, contract {par}')
            vals.append(v)
        return jnp.asarray(np.array(vals).reshape(shape)) if n else jnp.zeros(shape)


class X:
    sym = False

    def __init__(self, S, draws):
        self.S, self.D = S, draws
        self.jnp, self.jax, self.nn = jnp, jax, jax.nn
        self.logsumexp = jax.scipy.special.logsumexp
        self.np = jnp

    def key(self, name, *ctx):
        return SKey(name, ctx)

    def normal(self, name, shape, *ctx):
        return self.D.get('normal', name, shape, ctx)

    def uniform(self, name, shape, *ctx):
        return self.D.get('uniform', name, shape, ctx)

    def rand(self, kind, name, shape, *ctx):
        return self.D.get(kind, name, shape, ctx)

    def randint(self, name, n, shape, *ctx):
        return self.D.get('randint', name, shape, ctx, n)

    def cat(self, name, p, shape, *ctx):
        return self.D.get('cat', name, shape, ctx, p)

    def perm(self, name, n, m, *ctx):
        return self.D.get('perm', name, (n if m is None else m,), ctx, n)

    def rec(self, n, init, step):
        st = jax.tree_util.tree_map(jnp.asarray, init)
        hist = [st]
        for k in range(int(n)):
            st = jax.tree_util.tree_map(jnp.asarray, step(k, st))
            hist.append(st)
        return jax.tree_util.tree_map(lambda *a: jnp.stack(a), *hist)

    def map(self, n, f):
        return jax.tree_util.tree_map(lambda *a: jnp.stack(a), *[jax.tree_util.tree_map(jnp.asarray, f(k)) for k in range(int(n))])

    def where(self, *a):
        return jnp.where(*a)

    def sum(self, n, f):
        r = 0.
        for i in range(int(n)):
            r = r + f(i)
        return jnp.asarray(r)

    def build(self, shape, f):
        shape = shp(shape)
        vals = [jnp.asarray(f(*idx)) for idx in itertools.product(*[range(s) for s in shape])]
        return jnp.stack(vals).reshape(shape) if vals else jnp.zeros(shape)

    def asarray(self, x):
        return jnp.asarray(x)

    def grad(self, f, argnums=0):
        return jax.grad(f, argnums)

    def vmap(self, f, **k):
        return py_vmap(f, **k)

    def eq(self, a, b):
        return jnp.asarray(close(a, b))

    def le(self, a, b):
        a, b = jnp.asarray(a), jnp.asarray(b)
        return a <= b + 1e-9 + 1e-7 * jnp.abs(b)


def close(a, b, rtol=1e-6, atol=1e-8):
    a, b = np.asarray(a), np.asarray(b)
    if a.size > 10**6 and a.shape == b.shape and a.dtype == b.dtype and np.array_equal(a, b):
        return np.ones(a.shape, bool)
    if a.dtype == np.float32 or b.dtype == np.float32:
        rtol, atol = max(rtol, 2e-4), max(atol, 2e-5)
    with np.errstate(all='ignore'):
        return np.isclose(a.astype(np.float64) if a.dtype.kind != 'c' else a, b.astype(np.float64) if b.dtype.kind != 'c' else b, rtol=rtol, atol=atol, equal_nan=True)


def coef(name, j, nout, nin):
    r = np.random.RandomState(h32('coef', name, j))
    return r.randn(nout, nin) / max(1., math.sqrt(nin))


def logw(cfg):
    """spread and offset of the generated log weights: plain, far below, and far above the range of exp"""
    return {1: (5., -4000.), 2: (40., 4000.)}.get(cfg % 4, (1.3, 0.))


class UF:
    def __init__(self, S, name, out, kind, pos, key, bounds):
        self.S, self.name, self.out, self.kind, self.pos, self.keyed, self.bounds = S, name, out, kind, pos, key, bounds
        self.__name__ = name

    def __call__(self, *args, **kw):
        key = None
        if self.keyed:
            key, args = args[0], args[1:]
        o = self.out(*args, **kw) if callable(self.out) else self.out
        o = shp(o)
        nout = int(np.prod(o))
        r = np.random.RandomState(h32('bias', self.name))
        z = jnp.asarray(r.randn(nout))
        items = list(args) + [kw[k] for k in sorted(kw)]
        j = 0
        for a in items:
            for x in jax.tree_util.tree_leaves(a):
                if isinstance(x, str):
                    z = z + (h32(x) % 1000) / 500.
                    continue
                x = jnp.asarray(x).reshape(-1)
                x = jnp.where(jnp.isfinite(x), x, -3.) if jnp.issubdtype(x.dtype, jnp.inexact) else x
                z = z + jnp.asarray(coef(self.name, j, nout, x.shape[0])) @ jnp.asarray(x, float)
                j += 1
        scale = 1.3
        v = jnp.sin(z)
        if self.keyed:
            if isinstance(key, SKey):
                eps = self.S.X.D.get('U=' + self.name, key.name, o, key.ctx).reshape(-1)
            else:
                eps = O['normal'](key, o)
                record('U=' + self.name, key, eps)
                eps = eps.reshape(-1)
            v = v + 0.7 * eps
        if self.kind == 'i':
            lo, hi = self.bounds or (0, 3)
            return jnp.asarray(lo + jnp.floor((jnp.sin(5. * v) * 0.4999 + 0.5) * (hi - lo)), int).reshape(o)
        if self.kind == 'b':
            return (v > 0).reshape(o)
        if self.kind == 'logw':
            a, b = logw(self.S.cfg)
            return (a * v + b).reshape(o)
        if self.pos:
            return jnp.exp(0.3 * v).reshape(o)
        return (scale * v).reshape(o)


class S:
    sym = False

    def __init__(self, cfg, tier='quick', keysrc=None):
        self.sizes = {}
        if isinstance(cfg, dict):
            cfg, self.sizes = cfg['seed'], cfg['sizes']
        self.cfg = cfg
        self.rnd = np.random.RandomState(1000 + cfg)
        self.jnp, self.jax, self.nn = jnp, jax, jax.nn
        self.obls = []
        self.inputs = {}
        self.keysrc = keysrc
        self.X = None
        self.tier = tier

    def r(self, *name):
        return np.random.RandomState(h32(self.cfg, *name))

    def size(self, name, lo=1, hi=None):
        add = 0 if self.cfg == 1 else (1 if self.cfg == 0 else self.r('size', name).randint(0, 4))
        if self.cfg == 0:
            # pairwise different sizes expose mixed up axes
            add = (len([k for k in self.inputs if k.startswith('size ')]) * 1) % 3 + 1
        v = lo + add
        if hi is not None:
            v = min(v, hi)
        v = int(self.sizes.get(name, v))
        self.inputs['size ' + name] = v
        return int(v)

    def dim(self, f, *a):
        return f(*a)

    def assume(self, c):
        if not bool(np.all(np.asarray(c))):
            raise Reject()

    def _put(self, name, v):
        self.inputs[name] = np.asarray(v).tolist() if np.asarray(v).size <= 64 else f'array{np.asarray(v).shape}'
        return jnp.asarray(v)

    def array(self, name, shape, gen='normal'):
        shape = shp(shape)
        r = self.r('array', name)
        sc = {3: 3., 4: 0.1}.get(self.cfg, 1.)
        if gen == 'normal':
            v = r.randn(*shape) * sc
        elif gen == 'logw':
            a, b = logw(self.cfg)
            v = a * r.randn(*shape) + b
        elif gen in ('pos', 'unitpos'):
            v = np.exp(0.5 * r.randn(*shape) * sc)
        elif gen == 'nonneg':
            v = np.abs(r.randn(*shape)) * sc
        elif gen == 'unit':
            v = r.rand(*shape)
        elif gen == 'simplex':
            v = r.dirichlet(np.full(shape[-1], 0.3 if self.cfg % 2 else 1.5), size=shape[:-1]) + 1e-6
            if self.cfg % 4 == 1 and shape[-1] > 1:
                # degenerate: some weights vanish
                v[..., r.randint(shape[-1])] = 0.
            v = v / v.sum(-1, keepdims=True)
        elif gen == 'weights':
            # normalised only up to rounding (exaggerated), possibly with zeros
            v = r.dirichlet(np.ones(shape[-1]), size=shape[:-1])
            if self.cfg % 4 == 1:
                v = v * (r.rand(*shape) < 0.6)
                v[..., 0] += 1e-3
                v = v / v.sum(-1, keepdims=True)
            if self.cfg % 4 == 2:
                v = v * 0.85
        elif gen in ('times', 'timesrev'):
            d = r.rand(*shape) * 0.3 + 0.05
            v = 0.2 + np.cumsum(d)
            v = v - v[0] + 0.1 * r.rand()
            if gen == 'timesrev':
                v = v[-1] + 0.1 - v
        else:
            raise ValueError(gen)
        return self._put(name, v)

    def pdmat(self, name, n):
        r = self.r('pdmat', name)
        a = r.randn(n, n)
        return self._put(name, a @ a.T / n + 0.5 * np.eye(n))

    def index(self, name, n):
        return self._put(name, self.r('index', name).randint(0, n))

    def indexarr(self, name, shape, n, lo=0):
        return self._put(name, self.r('indexarr', name).randint(lo, n, shp(shape)))

    def partition(self, name, p, q):
        a = self.r('partition', name).permutation(int(p) + int(q))
        return self._put(name, a[:int(p)]), self._put(name + "'", a[int(p):])

    def boolarr(self, name, shape):
        return self._put(name, self.r('bool', name).rand(*shp(shape)) < 0.5)

    def real(self, name, gen='normal', lo=None, hi=None):
        r = self.r('real', name)
        v = r.randn()
        if gen == 'pos':
            v = math.exp((1.5 if self.cfg % 2 else 0.5) * v) if isinstance(self.cfg, int) else math.exp(0.5 * v)
        if gen == 'unit':
            v = r.uniform(0.02, 0.98)
        if lo is not None or hi is not None:
            a = lo if lo is not None else hi - 3.
            b = hi if hi is not None else lo + 3.
            v = r.uniform(a, b)
        self._put(name, v)
        return float(v)

    symbolic = False

    def callee(self, path, impl):
        pass

    def file(self, name, data):
        import tempfile, atexit, shutil
        d = tempfile.mkdtemp()
        atexit.register(shutil.rmtree, d, True)
        if isinstance(data, dict):
            np.savez(d + '/data.npz', **{k: np.asarray(v) for k, v in data.items()})
            return d + '/data.npz'
        np.save(d + '/data.npy', np.asarray(data))
        return d + '/data.npy'

    def param(self, p, name, shape):
        assert p[name].shape == tuple(shape)
        return p[name]

    def block(self, path, out):
        mod, _, name = path.rpartition(':')
        return lambda *a, **k: getattr(L(mod), name)(*a, **k)

    def len(self, x):
        return len(x)

    def variables(self, name, build, examples):
        cell = []

        def get(L=None):
            if not cell:
                m = build(L)
                rec, Recorder.on = Recorder.on, False
                try:
                    v = m.init(jax.random.PRNGKey(h32('net', name, self.cfg) & 0x7fffffff), *examples())
                finally:
                    Recorder.on = rec
                r = np.random.RandomState(h32('net', name, self.cfg))
                cell.append(jax.tree_util.tree_map(lambda p: p + 0.3 * jnp.asarray(r.randn(*p.shape), p.dtype), v))
            return cell[0]
        return get

    @property
    def linen(self):
        import flax.linen
        return flax.linen

    def flag(self, name):
        return self._put(name, self.r('flag', name).rand() < 0.5)

    def key(self, name='key'):
        if self.keysrc is not None:
            return jax.random.fold_in(self.keysrc, h32(name) & 0x7fffffff)
        return jax.random.PRNGKey(h32('key', name, self.cfg))

    def func(self, name, out=(), kind='f', pos=False, key=False, bounds=None):
        return UF(self, name, out, kind, pos, key, bounds)

    def same(self, name, code, spec, **kw):
        self.obls.append(('same', name, code, spec, kw))

    def ensure(self, name, code, post, **kw):
        self.obls.append(('ensure', name, code, post, kw))

    def lemma(self, name, spec, **kw):
        self.obls.append(('lemma', name, None, spec, kw))

    def keys(self, name, code):
        self.obls.append(('keys', name, code, None, {}))

    def raises(self, name, code, exc):
        self.obls.append(('raises', name, code, exc, {}))


MODS = {}


def L(name):
    m, _, attr = name.partition(':')
    if m not in MODS:
        import importlib
        MODS[m] = importlib.import_module(m)
    r = MODS[m]
    for a in attr.split('.') if attr else ():
        r = getattr(r, a)
    return r


# ---------------------------------------------------------------- matching
def elements(recs):
    out = []
    for r in sorted(recs, key=lambda r: r.t):
        for q, v in enumerate(r.vals):
            out.append((v, r.par[q] if r.par is not None else None))
    return out


def coord_orders(coords, nctx):
    """orders in which the contract's coordinates may have been visited by the code"""
    nd = len(coords[0]) if coords else 0
    seen = set()
    perms = list(itertools.permutations(range(nd))) if nd <= 4 else [tuple(range(nd))]
    for rev in (itertools.product((1, -1), repeat=min(nd, 2))):
        sg = tuple(rev) + (1,) * (nd - len(rev))
        for p in perms:
            o = tuple(sorted(coords, key=lambda c: tuple(sg[a] * c[a] for a in p)))
            if o not in seen:
                seen.add(o)
                yield o


def options(req, recs):
    """for every requested family the ways to fill it from the records"""
    clusters = {}
    for r in recs:
        clusters.setdefault((r.kind, r.stack), []).append(r)
    cl = [(k[0], v, sum(len(r.vals) for r in v)) for k, v in clusters.items()]
    cl.sort(key=lambda c: c[1][0].t)
    opts = []
    for (kind, name), d in req.items():
        coords = [c + idx for c, (shape, _) in sorted(d.items()) for idx in itertools.product(*[range(s) for s in shape])]
        lens = {len(c) for c in coords}
        T = len(coords)
        cand = [q for q, c in enumerate(cl) if c[0] == kind]
        o = []
        sets = []
        if T == 0:
            opts.append(((kind, name), [((), {})]))
            continue
        for m in (1, 2, 3):
            for sub_ in itertools.combinations(cand, m):
                if sum(cl[q][2] for q in sub_) == T:
                    sets.append(sub_)
        orders = list(itertools.islice(coord_orders(coords, 0), 48)) if len(lens) == 1 else [tuple(coords)]
        for od in orders:
            for sub_ in sets:
                o.append((sub_, od))
        out = []
        for sub_, od in o:
            el = elements([r for q in sub_ for r in cl[q][1]])
            out.append((sub_, dict(zip(od, el))))
        opts.append(((kind, name), out))
    return opts, cl


def merged_options(req, recs):
    """all families of a kind together filled from all records of the kind"""
    kinds = {}
    for (kind, name), d in req.items():
        kinds.setdefault(kind, []).append(name)
    opts = []
    for kind, names in kinds.items():
        el = elements([r for r in recs if r.kind == kind])
        per = {}
        for nm in names:
            d = req[kind, nm]
            per[nm] = [c + idx for c, (shape, _) in sorted(d.items()) for idx in itertools.product(*[range(s) for s in shape])]
        out = []
        if sum(map(len, per.values())) == len(el):
            orders = []
            for pm in itertools.islice(itertools.permutations(names), 24):
                orders.append([(nm, c) for nm in pm for c in per[nm]])
            for pm in itertools.islice(itertools.permutations(names), 24):
                orders.append(sorted(((nm, c) for nm in names for c in per[nm]), key=lambda x: (x[1][:1], pm.index(x[0]), x[1])))
            for pm in itertools.islice(itertools.permutations(names), 24):
                orders.append([(nm, c) for nm in pm for c in per[nm][::-1]])
            for od in orders:
                out.append(((kind,), {((kind, nm), c): e for (nm, c), e in zip(od, el)}))
        opts.append((kind, out))
    return opts


def merged_assignments(req, recs, cap=300):
    for asg in assignments(merged_options(req, recs), cap):
        out = {k: {} for k in req}
        for part in asg.values():
            for (fam, c), e in part.items():
                out[fam][c] = e
        yield out


def assignments(opts, cap):
    """assignments in order of total deviation from the first choices; clusters are used at most once"""
    import heapq
    n = len(opts)
    if any(not o for _, o in opts):
        return
    start = (0,) * n
    heap = [(0, start)]
    seen = {start}
    yielded = tries = 0
    while heap and yielded < cap and tries < cap * 200:
        c, st = heapq.heappop(heap)
        tries += 1
        used = [q for k, (_, o) in zip(st, opts) for q in o[k][0]]
        if len(used) == len(set(used)):
            yielded += 1
            yield {key: o[k][1] for k, (key, o) in zip(st, opts)}
        for a in range(n):
            if st[a] + 1 < len(opts[a][1]):
                nx = st[:a] + (st[a] + 1,) + st[a + 1:]
                if nx not in seen:
                    seen.add(nx)
                    heapq.heappush(heap, (sum(nx), nx))


def leaves(o):
    return [np.asarray(x) for x in jax.tree_util.tree_leaves(o)]


def diff(code, spec, kw):
    a, b = leaves(code), leaves(spec)
    if len(a) != len(b):
        return f'{len(a)} outputs, the contract has {len(b)}'
    for q, (x, y) in enumerate(zip(a, b)):
        if x.shape != y.shape:
            return f'output {q} has shape {x.shape}, the contract says {y.shape}'
        ok = close(x, y, **{k: kw[k] for k in ('rtol', 'atol') if k in kw})
        if not ok.all():
            i = tuple(int(v) for v in np.argwhere(~ok)[0])
            return f'output {q} at {i}: code {x[i]!r}, contract {y[i]!r} ({int((~ok).sum())} of {ok.size} entries differ)'
    return None


class Fail(Exception):
    pass


def check_same(s, name, code, spec, kw, tmax=40):
    """returns ('ok'|'fail'|'undecided', detail)"""
    Recorder.start()
    try:
        out = code(L)
        out = jax.tree_util.tree_map(lambda x: np.asarray(x), out)
    finally:
        recs = Recorder.stop()
    d0 = Draws()
    s.X = X(s, d0)
    ref = spec(s.X)
    a, b = leaves(out), leaves(ref)
    if [x.shape for x in a] != [x.shape for x in b]:
        return 'fail', f'output shapes {[x.shape for x in a]}, the contract says {[x.shape for x in b]}', recs
    if not d0.req:
        d = diff(out, ref, kw)
        return ('fail', d, recs) if d else ('ok', '', recs)
    opts, cl = options(d0.req, recs)
    t0 = time.time()
    why = None
    n = 0
    for asg in itertools.chain(assignments(opts, 400), merged_assignments(d0.req, recs)):
        n += 1
        s.X = X(s, Draws(assign=asg))
        try:
            d = diff(out, spec(s.X), kw)
        except Mismatch as e:
            d = str(e)
        if d is None:
            return 'ok', f'{n} assignments', recs
        why = why or d
        if time.time() - t0 > tmax:
            break
    if n:
        return 'fail', f'{why} (no assignment of the {len(recs)} recorded draws to the contract\'s draws agrees; {n} tried)', recs
    miss = [f'{k[0]} {k[1]}' for k, o in opts if not o]
    have = {}
    for k, v, m in cl:
        have.setdefault(k, []).append(m)
    return 'nomatch', f'the contract draws {miss}, which the code does not ({have})', recs


def run_obligation(case, cfg, kind, name, code, spec, kw, s):
    try:
        if kind == 'same':
            st, d, recs = check_same(s, name, code, spec, kw)
            if recs:
                hs, hd = hygiene(recs)
                if hs == 'fail':
                    return hs, hd
            if st == 'nomatch':
                try:
                    ok, d2 = montecarlo(case, cfg, name)
                except Reject:
                    raise
                except Exception as e:
                    return 'undecided', d + f'; Monte Carlo comparison not possible: {type(e).__name__}: {str(e)[:200]}'
                return ('fail' if ok is False else 'undecided'), d + '; ' + d2
            return st, d
        if kind == 'ensure':
            Recorder.start()
            try:
                out = code(L)
            finally:
                Recorder.stop()
            s.X = X(s, Draws())
            r = spec(s.X, out)
            return allbool(r)
        if kind == 'lemma':
            s.X = X(s, Draws())
            r = spec(s.X)
            if isinstance(r, tuple) and len(r) == 2:
                d = diff(r[0], r[1], kw)
                return ('fail', d) if d else ('ok', '')
            return allbool(r)
        if kind == 'raises':
            try:
                code(L)
            except spec:
                return 'ok', ''
            except Exception as e:
                return 'fail', f'raises {type(e).__name__} instead of {spec}'
            return 'fail', f'does not raise {spec}'
        if kind == 'keys':
            Recorder.start()
            try:
                code(L)
            finally:
                recs = Recorder.stop()
            return hygiene(recs)
    except Reject:
        raise
    except Mismatch as e:
        return 'fail', str(e)
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        inrepo = [f for f in tb if f.filename.startswith(ROOT)]
        inspec = tb[-1].filename.startswith(ROOT) or bool(inrepo)
        last = inrepo[-1] if inrepo else tb[-1]
        return ('fail' if inspec else 'error'), f'raises {type(e).__name__}: {str(e)[:400]} at {last.filename}:{last.lineno}'


def hygiene(recs):
    seen = {}
    for r in recs:
        if r.key in seen:
            return 'fail', f'the same key is consumed twice: at {seen[r.key].stack[:1]} and at {r.stack[:1]}'
        seen[r.key] = r
    for kb, num, st in Recorder.splits:
        if kb in seen:
            return 'fail', f'a key is both consumed (at {seen[kb].stack[:1]}) and split (at {st[:1]})'
    return 'ok', f'{len(recs)} draws'


def allbool(r):
    for q, x in enumerate(leaves(r)):
        if not x.astype(bool).all():
            i = tuple(int(v) for v in np.argwhere(~x.astype(bool))[0])
            return 'fail', f'postcondition {q} is false at {i}'
    return 'ok', ''


# ---------------------------------------------------------------- Monte Carlo comparison of laws (last resort)
def montecarlo(case, cfg, name, n=3000):
    Recorder.free = True
    jax.config.update('jax_disable_jit', False)
    try:
        def flat(o):
            ls = [jnp.asarray(x, float).reshape(-1) for x in jax.tree_util.tree_leaves(o)]
            return jnp.concatenate(ls)

        def get(ks):
            s = S(cfg, keysrc=ks)
            case.f(s)
            return s, [o for o in s.obls if o[1] == name][0]

        def fc(k):
            s, o = get(k)
            return flat(o[2](L))

        def fs(k):
            s, o = get(jax.random.PRNGKey(0))
            s.X = X(s, Draws(free=k))
            return flat(o[3](s.X))
        keys = O['split'](jax.random.PRNGKey(5), 2 * n)
        a = np.asarray(jax.jit(O['vmap'](fc))(keys[:n]))
        b = np.asarray(jax.jit(O['vmap'](fs))(keys[n:]))
    finally:
        Recorder.free = False
        jax.config.update('jax_disable_jit', True)
    from scipy import stats
    r = np.random.RandomState(0)
    D = a.shape[1]
    worst = (1., None)
    cols = list(range(min(D, 40)))
    proj = [r.randn(D) for _ in range(20)]
    for q in cols + proj:
        x, y = (a[:, q], b[:, q]) if isinstance(q, int) else (np.sin(a) @ q, np.sin(b) @ q)
        x, y = np.round(x, 9), np.round(y, 9)
        x, y = np.nan_to_num(x, nan=1e9, posinf=2e9, neginf=-2e9), np.nan_to_num(y, nan=1e9, posinf=2e9, neginf=-2e9)
        p = stats.ks_2samp(x, y).pvalue
        if p < worst[0]:
            worst = (p, q if isinstance(q, int) else 'projection')
    if worst[0] < 1e-9:
        return False, f'the laws of the outputs differ (Kolmogorov-Smirnov p={worst[0]:.1e} at output coordinate {worst[1]}, {n} runs)'
    return True, f'laws not distinguishable (smallest p={worst[0]:.1e}, {n} runs)'


# ---------------------------------------------------------------- driver
def run_case(case, cfgs, only=None, tmax=60):
    """yields dicts(name, cfg, status, detail, inputs)"""
    t0 = time.time()
    for cfg in cfgs:
        if time.time() - t0 > tmax:
            break
        try:
            s = S(cfg)
            case.f(s)
        except Reject:
            continue
        for kind, name, code, spec, kw in s.obls:
            if only is not None and name not in only:
                continue
            if kw.get('symbolic_only'):
                continue
            t1 = time.time()
            try:
                st, d = run_obligation(case, cfg, kind, name, code, spec, kw, s)
            except Reject:
                continue
            yield dict(case=case.id, name=name, cfg=cfg, status=st, detail=d, inputs=dict(s.inputs), time=round(time.time() - t1, 3))
