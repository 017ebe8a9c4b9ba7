"""Contracts for flax/optax/einops.

linen layers: an unspecified function of (options, parameters, input) with the documented output shape, applied to every sample of the
leading axes separately (Dense and LayerNorm: to every vector of the last axis).
"""
import dataclasses
from fractions import Fraction
from .terms import *
from .terms import const as C
from .sarray import *
from .sarray import A, asarray, Sum, dim_t, dim_out, dim_eq
from .ctx import Unsupported, ShapeError, CTX, entails
from . import fakejax as fj
from .fakejax import _Mod

_SCOPE = [None]      # current scope path (list of names) while applying


class _ModuleMeta(type):
    def __new__(m, name, bases, ns):
        cls = super().__new__(m, name, bases, ns)
        if bases:
            anns = {}
            for b in reversed(cls.__mro__):
                anns.update(b.__dict__.get('__annotations__', {}))
            cls.__vp_fields__ = [(k, getattr(cls, k, dataclasses.MISSING)) for k in anns if k not in ('name', 'parent')]
            call = ns.get('__call__')
            if call is not None:
                def wrapped(self, *a, __call=call, **k):
                    return self._vp_run(lambda: __call(self, *a, **k))
                cls.__call__ = wrapped
        return cls


class Module(metaclass=_ModuleMeta):
    def __init__(self, *args, name=None, parent='unset', **kw):
        fs = self.__vp_fields__
        for (k, d), v in zip(fs, args):
            kw[k] = v
        for k, d in fs:
            if k in kw:
                setattr(self, k, kw.pop(k))
            elif d is not dataclasses.MISSING:
                setattr(self, k, d)
            else:
                raise TypeError(f'missing argument {k}')
        if kw:
            raise TypeError(f'unexpected arguments {list(kw)}')
        self.name = name
        self._counts = {}
        self.__post_init__()
        self._scope = None
        if _SCOPE[0] is not None and parent != None:
            self._scope = _SCOPE[0].child(name or type(self).__name__, name is None)

    def __post_init__(self):
        pass

    def _vp_run(self, f):
        if self._scope is None:
            raise Unsupported('unbound module call')
        old = _SCOPE[0]
        self._scope.counts.clear()
        _SCOPE[0] = self._scope
        try:
            return f()
        finally:
            _SCOPE[0] = old

    def param(self, name, init, *args):
        return self._scope.param(name, init, *args)

    def apply(self, variables, *args, **kw):
        old = _SCOPE[0], self._scope
        self._scope = Scope((), variables)
        try:
            return self(*args, **kw)
        finally:
            _SCOPE[0], self._scope = old

    def init(self, key, *args, **kw):
        """the parameters: arrays of the shapes the layers ask for, with unspecified content"""
        store = {}
        old = _SCOPE[0], self._scope
        self._scope = Scope((), {'params': Tok('init')}, store)
        try:
            self(*args, **kw)
        finally:
            _SCOPE[0], self._scope = old
        return {'params': store}


class Tok:
    """an unspecified tree of parameters"""

    def __init__(self, path):
        self.path = path

    def __getitem__(self, name):
        return Tok(self.path + '/' + name)


class Scope:
    def __init__(self, path, variables, store=None):
        self.path, self.variables, self.store = path, variables, store
        self.counts = {}

    def child(self, name, auto):
        if auto:
            i = self.counts.get(name, 0)
            self.counts[name] = i + 1
            name = f'{name}_{i}'
        elif self.counts.get('=' + name):
            raise ValueError(f'duplicate submodule name {name}')
        if self.counts.get('=' + name):
            raise ValueError(f'duplicate submodule name {name}')
        self.counts['=' + name] = 1
        return Scope(self.path + (name,), self.variables, self.store)

    def param(self, name, init, *args):
        t = self.variables['params'] if 'params' in self.variables else {}
        for n in self.path + (name,):
            if isinstance(t, dict) and n not in t:
                raise KeyError(f'no parameter {n} at {self.path}')
            t = t[n]
        if isinstance(t, Tok):
            dims = asarray(init(fj.asarray(0), *args)).dims
            nm = 'P:' + t.path
            t = A(dims, lambda i: fn(nm, *i), 'f')
        if self.store is not None:
            d = self.store
            for n in self.path:
                d = d.setdefault(n, {})
            d[name] = t
        return t


def _lam(x, lead=()):
    """x as a function of its trailing axes"""
    vs = [fresh('s') for _ in x.dims[len(lead):]]
    return lam(vs, x.dims[len(lead):], x.num(tuple(lead) + tuple(vs)))


def uf_layer(tag, x, lead, out, params=()):
    """a layer that treats the leading axes as independent samples: an unspecified function of the parameters and of the
    trailing axes of its input, of the given output shape"""
    xs = [asarray(y) for y in x] if isinstance(x, (tuple, list)) else [asarray(x)]
    x = xs[0]
    for y in xs[1:]:
        if not all(dim_eq(p, q) for p, q in zip(x.dims[:lead], y.dims[:lead])):
            raise ShapeError('samples')
    ps = [_lam(asarray(p)) for p in params]
    memo = {}

    def f(i):
        h = tuple(i[:lead])
        if h not in memo:
            memo[h] = [_lam(y, h) for y in xs]
        return fn('NN:' + tag, *ps, *memo[h], *i[lead:])
    return A(tuple(x.dims[:lead]) + tuple(out), f, 'f')


def _opts(*a):
    return '|'.join(str(x) for x in a)


def _shape(*dims):
    ds = tuple(dim_t(d) for d in dims)
    return lambda *a: A(ds, lambda i: C(Fraction(0)), 'f')


class Dense(Module):
    features: int
    use_bias: bool = True
    dtype: object = None
    param_dtype: object = None
    kernel_init: object = None
    bias_init: object = None

    def __call__(self, x):
        x = asarray(x)
        ps = [self.param('kernel', _shape(x.dims[-1], self.features))]
        if self.use_bias:
            ps.append(self.param('bias', _shape(self.features)))
        return uf_layer(_opts('Dense', self.use_bias), x, x.ndim - 1, (dim_t(self.features),), ps)


class Conv(Module):
    features: int
    kernel_size: object
    strides: object = 1
    padding: object = 'SAME'
    use_bias: bool = True
    dtype: object = None
    param_dtype: object = None
    kernel_init: object = None
    bias_init: object = None

    def __call__(self, x):
        x = asarray(x)
        ks = tuple(self.kernel_size) if isinstance(self.kernel_size, (tuple, list)) else (self.kernel_size,)
        if len(ks) != 2 or x.ndim < 3:
            raise Unsupported('conv rank')
        st = self.strides
        st = (1, 1) if st is None else (st, st) if isinstance(st, int) else tuple(st)
        pad = self.padding
        if isinstance(pad, int):
            pad = ((pad, pad), (pad, pad))
        elif pad != 'SAME' and not isinstance(pad, str):
            pad = tuple((q, q) if isinstance(q, int) else tuple(q) for q in pad)
            pad = pad * 2 if len(pad) == 1 else pad
        elif pad != 'SAME':
            raise Unsupported('conv padding')
        if pad == 'SAME' and st == (1, 1) and all(k % 2 == 1 for k in ks):
            pad = tuple((k // 2, k // 2) for k in ks)      # the same padding
        out = []
        for d, k, s, i in zip(x.dims[-3:-1], ks, st, range(2)):
            if pad == 'SAME':
                out.append(idiv(add(d, C(s - 1)), C(s)))
            else:
                t = add(d, C(sum(pad[i]) - k))
                out.append(fj.N.simp(add(idiv(t, C(s)), ONE) if s != 1 else add(t, ONE)))
        ps = [self.param('kernel', _shape(*ks, x.dims[-1], self.features))]
        if self.use_bias:
            ps.append(self.param('bias', _shape(self.features)))
        return uf_layer(_opts('Conv', ks, st, pad, self.use_bias), x, x.ndim - 3, tuple(out) + (dim_t(self.features),), ps)


class GroupNorm(Module):
    num_groups: int = 32
    epsilon: float = 1e-6
    dtype: object = None
    use_bias: bool = True
    use_scale: bool = True

    def __call__(self, x):
        x = asarray(x)
        c = x.dims[-1]
        if isc(c) and cval(c) % self.num_groups:
            raise ValueError('Number of groups does not divide the number of channels')
        ps = ([self.param('bias', _shape(c))] if self.use_bias else []) + ([self.param('scale', _shape(c))] if self.use_scale else [])
        return uf_layer(_opts('GroupNorm', self.num_groups, self.epsilon, self.use_bias, self.use_scale), x, 1, x.dims[1:], ps)


class LayerNorm(Module):
    epsilon: float = 1e-6
    dtype: object = None
    use_bias: bool = True
    use_scale: bool = True

    def __call__(self, x):
        x = asarray(x)
        c = x.dims[-1]
        ps = ([self.param('bias', _shape(c))] if self.use_bias else []) + ([self.param('scale', _shape(c))] if self.use_scale else [])
        return uf_layer(_opts('LayerNorm', self.epsilon, self.use_bias, self.use_scale), x, x.ndim - 1, x.dims[-1:], ps)


initializers = _Mod(_name='flax.linen.initializers', xavier_normal=lambda *a, **k: None, lecun_normal=lambda *a, **k: None,
                    zeros=None, ones=None)


def _act(name):
    def f(x, *a, **k):
        x = asarray(x).astype('float')
        return A(x.dims, lambda i: fn(name, x.fn(i)), 'f')
    return f


linen = _Mod(_name='flax.linen', Module=Module, compact=lambda f: f, Dense=Dense, Conv=Conv, GroupNorm=GroupNorm, LayerNorm=LayerNorm,
             initializers=initializers, gelu=fj.gelu, relu=lambda x: fj.maximum(x, 0), silu=fj.nn.silu, swish=fj.nn.silu,
             softmax=fj.softmax, leaky_relu=_act('leaky_relu'), tanh=fj.tanh, sigmoid=fj.sigmoid)
flax = _Mod(_name='flax', linen=linen)
optax = _Mod(_name='optax', apply_updates=lambda p, u: fj.tree_map(lambda a, b: asarray(a) + b, p, u), GradientTransformation=object)


def rearrange(x, pattern, /, **sizes):
    """Contract of einops.rearrange for patterns of named axes and groups."""
    import re
    x = asarray(x)

    def parse(s):
        return [tuple(tok.strip('()').split()) if tok.startswith('(') else (tok,) for tok in re.findall(r'\([^)]*\)|\S+', s)]
    lhs, rhs = [parse(s) for s in pattern.split('->')]
    if len(lhs) != x.ndim:
        raise ValueError('einops: rank mismatch')
    size = {k: dim_t(v) for k, v in sizes.items()}
    shape = []
    for g, d in zip(lhs, x.dims):
        unk = [a for a in g if a not in size]
        known = ONE
        for a in g:
            if a in size:
                known = mul(known, size[a])
        if len(unk) > 1:
            raise ValueError('einops: could not infer sizes')
        if unk:
            if known is ONE:
                size[unk[0]] = d
            elif isc(d) and isc(known):
                if cval(d) % cval(known):
                    raise ValueError('einops: not divisible')
                size[unk[0]] = C(cval(d) // cval(known))
            else:
                fs = list(fj._factors([d]))
                for f in fj._factors([known]):
                    if f in fs:
                        fs.remove(f)
                    else:
                        hit = [q for q in fs if isc(q) and isc(f) and cval(q) % cval(f) == 0]
                        if not hit:
                            raise Unsupported(f'einops size {d} / {known}')
                        fs.remove(hit[0])
                        fs.append(C(cval(hit[0]) // cval(f)))
                size[unk[0]] = fj._prodd(fs)
        elif not dim_eq(known, d):
            raise ValueError('einops: size mismatch')
        shape += [size[a] for a in g]
    names = [a for g in lhs for a in g]
    y = fj.reshape(x, tuple(dim_out(s) for s in shape))
    onames = [a for g in rhs for a in g]
    if sorted(names) != sorted(onames):
        raise ValueError('einops: axes differ')
    y = fj.transpose(y, [names.index(a) for a in onames])
    out = []
    for g in rhs:
        p = ONE
        for a in g:
            p = mul(p, size[a])
        out.append(dim_out(p))
    return fj.reshape(y, tuple(out))


einops = _Mod(_name='einops', rearrange=rearrange)
