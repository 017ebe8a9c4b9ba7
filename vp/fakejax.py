"""Contracts of the JAX/numpy library functions used by /repo (assumed; validated by differential runs, see rt/).

Each function here is the *contract* of the library function of the same name: it maps symbolic arrays to symbolic
arrays.  The code of /repo is executed unmodified on top of it.
"""
import builtins as _bi
import functools
import itertools
import sys
import mpmath
from fractions import Fraction
from types import SimpleNamespace
from .terms import *
from .terms import const as C, _node
from .sarray import *
from .sarray import (A, asarray, ewn, ew1, ew2, Sum, Reduce, dim_t, dim_out, dim_eq, bshape, bidx, castk, broadcast_to,
                     transpose, swapaxes, matmul, power, stack0, getitem, abs_t, SymList, kind_join, norm_slice,
                     contract_dim, dtype_kind, _DType, float32, float64, int32, int64, uint32, bool_)
from .ctx import CTX, decide, entails, Unsupported, UnsupportedAttr, ShapeError
from . import norm as N


USED = set()      # library contracts the code of /repo asked for


class _Mod(SimpleNamespace):
    """A faked module: an attribute without a contract is 'unsupported', never an error of the code."""

    def __getattribute__(self, name):
        r = SimpleNamespace.__getattribute__(self, name)
        if name[:1] != '_' and not isinstance(r, (_Mod, _JnpProxy)):
            f = sys._getframe(1).f_globals.get('__name__', '')
            if f[:4] == 'fbs.' or f == 'fbs':
                USED.add(f'{SimpleNamespace.__getattribute__(self, "__dict__").get("_name", "?")}.{name}')
        return r

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        raise UnsupportedAttr(f'no contract for {self.__dict__.get("_name", "?")}.{name}')


# ---------------------------------------------------------------- pytrees
def is_leaf(x):
    return not isinstance(x, (tuple, list, dict)) and x is not None


def tree_flatten(x):
    if x is None:
        return [], ('none',)
    if isinstance(x, tuple):
        ls, ds = [], []
        for e in x:
            l, d = tree_flatten(e)
            ls += l
            ds.append((d, len(l)))
        return ls, ('tuple', type(x), ds)
    if isinstance(x, list):
        ls, ds = [], []
        for e in x:
            l, d = tree_flatten(e)
            ls += l
            ds.append((d, len(l)))
        return ls, ('list', list, ds)
    if isinstance(x, dict):
        ls, ds = [], []
        ks = sorted(x)
        for k in ks:
            l, d = tree_flatten(x[k])
            ls += l
            ds.append((d, len(l)))
        return ls, ('dict', ks, ds)
    return [x], ('leaf',)


def tree_unflatten(d, ls):
    ls = list(ls)
    if d[0] == 'none':
        return None
    if d[0] == 'leaf':
        return ls[0]
    out = []
    p = 0
    for dd, n in d[2]:
        out.append(tree_unflatten(dd, ls[p:p + n]))
        p += n
    if d[0] == 'tuple':
        if hasattr(d[1], '_fields'):
            return d[1](*out)
        return tuple(out)
    if d[0] == 'list':
        return out
    return dict(zip(d[1], out))


def tree_map(f, t, *rest, is_leaf=None):
    ls, d = tree_flatten(t)
    rs = [tree_flatten(r)[0] for r in rest]
    return tree_unflatten(d, [f(*a) for a in zip(ls, *rs)])


def same_tree(a, b):
    def strip(d):
        if d[0] in ('leaf', 'none'):
            return d[0]
        return (d[0], d[1] if d[0] == 'dict' else None, tuple(strip(x) for x, _ in d[2]))
    return strip(a) == strip(b)


# ---------------------------------------------------------------- helpers
class hyps:
    """temporarily add hypotheses"""

    def __init__(self, hs):
        self.hs = list(hs)

    def __enter__(self):
        self.old = CTX.hyps
        CTX.hyps = CTX.hyps + self.hs

    def __exit__(self, *a):
        CTX.hyps = self.old


def in_range(v, n):
    return [le(ZERO, v), lt(v, n)]


def shape_of(s):
    if s is None:
        return ()
    if isinstance(s, (tuple, list)):
        return tuple(dim_t(x) for x in s)
    return (dim_t(s),)


def pyint(x):
    if isinstance(x, A):
        return int(x)
    return int(x)


def axes_of(axis, nd):
    if axis is None:
        return tuple(range(nd))
    if isinstance(axis, (tuple, list)):
        r = tuple(pyint(a) for a in axis)
    else:
        r = (pyint(axis),)
    out = []
    for a in r:
        if a < -nd or a >= nd:
            raise ValueError(f'axis {a} is out of bounds for array of dimension {nd}')
        out.append(a % nd)
    if len(set(out)) != len(out):
        raise ValueError('duplicate axis')
    return tuple(out)


def reduce_axes(x, axis, keepdims, red, kind=None):
    """red(dims, f) reduces f over a list of dims"""
    x = asarray(x)
    ax = axes_of(axis, x.ndim)
    keep = [i for i in range(x.ndim) if i not in ax]
    rd = [x.dims[a] for a in ax]
    if keepdims:
        dims = tuple(ONE if i in ax else x.dims[i] for i in range(x.ndim))
    else:
        dims = tuple(x.dims[i] for i in keep)

    def f(idx):
        base = [None] * x.ndim
        if keepdims:
            for i in keep:
                base[i] = idx[i]
        else:
            for p, i in enumerate(keep):
                base[i] = idx[p]

        def g(js):
            full = list(base)
            for a, j in zip(ax, js):
                full[a] = j
            return x.fn(tuple(full))

        return red(rd, g)

    return A(dims, f, kind or x.kind)


# SPLIT: a merged dimension (created by reshape) -> the dimensions it merges.
# A sum over a merged dimension is written as nested sums over its parts (the
# row-major index is a bijection); FLAT remembers quotient and remainder of the
# flat indices built that way.
SPLIT = {}
FLAT = {}


def _merged(d, g):
    parts = SPLIT.get(d)
    if parts is None:
        return Sum(d, g)

    def go(ds, flat):
        if not ds:
            return g(flat)
        def body(i):
            if flat is None:
                return go(ds[1:], i)
            f = add(mul(flat, ds[0]), i)
            FLAT[f, ds[0]] = flat, i
            return go(ds[1:], f)
        return Sum(ds[0], body)
    return go(list(parts), None)


def sum_red(rd, g):
    def go(ds, js):
        if not ds:
            return to_num(g(js))
        return _merged(ds[0], lambda i: go(ds[1:], js + [i]))
    return go(list(rd), [])


def jsum(x, axis=None, dtype=None, keepdims=False, where=None, initial=None, out=None):
    x = asarray(x)
    if where is not None:
        x = jwhere(where, x, 0)
    r = reduce_axes(x, axis, keepdims, sum_red, 'i' if x.kind == 'b' else x.kind)
    if x.kind == 'f':
        r0 = r
        r = A(r0.dims, lambda i: toreal(r0.fn(i)), 'f')
    if initial is not None:
        r = r + initial
    return r


def count(x, axis):
    x = asarray(x)
    r = ONE
    for a in axes_of(axis, x.ndim):
        r = mul(r, x.dims[a])
    return r


def jmean(x, axis=None, dtype=None, keepdims=False, where=None):
    x = asarray(x).astype('float')
    n = count(x, axis)
    s = jsum(x, axis, keepdims=keepdims)
    return A(s.dims, lambda i: div(s.fn(i), toreal(n)), 'f')


def jvar(x, axis=None, ddof=0, keepdims=False, **kw):
    x = asarray(x).astype('float')
    m = jmean(x, axis, keepdims=True)
    n = sub(count(x, axis), C(ddof))
    s = jsum((x - m) ** 2, axis, keepdims=keepdims)
    return A(s.dims, lambda i: div(s.fn(i), toreal(n)), 'f')


def jstd(x, axis=None, ddof=0, keepdims=False, **kw):
    return sqrt(jvar(x, axis, ddof, keepdims))


def red_ext(name):
    def red(rd, g):
        def go(ds, js):
            if not ds:
                return to_num(g(js))
            return Reduce(name, ds[0], lambda i: go(ds[1:], js + [i]))
        return go(list(rd), [])

    def f(x, axis=None, keepdims=False, initial=None, where=None, out=None):
        x = asarray(x)
        r = reduce_axes(x, axis, keepdims, red, 'i' if x.kind == 'b' else None)
        if initial is not None:
            r = (maximum if name == 'Max' else minimum)(r, initial)
        return r
    return f


jmax, jmin = red_ext('Max'), red_ext('Min')


def prod_red(rd, g):
    ds = list(rd)
    r = ONE
    for js in itertools.product(*[_bi.range(_cint(d)) for d in ds]):
        r = mul(r, to_num(g([C(j) for j in js])))
    return r


def _cint(d):
    if isc(d):
        return cval(d)
    raise Unsupported('needs a concrete dimension')


def jprod(x, axis=None, keepdims=False, **kw):
    return reduce_axes(x, axis, keepdims, prod_red)


def jall(x, axis=None, keepdims=False, **kw):
    x = asarray(x).astype('bool')

    def red(rd, g):
        if _bi.all(isc(d) for d in rd):
            return and_(*[g([C(j) for j in js]) for js in itertools.product(*[_bi.range(cval(d)) for d in rd])])
        def go(ds, js):
            if not ds:
                return ite(g(js), ZERO, ONE)
            return Sum(ds[0], lambda i: go(ds[1:], js + [i]))
        return eq(go(list(rd), []), ZERO)
    return reduce_axes(x, axis, keepdims, red, 'b')


def jany(x, axis=None, keepdims=False, **kw):
    r = jall(~asarray(x).astype('bool'), axis, keepdims)
    return ~r


def jwhere(c, x=None, y=None):
    if x is None:
        raise Unsupported('jnp.where with one argument')
    c = asarray(c)
    if c.kind != 'b':
        c = c.astype('bool')
    x, y = asarray(x), asarray(y)
    k = kind_join(x.kind, y.kind)
    return ewn(lambda a, b, d: ite(a, castk(b, k), castk(d, k)), c, x, y, kind=k)


def maximum(x, y):
    return ew2(max_, x, y)


def minimum(x, y):
    return ew2(min_, x, y)


def un(name, f=None):
    def g(x, *a, **kw):
        x = asarray(x)
        return A(x.dims, lambda i: (f or (lambda t: fn(name, toreal(t))))(x.num(i)), 'f')
    return g


exp = un('exp')
log = un('log')
sqrt = un('sqrt', lambda t: pow_(toreal(t), Fraction(1, 2)))
sin, cos, tan, tanh = un('sin'), un('cos'), un('tan'), un('tanh')
log1p = un('log1p', lambda t: fn('log', add(t, C(Fraction(1)))))
expm1 = un('expm1', lambda t: sub(fn('exp', toreal(t)), C(Fraction(1))))
log2 = un('log2', lambda t: div(fn('log', toreal(t)), fn('log', C(Fraction(2)))))
exp2 = un('exp2', lambda t: fn('exp', mul(fn('log', C(Fraction(2))), toreal(t))))
rsqrt = un('rsqrt', lambda t: pow_(toreal(t), Fraction(-1, 2)))
reciprocal = un('reciprocal', lambda t: div(ONE, toreal(t)))
erf = un('erf')


def jabs(x):
    return ew1(abs_t, x)


def square(x):
    x = asarray(x)
    return x * x


def sign(x):
    return ew1(lambda t: ite(lt(ZERO, t), ONE if t.sort == 'I' else C(Fraction(1)), ite(lt(t, ZERO), C(-1) if t.sort == 'I' else C(Fraction(-1)), ZERO if t.sort == 'I' else C(Fraction(0)))), x)


def floor(x):
    return ew1(lambda t: toreal(fn('floor', t)), asarray(x).astype('float'))


def ceil(x):
    return ew1(lambda t: neg(toreal(fn('floor', neg(t)))), asarray(x).astype('float'))


def clip(x, a_min=None, a_max=None, min=None, max=None, **kw):
    lo = a_min if a_min is not None else min
    hi = a_max if a_max is not None else max
    x = asarray(x)
    if lo is not None:
        x = maximum(x, lo)
    if hi is not None:
        x = minimum(x, hi)
    return x


def isnan(x):
    x = asarray(x)
    if NUMERIC[0]:
        return A(x.dims, lambda i: C(bool(mpmath.isnan(cval(x.num(i))))) if isinstance(cval(x.num(i)), mpf) else FALSE, 'b')
    return A(x.dims, lambda i: FALSE, 'b')


def isinf(x):
    x = asarray(x)
    if NUMERIC[0]:
        return A(x.dims, lambda i: C(bool(isinstance(cval(x.num(i)), mpf) and mpmath.isinf(cval(x.num(i))))), 'b')
    return A(x.dims, lambda i: FALSE, 'b')


def isfinite(x):
    return ~(isnan(x) | isinf(x))


def nansum(x, axis=None, **kw):
    x = asarray(x)
    return jsum(jwhere(isnan(x), 0., x), axis, **kw)


def nan_to_num(x, nan=0., posinf=None, neginf=None, **kw):
    x = asarray(x)
    if not NUMERIC[0]:
        return x
    return jwhere(isnan(x), nan, x)


# ---- creation
def zeros(shape, dtype=None):
    k = dtype_kind(dtype) or 'f'
    t = {'f': C(Fraction(0)), 'i': ZERO, 'b': FALSE}[k]
    return A(shape_of(shape), lambda i: t, k)


def ones(shape, dtype=None):
    k = dtype_kind(dtype) or 'f'
    t = {'f': C(Fraction(1)), 'i': ONE, 'b': TRUE}[k]
    return A(shape_of(shape), lambda i: t, k)


def full(shape, v, dtype=None):
    v = asarray(v)
    if dtype is not None:
        v = v.astype(dtype)
    return broadcast_to(v, shape_out(shape_of(shape)))


def shape_out(d):
    return tuple(dim_out(x) for x in d)


def zeros_like(x, dtype=None, shape=None):
    x = asarray(x)
    return zeros(x.shape if shape is None else shape, dtype or x.dtype)


def ones_like(x, dtype=None):
    x = asarray(x)
    return ones(x.shape, dtype or x.dtype)


def full_like(x, v, dtype=None):
    x = asarray(x)
    return full(x.shape, asarray(v).astype(dtype or x.dtype))


def eye(n, m=None, k=0, dtype=None):
    n = dim_t(n)
    m = n if m is None else dim_t(m)
    return A((n, m), lambda i: ite(eq(add(i[0], C(int(k))), i[1]), C(Fraction(1)), C(Fraction(0))), 'f', tag=('eye',) if k == 0 and m is n else None)


def arange(start, stop=None, step=None, dtype=None):
    args = [asarray(a) for a in (start, stop, step) if a is not None]
    if _bi.any(a.kind == 'f' for a in args):
        if step is None or True:
            lo = asarray(0 if stop is None else start)
            hi = asarray(start if stop is None else stop)
            st = asarray(1 if step is None else step)
            lt_, ht, stt = lo.term(), hi.term(), st.term()
            n = neg(fn('floor', neg(div(sub(ht, lt_), stt))))
            if not isc(n):
                n = N.simp(n)
            return A((max_(ZERO, n) if not isc(n) else C(_bi.max(0, cval(n))),), lambda i: toreal(add(lt_, mul(stt, i[0]))), 'f')
    lo = ZERO if stop is None else dim_t(start)
    hi = dim_t(start) if stop is None else dim_t(stop)
    st = ONE if step is None else dim_t(step)
    n = sub(hi, lo)
    if st is not ONE:
        n = idiv(add(n, sub(st, ONE)), st)
    if not entails(le(ZERO, n)):
        n = max_(ZERO, n)
    k = dtype_kind(dtype) or 'i'
    return A((n,), lambda i: castk(add(lo, mul(st, i[0])), k), k)


def linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    a, b = asarray(start).astype('float'), asarray(stop).astype('float')
    dims = bshape(a.dims, b.dims)
    n = dim_t(num)
    if axis != 0:
        raise Unsupported('linspace axis')

    def f(idx):
        i, r = idx[0], idx[1:]
        x, y = a.fn(bidx(a.dims, r)), b.fn(bidx(b.dims, r))
        den = sub(n, ONE) if endpoint else n
        if isc(den) and cval(den) == 0:
            return x
        v = add(x, mul(div(toreal(i), toreal(den)), sub(y, x)))
        if not isc(den):
            return ite(eq(den, ZERO), x, v)
        return v
    r = A((n,) + dims, f, 'f')
    if retstep:
        d = n if not endpoint else sub(n, ONE)
        return r, (b - a) / dim_out(d)
    return r


def meshgrid(*xs, indexing='xy', sparse=False):
    xs = [asarray(x) for x in xs]
    if len(xs) != 2 and indexing == 'xy' and len(xs) > 2:
        raise Unsupported('meshgrid >2')
    n = len(xs)
    ds = [x.dims[0] for x in xs]
    if indexing == 'xy' and n == 2:
        dims = (ds[1], ds[0])
        return [A(dims, lambda i: xs[0].fn((i[1],)), xs[0].kind), A(dims, lambda i: xs[1].fn((i[0],)), xs[1].kind)]
    return [A(tuple(ds), lambda i, q=q: xs[q].fn((i[q],)), xs[q].kind) for q in _bi.range(n)]


# ---- shape manipulation
def reshape(x, shape=None, *more, order='C', newshape=None):
    x = asarray(x)
    if shape is None:
        shape = newshape
    if more:
        shape = (shape,) + more
    if not isinstance(shape, (tuple, list)):
        shape = (shape,)
    if order != 'C':
        raise Unsupported('reshape order')
    dims = [dim_t(s) for s in shape]
    unk = [i for i, d in enumerate(dims) if isc(d) and cval(d) == -1]
    src = list(x.dims)
    if len(unk) > 1:
        raise ValueError('can only specify one unknown dimension')
    # cancel equal dims to keep the index arithmetic simple
    return _reshape(x, src, dims, unk)


def _prodd(ds):
    r = ONE
    for d in ds:
        r = mul(r, d)
    return r


def _reshape(x, src, dims, unk):
    if unk:
        rest = _prodd([d for i, d in enumerate(dims) if i not in unk])
        tot = _prodd(src)
        if isc(rest) and isc(tot):
            if cval(rest) == 0 or cval(tot) % cval(rest):
                raise ShapeError(f'cannot reshape {src} into {dims}')
            d = C(cval(tot) // cval(rest))
        else:
            # multiset cancellation
            a = list(_factors(src))
            ok = True
            for f in _factors([d for i, d in enumerate(dims) if i not in unk]):
                for g in a:
                    if g is f or dim_eq(g, f):
                        a.remove(g)
                        break
                else:
                    ok = False
                    break
            d = _prodd(a) if ok else N.simp(idiv(tot, rest))
            if not ok and not entails(eq(mul(d, rest), tot)):
                raise Unsupported(f'reshape with unknown dimension {src} -> {dims}')
        dims = [d if i in unk else e for i, e in enumerate(dims)]
    # group
    groups = []
    i = j = 0
    src, dims = list(src), list(dims)
    while i < len(src) or j < len(dims):
        gi, gj = [], []
        if i < len(src) and j < len(dims) and dim_eq(src[i], dims[j]):
            groups.append(([i], [j]))
            i += 1
            j += 1
            continue
        # skip ones
        if i < len(src) and isc(src[i]) and cval(src[i]) == 1:
            groups.append(([i], []))
            i += 1
            continue
        if j < len(dims) and isc(dims[j]) and cval(dims[j]) == 1:
            groups.append(([], [j]))
            j += 1
            continue
        if i >= len(src) or j >= len(dims):
            raise ShapeError(f'cannot reshape {src} into {dims}')
        gi, gj = [i], [j]
        pi, pj = src[i], dims[j]
        i += 1
        j += 1
        while True:
            if dim_eq(pi, pj) or _prodeq([src[q] for q in gi], [dims[q] for q in gj]):
                break
            # extend the side that is a divisor
            can_i, can_j = i < len(src), j < len(dims)
            if isc(pi) and isc(pj):
                if cval(pi) < cval(pj) and can_i:
                    side = 0
                elif can_j:
                    side = 1
                else:
                    raise ShapeError(f'cannot reshape {src} into {dims}')
            elif can_i and _subset(gi, src, gj, dims):
                side = 0
            elif can_j and _subset(gj, dims, gi, src):
                side = 1
            elif can_i and entails(lt(pi, pj)):
                side = 0
            elif can_j and entails(lt(pj, pi)):
                side = 1
            elif can_i and not can_j:
                side = 0
            elif can_j and not can_i:
                side = 1
            elif can_i and can_j:
                # take everything
                gi += list(_bi.range(i, len(src)))
                gj += list(_bi.range(j, len(dims)))
                i, j = len(src), len(dims)
                pi, pj = _prodd([src[q] for q in gi]), _prodd([dims[q] for q in gj])
                continue
            else:
                if isc(pi) and isc(pj) or not _maybe_eq(pi, pj):
                    raise ShapeError(f'cannot reshape {src} into {dims}')
                raise Unsupported(f'reshape {src} -> {dims}')
            if side == 0:
                gi.append(i)
                pi = mul(pi, src[i])
                i += 1
            else:
                gj.append(j)
                pj = mul(pj, dims[j])
                j += 1
        groups.append((gi, gj))
    for gi, gj in groups:
        if len(gi) > 1 and len(gj) == 1 and not isc(dims[gj[0]]):
            SPLIT[dims[gj[0]]] = tuple(src[q] for q in gi)

    def f(idx):
        out = [ZERO] * len(src)
        for gi, gj in groups:
            if len(gi) == 1 and len(gj) == 1:
                out[gi[0]] = idx[gj[0]]
                continue
            if not gi:
                continue
            if not gj:
                continue
            flat = ZERO
            for q in gj:
                flat = add(mul(flat, dims[q]), idx[q])
            rem = flat
            for p, q in enumerate(reversed(gi)):
                if p == len(gi) - 1:
                    out[q] = rem
                else:
                    out[q] = _smod(rem, src[q])
                    rem = _sdiv(rem, src[q])
        return x.fn(tuple(out))

    return A(tuple(dims), f, x.kind)


def _smod(a, b):
    if (a, b) in FLAT:
        return FLAT[a, b][1]
    r = mod(a, b)
    if r.op == 'mod':
        return r
    return r


def _sdiv(a, b):
    if (a, b) in FLAT:
        return FLAT[a, b][0]
    return idiv(a, b)


def _factors(ds):
    for d in ds:
        if d.op == 'mul':
            for a in d.args:
                yield a
        elif not (isc(d) and cval(d) == 1):
            yield d


def _prodeq(a, b):
    if dim_eq(_prodd(a), _prodd(b)):
        return True
    p = N.padd(N.norm(_prodd(a)), N.pscale(N.norm(_prodd(b)), -1))
    return p.zero()


def _subset(gi, src, gj, dims):
    a = list(_factors([src[q] for q in gi]))
    b = list(_factors([dims[q] for q in gj]))
    for f in a:
        for g in b:
            if g is f:
                b.remove(g)
                break
        else:
            return False
    return True


def _maybe_eq(a, b):
    return not entails(ne(a, b))


def ravel(x, order='C'):
    return reshape(x, (-1,))


def expand_dims(x, axis):
    x = asarray(x)
    ax = axis if isinstance(axis, (tuple, list)) else (axis,)
    n = x.ndim + len(ax)
    ax = sorted(axes_of(ax, n))
    keep = [i for i in _bi.range(n) if i not in ax]
    dims = [ONE] * n
    for p, i in enumerate(keep):
        dims[i] = x.dims[p]
    return A(tuple(dims), lambda idx: x.fn(tuple(idx[i] for i in keep)), x.kind)


def squeeze(x, axis=None):
    x = asarray(x)
    if axis is None:
        ax = []
        for i, d in enumerate(x.dims):
            if isc(d):
                if cval(d) == 1:
                    ax.append(i)
            elif not entails(ne(d, ONE)):
                if decide(eq(d, ONE)):
                    ax.append(i)
    else:
        ax = axes_of(axis, x.ndim)
        for a in ax:
            if not dim_eq(x.dims[a], ONE):
                raise ValueError('cannot select an axis to squeeze out which has size not equal to one')
    keep = [i for i in _bi.range(x.ndim) if i not in ax]

    def f(idx):
        out = [ZERO] * x.ndim
        for p, i in enumerate(keep):
            out[i] = idx[p]
        return x.fn(tuple(out))
    return A(tuple(x.dims[i] for i in keep), f, x.kind)


def moveaxis(x, s, d):
    x = asarray(x)
    s = axes_of(s, x.ndim)
    d = axes_of(d, x.ndim)
    order = [i for i in _bi.range(x.ndim) if i not in s]
    for dd, ss in sorted(zip(d, s)):
        order.insert(dd, ss)
    return transpose(x, order)


def concatenate(xs, axis=0, dtype=None):
    if isinstance(xs, A):
        xs = [xs[i] for i in _bi.range(len(xs))]
    if isinstance(xs, SymList):
        a = xs.to_array()        # (n, m, ...) -> (n*m, ...)
        if axis != 0:
            raise Unsupported('concatenate of a symbolic list along axis != 0')
        return reshape(a, (mulD(a.dims[0], a.dims[1]),) + shape_out(a.dims[2:]))
    xs = [asarray(x) for x in xs]
    if not xs:
        raise ValueError('need at least one array to concatenate')
    nd = xs[0].ndim
    if nd == 0:
        raise ValueError('Zero-dimensional arrays cannot be concatenated.')
    (ax,) = axes_of(axis, nd)
    for x in xs[1:]:
        if x.ndim != nd:
            raise ShapeError('concatenate: ranks differ')
        for i in _bi.range(nd):
            if i != ax and not dim_eq(x.dims[i], xs[0].dims[i]):
                raise ShapeError(f'concatenate: {x.dims} vs {xs[0].dims}')
    k = kind_join(*[x.kind for x in xs])
    if len(xs) > 1:
        xs = [x for x in xs if x.dims[ax] is not ZERO] or xs[:1]
    offs = [ZERO]
    for x in xs:
        offs.append(add(offs[-1], x.dims[ax]))
    dims = list(xs[0].dims)
    dims[ax] = offs[-1]

    def f(idx):
        i = idx[ax]
        out = None
        for q in _bi.range(len(xs) - 1, -1, -1):
            x = xs[q]
            j = list(idx)
            j[ax] = sub(i, offs[q])
            if out is None:
                out = lambda j=tuple(j), x=x: castk(x.fn(j), k)
                continue
            c = lt(i, offs[q + 1])
            if c is TRUE:
                out = lambda j=tuple(j), x=x: castk(x.fn(j), k)
            elif c is FALSE:
                pass
            else:
                prev = out
                out = lambda j=tuple(j), x=x, c=c, prev=prev, q=q: join(c, castk(x.fn(j), k), prev(), i, q)
        return out()

    def join(c, a, b, i, q):
        if i.op == 'v':
            # a single row in front of (behind) the states of a recursion that is its base (next) state
            if is_L(b) and dim_eq(xs[q].dims[ax], ONE) and same_state(b, i, offs[q], a):
                return b
            if q == len(xs) - 2 and is_L(a) and dim_eq(xs[q + 1].dims[ax], ONE) and same_state(a, i, offs[q + 1], b):
                return a
        return ite(c, a, b)

    def g(idx):
        i = idx[ax]
        if i.op == 'v' or isc(i):
            return f(idx)
        v = fresh('v')
        with hyps(in_range(v, dims[ax])):
            t = f(idx[:ax] + (v,) + idx[ax + 1:])
        return subst(t, {v: i})

    return A(tuple(dims), g if k != 'K' and _bi.any(dim_eq(x.dims[ax], ONE) for x in xs) else f, k)


def same_state(st, i, p, t):
    """is t the recursion state st at index i = p?"""
    lid, c, ctx, k, idx = loop_parts(st)
    k = N.simp(subst(k, {i: p}))
    cp = LOOPS[lid].comps[c] if lid in LOOPS else None
    if cp is None or _bi.any(i.args[0] in x.fv for x in tuple(ctx) + tuple(idx)):
        return False
    if is_L(t, lid):
        l2, c2, ctx2, k2, idx2 = loop_parts(t)
        return c2 == c and ctx2 == ctx and idx2 == idx and N.simp(k2) is k
    if k is ZERO:
        return subst(cp['init'], {**dict(zip(LOOPS[lid].ctx, ctx)), **dict(zip(cp['idx'], idx))}) is t
    return False


def mulD(a, b):
    return dim_out(mul(a, b))


def stack(xs, axis=0):
    if isinstance(xs, SymList):
        a = xs.to_array()
        return moveaxis(a, 0, axis)
    return concatenate([expand_dims(x, axis) for x in xs], axis)


def atleast_1d(*xs):
    r = [x if asarray(x).ndim >= 1 else reshape(x, (1,)) for x in map(asarray, xs)]
    return r[0] if len(r) == 1 else r


def atleast_2d(*xs):
    r = []
    for x in map(asarray, xs):
        if x.ndim == 0:
            x = reshape(x, (1, 1))
        elif x.ndim == 1:
            x = x[None, :]
        r.append(x)
    return r[0] if len(r) == 1 else r


def hstack(xs):
    if isinstance(xs, A):
        xs = list(xs)
    xs = [atleast_1d(x) for x in xs]
    return concatenate(xs, 0 if xs[0].ndim == 1 else 1)


def vstack(xs):
    return concatenate([atleast_2d(x) for x in xs], 0)


def block(xs):
    def depth(x):
        return 1 + depth(x[0]) if isinstance(x, list) else 0

    def go(x, k):
        if not isinstance(x, list):
            return x
        return concatenate([go(y, k - 1) for y in x], -k)
    k = depth(xs)

    def dims(x):
        return _bi.max(dims(y) for y in x) if isinstance(x, list) else asarray(x).ndim
    if dims(xs) > 2 or k > 2:
        raise Unsupported('block of more than two dimensions')
    up = atleast_2d if k == 2 else (atleast_1d if k == 1 else asarray)

    def lift_(x):
        return [lift_(y) for y in x] if isinstance(x, list) else up(x)
    return go(lift_(xs), k)


def column_stack(xs):
    xs = [asarray(x) for x in xs]
    return concatenate([x[:, None] if x.ndim == 1 else x for x in xs], 1)


def dstack(xs):
    out = []
    for x in (xs if not isinstance(xs, A) else list(xs)):
        x = asarray(x)
        x = atleast_2d(x) if x.ndim < 2 else x
        out.append(x[..., None] if x.ndim == 2 else x)
    return concatenate(out, 2)


def append(x, v, axis=None):
    if axis is None:
        return concatenate([ravel(x), ravel(v)])
    return concatenate([x, v], axis)


def insert(x, pos, v, axis=None):
    x = asarray(x)
    if axis is None:
        x, axis = ravel(x), 0
    (ax,) = axes_of(axis, x.ndim)
    if isinstance(pos, (list, tuple, slice)) or asarray(pos).ndim != 0:
        raise Unsupported('insert with array position')
    p = dim_t(pos)
    if isc(p) and cval(p) < 0:
        p = add(x.dims[ax], p)
    v = asarray(v)
    tgt = list(x.dims)
    tgt[ax] = ONE
    # numpy: values broadcast to shape with inserted axis of length 1 (moved axis if scalar position)
    if v.ndim < x.ndim:
        # values are broadcast against shape without `ax`... numpy uses moveaxis(values, 0, axis) after array(ndmin=ndim)
        vv = v
        while vv.ndim < x.ndim:
            vv = vv[None]
        vv = moveaxis(vv, 0, ax)
    else:
        vv = moveaxis(v, 0, ax)
    n_ins = vv.dims[ax] if vv.ndim else ONE
    tgt[ax] = n_ins
    vv = broadcast_to(vv, shape_out(tgt))
    lo = x[(slice(None),) * ax + (slice(None, dim_out(p)),)]
    hi = x[(slice(None),) * ax + (slice(dim_out(p), None),)]
    return concatenate([lo, vv.astype(x.dtype) if x.kind != 'K' else vv, hi], ax)


def flip(x, axis=None):
    x = asarray(x)
    ax = axes_of(axis, x.ndim)

    def f(idx):
        return x.fn(tuple(sub(sub(x.dims[i], ONE), t) if i in ax else t for i, t in enumerate(idx)))
    return A(x.dims, f, x.kind)


def roll(x, shift, axis=None):
    x = asarray(x)
    if axis is None:
        if x.ndim != 1:
            return reshape(roll(ravel(x), shift, 0), x.shape)
        axis = 0
    (ax,) = axes_of(axis, x.ndim)
    s = asarray(shift)
    st = s.term()
    n = x.dims[ax]

    def f(idx):
        idx = list(idx)
        idx[ax] = mod(sub(idx[ax], st), n)
        return x.fn(tuple(idx))
    return A(x.dims, f, x.kind)


def take(x, ind, axis=None, mode=None, **kw):
    x = asarray(x)
    if axis is None:
        x, axis = ravel(x), 0
    (ax,) = axes_of(axis, x.ndim)
    return x[(slice(None),) * ax + (asarray(ind),)]


def take_along_axis(x, ind, axis):
    x, ind = asarray(x), asarray(ind)
    (ax,) = axes_of(axis, x.ndim)
    dims = tuple(ind.dims[i] if i == ax else bshape((x.dims[i],), (ind.dims[i],))[0] for i in _bi.range(x.ndim))

    def f(idx):
        j = list(bidx(x.dims, idx))
        j[ax] = ind.fn(bidx(ind.dims, idx))
        return x.fn(tuple(j))
    return A(dims, f, x.kind)


def repeat(x, n, axis=None, total_repeat_length=None):
    x = asarray(x)
    if axis is None:
        x, axis = ravel(x), 0
    (ax,) = axes_of(axis, x.ndim)
    n = asarray(n)
    if n.ndim != 0:
        raise Unsupported('repeat with array')
    nt = n.term()
    dims = list(x.dims)
    dims[ax] = mul(dims[ax], nt)

    def f(idx):
        j = list(idx)
        j[ax] = idiv(j[ax], nt)
        return x.fn(tuple(j))
    return A(tuple(dims), f, x.kind)


def tile(x, reps):
    x = asarray(x)
    reps = tuple(reps) if isinstance(reps, (tuple, list)) else (reps,)
    while x.ndim < len(reps):
        x = x[None]
    reps = (1,) * (x.ndim - len(reps)) + reps
    dims = tuple(mul(d, dim_t(r)) for d, r in zip(x.dims, reps))

    def f(idx):
        return x.fn(tuple(i if (isc(dim_t(r)) and cval(dim_t(r)) == 1) else mod(i, d) for i, d, r in zip(idx, x.dims, reps)))
    return A(dims, f, x.kind)


def split_arr(x, n, axis=0):
    x = asarray(x)
    (ax,) = axes_of(axis, x.ndim)
    if isinstance(n, (list, tuple)) or (isinstance(n, A) and n.ndim):
        cuts = [None] + list(n) + [None]
        return [x[(slice(None),) * ax + (slice(a, b),)] for a, b in zip(cuts[:-1], cuts[1:])]
    d = x.dims[ax]
    if isinstance(n, A) and not isc(n.term()):
        if not entails(eq(mod(d, n.term()), ZERO)) and not any(dim_eq(g, n.term()) for g in _factors([d])):
            raise Unsupported('split into a symbolic number of parts')
        return array_split(x, n, axis)
    n = pyint(n)
    if isc(d):
        if cval(d) % n:
            raise ValueError('array split does not result in an equal division')
        q = C(cval(d) // n)
    else:
        q = N.simp(idiv(d, C(n)))
        if not entails(eq(mul(q, C(n)), d)):
            raise Unsupported('split of symbolic dimension')
    out = []
    for i in _bi.range(n):
        dims = list(x.dims)
        dims[ax] = q

        def f(idx, i=i):
            j = list(idx)
            j[ax] = add(mul(C(i), q), j[ax])
            return x.fn(tuple(j))
        out.append(A(tuple(dims), f, x.kind))
    return out


def array_split(x, n, axis=0):
    """numpy: l % n sections of size l//n + 1 followed by sections of size l//n"""
    x = asarray(x)
    (ax,) = axes_of(axis, x.ndim)
    l, n = x.dims[ax], dim_t(n)
    if isc(n) and isc(l):
        q, r = divmod(cval(l), cval(n))
        cuts = [0]
        for i in _bi.range(cval(n)):
            cuts.append(cuts[-1] + q + (1 if i < r else 0))
        return [x[(slice(None),) * ax + (slice(a, b),)] for a, b in zip(cuts[:-1], cuts[1:])]
    qp, rem = N.simp(idiv(l, n)), N.simp(mod(l, n))
    # exact division is provable for l = m * n
    exact = rem is ZERO or entails(eq(rem, ZERO))
    if not exact:
        f1 = list(_factors([l]))
        for g in f1:
            if g is n or dim_eq(g, n):
                f1.remove(g)
                qp, exact = _prodd(f1), True
                break
    if not exact:
        raise Unsupported('array_split with remainder')

    def get(i):
        dims = list(x.dims)
        dims[ax] = qp

        def f(idx):
            j = list(idx)
            j[ax] = add(mul(i, qp), j[ax])
            return x.fn(tuple(j))
        return A(tuple(dims), f, x.kind)
    return SymList(n, get)


def pad(x, pad_width, mode='constant', constant_values=0):
    x = asarray(x)
    if mode != 'constant':
        raise Unsupported('pad mode')
    pw = pad_width
    if isinstance(pw, int):
        pw = [(pw, pw)] * x.ndim
    if not any(isinstance(p, (list, tuple)) for p in pw):       # (before, after) for every axis
        pw = [(pw[0], pw[-1])]
    pw = [(p[0], p[-1]) for p in pw]
    if len(pw) == 1:
        pw = pw * x.ndim
    if len(pw) != x.ndim:
        raise ShapeError('pad width does not fit the number of axes')
    dims = tuple(add(d, dim_t(a), dim_t(b)) for d, (a, b) in zip(x.dims, pw))
    cv = asarray(constant_values).astype(x.dtype).term()

    def f(idx):
        c = []
        j = []
        for t, d, (a, b) in zip(idx, x.dims, pw):
            s = sub(t, dim_t(a))
            if dim_t(a) is not ZERO:
                c.append(le(ZERO, s))
            if dim_t(b) is not ZERO:
                c.append(lt(s, d))
            j.append(s)
        c = and_(*c)
        if c is TRUE:
            return x.fn(tuple(j))
        if c is FALSE:
            return cv
        return ite(c, x.fn(tuple(j)), cv)
    return A(dims, f, x.kind)


def diff(x, n=1, axis=-1):
    x = asarray(x)
    if n != 1:
        raise Unsupported('diff n')
    (ax,) = axes_of(axis, x.ndim)
    pre = (slice(None),) * ax
    return x[pre + (slice(1, None),)] - x[pre + (slice(None, -1),)]


def cumsum(x, axis=None, dtype=None):
    x = asarray(x)
    if axis is None:
        x, axis = ravel(x), 0
    (ax,) = axes_of(axis, x.ndim)

    def f(idx):
        def g(j):
            k = list(idx)
            k[ax] = j
            return x.num(tuple(k))
        return Sum(add(idx[ax], ONE), g)
    return A(x.dims, f, 'i' if x.kind == 'b' else x.kind)


def searchsorted(a, v, side='left', sorter=None, method=None):
    """Contract: the number of entries of the (sorted) array that are < v ('left') / <= v ('right')."""
    a, v = asarray(a), asarray(v)
    if a.ndim != 1:
        raise Unsupported('searchsorted rank')

    def f(idx):
        t = v.num(idx)
        c = (lambda i: lt(a.num((i,)), t)) if side == 'left' else (lambda i: le(a.num((i,)), t))
        return Sum(a.dims[0], lambda i: ite(c(i), ONE, ZERO))
    return A(v.dims, f, 'i')


def argext(name):
    def f(x, axis=None, keepdims=False):
        x = asarray(x)
        if axis is None:
            x, axis = ravel(x), 0
        (ax,) = axes_of(axis, x.ndim)
        keep = [i for i in _bi.range(x.ndim) if i != ax]
        n = x.dims[ax]

        def g(idx):
            def el(j):
                full = [None] * x.ndim
                for p, i in enumerate(keep):
                    full[i] = idx[p]
                full[ax] = j
                return x.num(tuple(full))
            if isc(n) and NUMERIC[0]:
                best = 0
                for j in _bi.range(1, cval(n)):
                    a, b = cval(el(C(j))), cval(el(C(best)))
                    if (a > b) if name == 'argmax' else (a < b):
                        best = j
                return C(best)
            v = fresh('s')
            return fn(name, lam((v,), (n,), el(v)), sort='I')
        return A(tuple(x.dims[i] for i in keep), g, 'i')
    return f


def sort(x, axis=-1, **kw):
    x = asarray(x)
    (ax,) = axes_of(axis, x.ndim)
    if x.ndim != 1:
        raise Unsupported('sort rank')
    n = x.dims[0]
    if isc(n) and NUMERIC[0]:
        vs = sorted([cval(x.num((C(i),))) for i in _bi.range(cval(n))])
        return A(x.dims, lambda i: C(vs[cval(i[0])]), x.kind)
    v = fresh('s')
    L = lam((v,), (n,), x.num((v,)))
    return A(x.dims, lambda i: fn('sort', L, i[0], sort='R' if x.kind == 'f' else 'I'), x.kind)


def argsort(x, axis=-1, **kw):
    x = asarray(x)
    n = x.dims[0]
    if isc(n) and NUMERIC[0]:
        vs = sorted(_bi.range(cval(n)), key=lambda i: cval(x.num((C(i),))))
        return A(x.dims, lambda i: C(vs[cval(i[0])]), 'i')
    v = fresh('s')
    L = lam((v,), (n,), x.num((v,)))
    return A(x.dims, lambda i: fn('argsort', L, i[0], sort='I'), 'i')


def dot(a, b):
    a, b = asarray(a), asarray(b)
    if a.ndim == 0 or b.ndim == 0:
        return a * b
    if b.ndim <= 2 and a.ndim <= 2:
        return matmul(a, b)
    raise Unsupported('dot of high rank')


def outer(a, b):
    a, b = ravel(a), ravel(b)
    return a[:, None] * b[None, :]


def inner(a, b):
    a, b = asarray(a), asarray(b)
    return jsum(a * b, -1)


def vdot(a, b):
    return jsum(ravel(a) * ravel(b))


def einsum(spec, *ops, **kw):
    ops = [asarray(o) for o in ops]
    spec = spec.replace(' ', '')
    if '...' in spec:
        raise Unsupported('einsum ellipsis')
    ins, _, out = spec.partition('->')
    ins = ins.split(',')
    if '->' not in spec:
        cnt = ''.join(ins)
        out = ''.join(sorted(c for c in set(cnt) if cnt.count(c) == 1))
    dims = {}
    for s, o in zip(ins, ops):
        if len(s) != o.ndim:
            raise ShapeError('einsum rank')
        for c, d in zip(s, o.dims):
            if c in dims and not (isc(d) and cval(d) == 1):
                if isc(dims[c]) and cval(dims[c]) == 1:
                    dims[c] = d
                elif not dim_eq(dims[c], d):
                    raise ShapeError('einsum dims')
            elif c not in dims:
                dims[c] = d
    summed = [c for c in dims if c not in out]

    def f(idx):
        env = dict(zip(out, idx))

        def go(cs, env):
            if not cs:
                return mul(*[o.num(tuple(ZERO if isc(d) and cval(d) == 1 else env[c] for c, d in zip(s, o.dims))) for s, o in zip(ins, ops)])
            return Sum(dims[cs[0]], lambda i: go(cs[1:], {**env, cs[0]: i}))
        return go(summed, env)
    return A(tuple(dims[c] for c in out), f, kind_join(*[o.kind for o in ops]))


def diag(x, k=0):
    x = asarray(x)
    if k != 0:
        raise Unsupported('diag k')
    if x.ndim == 1:
        return A((x.dims[0],) * 2, lambda i: ite(eq(i[0], i[1]), x.fn((i[0],)), C(Fraction(0)) if x.kind == 'f' else ZERO), x.kind)
    return A((x.dims[0],), lambda i: x.fn((i[0], i[0])), x.kind)


def diagonal(x, **kw):
    return diag(x)


def trace(x, **kw):
    x = asarray(x)
    from . import matalg
    r = matalg.try_trace(x)
    if r is not None:
        return r
    return jsum(diag(x))


def tri(name):
    def f(x, k=0):
        x = asarray(x)
        kk = dim_t(k)
        z = C(Fraction(0)) if x.kind == 'f' else ZERO
        if name == 'tril':
            return A(x.dims, lambda i: ite(le(i[-1], add(i[-2], kk)), x.fn(i), z), x.kind)
        return A(x.dims, lambda i: ite(le(add(i[-2], kk), i[-1]), x.fn(i), z), x.kind)
    return f


def ravel_multi_index(multi, dims, mode='raise', order='C'):
    if isinstance(multi, A):
        multi = [multi[i] for i in _bi.range(len(multi))]
    multi = [asarray(m) for m in multi]
    ds = [dim_t(d) for d in dims]
    if len(ds) != len(multi):
        raise ValueError('ravel_multi_index')
    if mode == 'clip':
        multi = [clip(m, 0, dim_out(sub(d, ONE))) for m, d in zip(multi, ds)]
    elif mode == 'wrap':
        multi = [m % dim_out(d) for m, d in zip(multi, ds)]
    r = asarray(0)
    for m, d in zip(multi, ds):
        r = r * dim_out(d) + m
    return r


def setdiff1d(a, b, assume_unique=False, size=None, fill_value=None):
    """Contract: the sorted elements of a that are not in b (size entries, padded with fill_value)."""
    a, b = ravel(a), ravel(b)
    if size is None:
        raise Unsupported('setdiff1d without size')
    n = dim_t(size)
    if NUMERIC[0]:
        bs = {cval(b.num((C(i),))) for i in _bi.range(cval(b.dims[0]))}
        av = [cval(a.num((C(i),))) for i in _bi.range(cval(a.dims[0]))]
        vs = [x for x in av if x not in bs]
        vs = vs if assume_unique else sorted(set(vs))
        vs = vs[:cval(n)] + [0 if fill_value is None else fill_value] * _bi.max(0, cval(n) - len(vs))
        return A((n,), lambda i: C(vs[cval(i[0])]), 'i')
    v = fresh('s')
    L1 = lam((v,), (a.dims[0],), a.num((v,)))
    L2 = lam((v,), (b.dims[0],), b.num((v,)))
    return A((n,), lambda i: fn('setdiff', L1, L2, n, i[0], sort='I'), 'i')


def vectorize(f, **kw):
    raise Unsupported('vectorize')


def allclose(a, b, rtol=1e-5, atol=1e-8, **kw):
    return jall(jabs(asarray(a) - b) <= atol + rtol * jabs(b))


def array_equal(a, b):
    return jall(asarray(a) == asarray(b))


def logsumexp(a, axis=None, b=None, keepdims=False, return_sign=False):
    """Contract: log sum exp (the max-shifted evaluation of the library is exact in real arithmetic)."""
    a = asarray(a).astype('float')
    if b is not None or return_sign:
        raise Unsupported('logsumexp options')
    return log(jsum(exp(a), axis, keepdims=keepdims))


def softmax(x, axis=-1, where=None, **kw):
    e = exp(x)
    return e / jsum(e, axis, keepdims=True)


def log_softmax(x, axis=-1):
    return asarray(x) - logsumexp(x, axis, keepdims=True)


def sigmoid(x):
    return un('s', lambda t: div(C(Fraction(1)), add(C(Fraction(1)), fn('exp', neg(t)))))(x)


def norm_logpdf(x, loc=0, scale=1):
    def f(x_, m, s):
        z = div(sub(x_, m), s)
        return sub(sub(mul(C(Fraction(-1, 2)), mul(z, z)), fn('log', toreal(s))),
                   mul(C(Fraction(1, 2)), fn('log', mul(C(Fraction(2)), PI()))))
    return ewn(f, *[asarray(q).astype('float') for q in (x, loc, scale)], kind='f')


def norm_pdf(x, loc=0, scale=1):
    return exp(norm_logpdf(x, loc, scale))


def PI():
    if NUMERIC[0]:
        return C(mpf(mpmath.pi))
    return var('pi', 'R')


def trapezoid(y, x=None, dx=1.0, axis=-1):
    y = asarray(y)
    (ax,) = axes_of(axis, y.ndim)
    pre = (slice(None),) * ax
    if x is not None:
        x = asarray(x)
        if x.ndim == 1:
            d = diff(x)
            d = reshape(d, tuple([dim_out(d.dims[0])] + [1] * (y.ndim - 1 - ax)))
        else:
            d = diff(x, axis=ax)
    else:
        d = asarray(dx)
    return jsum((y[pre + (slice(1, None),)] + y[pre + (slice(None, -1),)]) * d, axis=ax) * 0.5


# ---------------------------------------------------------------- random
def _key(k):
    k = asarray(k)
    if k.kind != 'K' or k.dims != ():
        raise Unsupported('not a single key')
    return k.fn(())


def PRNGKey(seed):
    t = asarray(seed).term()
    return A((), lambda _: child(rootkey('PRNGKey'), ZERO, t), 'K')


def rsplit(key, num=2):
    k = _key(key)
    if isinstance(num, tuple):
        raise Unsupported('split shape')
    n = dim_t(num)
    return A((n,), lambda i: child(k, n, i[0]), 'K')


def fold_in(key, data):
    k = _key(key)
    t = asarray(data).term()
    return A((), lambda _: child(k, C(-1), t), 'K')


def draw(kind, key, dims, params=(), sort='R', ak='f'):
    """An array of draws: element idx is the term D:kind(key, params..., dims..., idx...)."""
    k = _key(key)
    dims = tuple(dims)
    if CTX.draw_hook is not None:
        CTX.draw_hook(kind, k, params, dims)
    name = f'D:{kind}:{len(dims)}'
    if NUMERIC[0]:
        return CTX.draw_num(kind, k, params, dims, ak)
    return A(dims, lambda i: fn(name, k, *params, *dims, *i, sort=sort), ak)


def uniform(key, shape=(), dtype=None, minval=0., maxval=1.):
    u = draw('uniform', key, shape_of(shape))
    lo, hi = asarray(minval), asarray(maxval)
    if lo.dims == () and hi.dims == () and isc(lo.fn(())) and cval(lo.fn(())) == 0 and isc(hi.fn(())) and cval(hi.fn(())) == 1:
        return u
    return u * (hi - lo) + lo


def normal(key, shape=(), dtype=None):
    return draw('normal', key, shape_of(shape))


def rgen(kind):
    def f(key, shape=(), dtype=None):
        return draw(kind, key, shape_of(shape))
    return f


def randint(key, shape, minval, maxval, dtype=None):
    lo, hi = asarray(minval).term(), asarray(maxval).term()
    span = sub(hi, lo)
    if not isc(span) and not NUMERIC[0]:
        span = N.simp(span)
    # jax: an empty range yields minval
    if isc(span):
        span = C(_bi.max(1, int(cval(span))))
    elif not entails(le(ONE, span)):
        span = max_(ONE, span)
    d = draw('randint', key, shape_of(shape), (span,), 'I', 'i')
    return d + lo


def _cat_params(p):
    p = asarray(p)
    if p.ndim != 1:
        raise ValueError('p must be 1-dimensional')
    n = p.dims[0]
    tot = Sum(n, lambda i: p.num((i,)))
    v = fresh('s')
    if NUMERIC[0]:
        return n, tuple(p.num((C(i),)) for i in _bi.range(cval(n)))
    return n, lam((v,), (n,), div(p.num((v,)), tot))


def choice(key, a, shape=(), replace=True, p=None, axis=0):
    a = asarray(a)
    n = a.term() if a.ndim == 0 else a.dims[axes_of(axis, a.ndim)[0]]
    if isc(n):
        n = C(int(cval(n)))
    dims = shape_of(shape)
    if p is not None:
        if not replace:
            raise Unsupported('choice without replacement with p')
        m, L = _cat_params(p)
        if not dim_eq(m, n):
            raise ValueError(f'p must be None or match the shape of a: {m} vs {n}')
        ind = draw('cat', key, dims, (n, L), 'I', 'i')
    elif replace:
        ind = draw('randint', key, dims, (n,), 'I', 'i')
    else:
        if len(dims) > 1:
            raise Unsupported('choice without replacement of rank > 1')
        perm = draw('perm', key, (n,), (), 'I', 'i')
        if len(dims) == 0:
            ind = perm[0]
        else:
            if not entails(le(dims[0], n)):
                raise ValueError('Cannot take a larger sample than population when replace=False')
            ind = perm[:dim_out(dims[0])] if not dim_eq(dims[0], n) else perm
    if a.ndim == 0:
        return ind
    return take(a, ind, axis)


def categorical(key, logits, axis=-1, shape=None):
    logits = asarray(logits)
    if logits.ndim != 1:
        raise Unsupported('categorical rank')
    n, L = _cat_params(exp(logits))
    return draw('cat', key, shape_of(shape), (n, L), 'I', 'i')


def permutation(key, x, axis=0, independent=False):
    x = asarray(x)
    if independent:
        raise Unsupported('independent permutation')
    if x.ndim == 0:
        n = x.term()
        return draw('perm', key, (n,), (), 'I', 'i')
    (ax,) = axes_of(axis, x.ndim)
    perm = draw('perm', key, (x.dims[ax],), (), 'I', 'i')
    return take(x, perm, ax)


FILES = {}      # declared files: path -> array or dictionary of arrays


def load(path, *a, **kw):
    """contract: the arrays that were stored"""
    if path not in FILES:
        raise FileNotFoundError(path)
    return FILES[path]


def bernoulli(key, p=0.5, shape=None):
    p = asarray(p)
    u = uniform(key, p.shape if shape is None else shape)
    return u < p


# ---------------------------------------------------------------- transformations
class Loop:
    def __init__(self, id, n, k, ctx, comps):
        self.id, self.n, self.k, self.ctx, self.comps = id, n, k, ctx, comps
        self.hyps = list(CTX.hyps) + list(CTX.pc)
        # comps: list of dict(dims, kind, idx, init, step, closed)


LOOPS = {}
_loop_ids = itertools.count()


def loop_state(lid, c, k, ctx, idx, sort):
    return fn('L', C(lid), C(c), C(len(ctx)), *ctx, k, *idx, sort=sort)


def loop_parts(t):
    """(lid, comp, ctx, k, idx) of a loop-state term"""
    a = t.args[1:]
    lid, c, nc = int(cval(a[0])), int(cval(a[1])), int(cval(a[2]))
    return lid, c, a[3:3 + nc], a[3 + nc], a[4 + nc:]


_SORT = {'f': 'R', 'i': 'I', 'b': 'B', 'K': 'K'}


def is_L(t, lid=None):
    return t.op == 'fn' and t.args[0] == 'L' and (lid is None or cval(t.args[1]) == lid)


def make_loop(n, init_leaves, body):
    """body(k, state_arrays) -> (new_state_arrays, extra arrays); returns (state(k) -> arrays, extra templates)"""
    lid = next(_loop_ids)
    k = fresh('k')
    init = [asarray(x) for x in init_leaves]
    kinds = [x.kind for x in init]
    for attempt in _bi.range(4):
        st = []
        for c, x in enumerate(init):
            s = _SORT[kinds[c]]
            st.append(A(x.dims, (lambda c, s: lambda idx: fn('L', C(lid), C(c), C(0), k, *idx, sort=s))(c, s), kinds[c]))
        with hyps(in_range(k, n)):
            new, extra = body(A((), lambda _: k, 'i'), st)
            new = [asarray(x) for x in new]
            nk = [kind_join(a, b.kind) if 'K' not in (a, b.kind) else 'K' for a, b in zip(kinds, new)]
            if nk == kinds:
                break
            if _bi.any(a == 'i' and b == 'b' or a == 'b' for a, b in zip(kinds, nk)):
                pass
            kinds = nk
    for c, (x, y) in enumerate(zip(init, new)):
        if x.ndim != y.ndim or not _bi.all(dim_eq(a, b) for a, b in zip(x.dims, y.dims)):
            raise ShapeError(f'scan body changes the carry shape: {x.dims} -> {y.dims}')
    # templates
    comps = []
    with hyps(in_range(k, n)):
        for c, (x, y) in enumerate(zip(init, new)):
            idx = tuple(fresh('c') for _ in x.dims)
            with hyps([h for i, d in zip(idx, x.dims) for h in in_range(i, d)]):
                comps.append(dict(dims=x.dims, kind=kinds[c], idx=idx, init=castk(x.fn(idx), kinds[c]),
                                  step=castk(y.fn(idx), kinds[c]), closed=None))
        etm = []
        for e in extra:
            e = asarray(e)
            idx = tuple(fresh('c') for _ in e.dims)
            with hyps([h for i, d in zip(idx, e.dims) for h in in_range(i, d)]):
                etm.append(dict(dims=e.dims, kind=e.kind, idx=idx, term=e.fn(idx)))
    # context
    own = {k.args[0]}
    fvs = set()
    for cp in comps:
        o = own | {i.args[0] for i in cp['idx']}
        for key in ('init', 'step'):
            fvs |= {v for v in cp[key].fv if '!' in v} - o
        for d in cp['dims']:
            fvs |= {v for v in d.fv if '!' in v}
    ctx = tuple(var(v, 'I') for v in sorted(fvs, key=lambda s: int(s.split('!')[1])))

    def addctx(t):
        if not ctx:
            return t

        def f(s):
            if is_L(s, lid) and cval(s.args[3]) == 0:
                return fn('L', s.args[1], s.args[2], C(len(ctx)), *ctx, *s.args[4:], sort=s.sort)
            return None
        return replace(t, f)
    for cp in comps:
        cp['step'] = addctx(cp['step'])
    for e in etm:
        e['term'] = addctx(e['term'])
        if _bi.any(k.args[0] in d.fv for d in e['dims']):
            raise ShapeError('loop output shape depends on the iteration')
    lp = Loop(lid, n, k, ctx, comps)
    LOOPS[lid] = lp
    close_forms(lp)
    # an output that is the new state itself is the state one step later
    for e in etm:
        for c, cp in enumerate(comps):
            if cp['closed'] is None and len(cp['idx']) == len(e['idx']) and cp['kind'] == e['kind'] and cp['kind'] != 'K' \
                    and e['term'].op != 'c' and subst(cp['step'], dict(zip(cp['idx'], e['idx']))) is e['term']:
                e['term'] = loop_state(lid, c, add(k, ONE), ctx, e['idx'], _SORT[cp['kind']])
                break

    def state(c, kk, idx):
        cp = comps[c]
        if cp['closed'] is not None:
            return subst(cp['closed'], {lp.k: kk, **dict(zip(cp['idx'], idx))})
        return loop_state(lid, c, kk, ctx, idx, _SORT[cp['kind']])

    def elim(t):
        return eliminate(lp, t)

    for e in etm:
        e['term'] = elim(e['term'])
    return lp, state, etm


def eliminate(lp, t):
    """replace states with a closed form"""
    if not _bi.any(cp['closed'] is not None for cp in lp.comps):
        return t

    def f(s):
        if is_L(s, lp.id):
            _, c, ctx, kk, idx = loop_parts(s)
            cp = lp.comps[c]
            if cp['closed'] is not None:
                return subst(cp['closed'], {lp.k: kk, **dict(zip(cp['idx'], idx)), **dict(zip(lp.ctx, ctx))})
        return None
    return replace(t, f)


def own_states(lp, t, c=None):
    return [s for s in subterms(t) if is_L(s, lp.id) and (c is None or int(cval(s.args[2])) == c)]


def close_forms(lp):
    k = lp.k
    changed = True
    while changed:
        changed = False
        for c, cp in enumerate(lp.comps):
            if cp['closed'] is not None:
                continue
            me = loop_state(lp.id, c, k, lp.ctx, cp['idx'], _SORT[cp['kind']])
            st = eliminate(lp, cp['step'])
            cp['step'] = st
            cl = None
            if st is me:
                cl = cp['init']
            elif cp['kind'] == 'K' and st.op == 'child' and st.args[0] is me and isc(st.args[2]) and not st.args[1].fv & {k.args[0]}:
                cl = chain(cp['init'], st.args[1], st.args[2], k)
            elif cp['kind'] in 'fi':
                own = own_states(lp, st, c)
                if not own:
                    if not own_states(lp, st):
                        cl = ite(eq(k, ZERO), cp['init'], subst(st, {k: sub(k, ONE)}))
                else:
                    try:
                        p = N.norm(st)
                    except Unsupported:
                        p = None
                    if p is not None:
                        mono = ((me, Fraction(1)),)
                        if p.d.get(mono) == 1:
                            rest = N.padd(p, N.Poly({mono: Fraction(-1)}))
                            rt = N.to_term(rest)
                            if not own_states(lp, rt, c):
                                if k.args[0] not in rt.fv and not own_states(lp, rt):
                                    cl = add(cp['init'], mul(k, rt))
                                else:
                                    v = fresh('s')
                                    cl = add(cp['init'], fn('Sum', lam((v,), (k,), subst(rt, {k: v})), sort=_SORT[cp['kind']]))
                    if cl is None and st.op == 'ite' and cp['idx']:
                        i0 = cp['idx'][0]
                        cond = st.args[0]
                        if cond is eq(i0, k) and st.args[2] is me and not own_states(lp, st.args[1], c):
                            cl = ite(and_(le(ZERO, i0), lt(i0, k)), subst(st.args[1], {k: i0}), cp['init'])
            if cl is not None:
                cp['closed'] = cl
                changed = True
    for cp in lp.comps:
        if cp['closed'] is None:
            cp['step'] = eliminate(lp, cp['step'])
        else:
            cp['closed'] = eliminate(lp, cp['closed'])


def scan(f, init, xs=None, length=None, reverse=False, unroll=1, **kw):
    il, idf = tree_flatten(init)
    xl, xdf = tree_flatten(xs)
    xl = [asarray(x) for x in xl]
    if length is not None:
        n = dim_t(length)
    elif xl:
        n = xl[0].dims[0]
    else:
        raise ValueError('scan needs xs or length')
    for x in xl:
        if x.ndim == 0:
            raise ValueError('scan got value with no leading axis')
        if not dim_eq(x.dims[0], n):
            raise ShapeError(f'scan got values with different leading axis sizes: {[str(x.dims[0]) for x in xl]}')
    if NUMERIC[0] or (isc(n) and cval(n) <= 3):
        carry, ys = init, []
        rng = range(cval(n))
        for i in (reversed(rng) if reverse else rng):
            carry, y = f(carry, tree_unflatten(xdf, [x[i] for x in xl]))
            ys.append(y)
        if reverse:
            ys = ys[::-1]
        if not ys:
            raise Unsupported('scan of length zero')
        yl, ydf = tree_flatten(ys[0])
        ly = [tree_flatten(y)[0] for y in ys]
        return carry, tree_unflatten(ydf, [stack0([asarray(l[q]) for l in ly]) for q in _bi.range(len(yl))])
    box = {}

    def body(kA, st):
        k = kA.fn(())
        j = sub(sub(n, ONE), k) if reverse else k
        x = tree_unflatten(xdf, [A(a.dims[1:], lambda i, a=a: a.fn((j,) + i), a.kind) for a in xl])
        out = f(tree_unflatten(idf, st), x)
        if not isinstance(out, (tuple, list)) or len(out) != 2:
            raise TypeError('scan body output must be a pair')
        c, y = out
        cl, cdf = tree_flatten(c)
        if not same_tree(cdf, idf):
            raise TypeError('scan body function carry output must have same type structure as carry input')
        yl, ydf = tree_flatten(y)
        box['ydf'] = ydf
        return cl, yl

    lp, state, etm = make_loop(n, il, body)
    fin = [A(cp['dims'], lambda i, c=c: state(c, n, i), cp['kind']) for c, cp in enumerate(lp.comps)]
    ys = []
    for e in etm:
        def g(idx, e=e):
            kk = sub(sub(n, ONE), idx[0]) if reverse else idx[0]
            return subst(e['term'], {lp.k: kk, **dict(zip(e['idx'], idx[1:]))})
        ys.append(A((n,) + e['dims'], g, e['kind']))
    return tree_unflatten(idf, fin), tree_unflatten(box['ydf'], ys)


def fori_loop(lo, hi, body, init):
    il, idf = tree_flatten(init)
    lo, hi = dim_t(lo), dim_t(hi)
    n = sub(hi, lo)
    if NUMERIC[0] or (isc(n) and isc(lo) and cval(n) <= 3):
        v = init
        for i in range(cval(lo), cval(hi)):
            v = body(i, v)
        return v

    def b(kA, st):
        k = kA.fn(())
        out = body(A((), lambda _: add(lo, k), 'i'), tree_unflatten(idf, st))
        return tree_flatten(out)[0], []
    lp, state, _ = make_loop(n, il, b)
    return tree_unflatten(idf, [A(cp['dims'], lambda i, c=c: state(c, n, i), cp['kind']) for c, cp in enumerate(lp.comps)])


def lax_map(f, xs, **kw):
    return scan(lambda _, x: (None, f(x)), None, xs)[1]


def cond(pred, tf, ff, *ops, operand=None, **kw):
    if operand is not None and not ops:
        ops = (operand,)
    p = asarray(pred)
    t = p.term()
    if t.sort != 'B':
        t = ne(t, ZERO)
    if t is TRUE:
        return tf(*ops)
    if t is FALSE:
        return ff(*ops)
    with hyps([t]):
        a = tf(*ops)
    with hyps([not_(t)]):
        b = ff(*ops)
    la, da = tree_flatten(a)
    lb, db = tree_flatten(b)
    if not same_tree(da, db):
        raise TypeError('cond branches must have the same output structure')
    out = []
    for x, y in zip(la, lb):
        x, y = asarray(x), asarray(y)
        if x.ndim != y.ndim or not _bi.all(dim_eq(p_, q) for p_, q in zip(x.dims, y.dims)):
            raise ShapeError('cond branches must have the same output shapes')
        out.append(jwhere(pred if isinstance(pred, A) else asarray(t), x, y))
    return tree_unflatten(da, out)


def select(p, a, b):
    return jwhere(p, a, b)


def switch(i, branches, *ops):
    t = asarray(i).term()
    if isc(t):
        return branches[_bi.max(0, _bi.min(int(cval(t)), len(branches) - 1))](*ops)
    r = branches[-1](*ops)
    for j in _bi.range(len(branches) - 2, -1, -1):
        b = branches[j](*ops)
        r = tree_map(lambda x, y: jwhere(asarray(le(t, C(j))), x, y), b, r)
    return r


def ax_spec(spec, args):
    """in_axes -> per-argument per-leaf axis"""
    if isinstance(spec, (int, type(None))):
        return [spec] * len(args)
    return list(spec)


def _leaf_axes(spec, tree):
    """axes for each leaf of tree"""
    if spec is None or isinstance(spec, int):
        return [spec] * len(tree_flatten(tree)[0])
    out = []
    if isinstance(tree, dict):
        for k in sorted(tree):
            out += _leaf_axes(spec[k], tree[k])
        return out
    for s, t in zip(spec, tree):
        out += _leaf_axes(s, t)
    return out


def vmap(f, in_axes=0, out_axes=0, axis_size=None, **kw):
    def g(*args, **kwargs):
        specs = ax_spec(in_axes, args)
        if len(specs) != len(args):
            raise ValueError('vmap in_axes must match the number of positional arguments')
        flat = []
        n = None
        for s, a in zip(specs, args):
            ls, d = tree_flatten(a)
            axs = _leaf_axes(s, a)
            ls = [asarray(x) if ax is not None else x for x, ax in zip(ls, axs)]
            flat.append((ls, d, axs))
            for x, ax in zip(ls, axs):
                if ax is not None:
                    if x.ndim == 0:
                        raise ValueError('vmap was requested to map its argument along axis 0, which implies that its rank should be at least 1')
                    e = x.dims[axes_of(ax, x.ndim)[0]]
                    if n is None:
                        n = e
                    elif not dim_eq(n, e):
                        raise ShapeError(f'vmap got inconsistent sizes for array axes to be mapped: {n} vs {e}')
        kwl, kwd = tree_flatten(kwargs)
        if kwargs and _bi.any(not isinstance(x, (bool, str)) for x in kwl):
            kwl2 = []
            for x in kwl:
                if isinstance(x, (int, float, A)):
                    x = asarray(x)
                    if x.ndim and n is not None and dim_eq(n, x.dims[0]):
                        kwl2.append(('m', x))
                        continue
                kwl2.append(('c', x))
            flatk = kwl2
        else:
            flatk = [('c', x) for x in kwl]
        if n is None:
            if axis_size is None:
                raise ValueError('vmap must have at least one non-None value in in_axes')
            n = dim_t(axis_size)

        def run(v):
            aa = []
            for ls, d, axs in flat:
                nl = []
                for x, ax in zip(ls, axs):
                    if ax is None:
                        nl.append(x)
                    else:
                        p = axes_of(ax, x.ndim)[0]
                        nl.append(A(x.dims[:p] + x.dims[p + 1:], lambda i, x=x, p=p: x.fn(i[:p] + (v,) + i[p:]), x.kind))
                aa.append(tree_unflatten(d, nl))
            kl = [A(x.dims[1:], lambda i, x=x: x.fn((v,) + i), x.kind) if t == 'm' else x for t, x in flatk]
            return f(*aa, **(tree_unflatten(kwd, kl) if kwargs else {}))

        if NUMERIC[0]:
            outs = [run(C(i)) for i in range(cval(n))]
            if not outs:
                raise Unsupported('vmap over an empty axis')
            ol, od = tree_flatten(outs[0])
            lls = [tree_flatten(o)[0] for o in outs]
            res = [stack0([asarray(l[q]) for l in lls]) for q in _bi.range(len(ol))]
        else:
            v = fresh('v')
            with hyps(in_range(v, n)):
                out = run(v)
                ol, od = tree_flatten(out)
                res = []
                for x in ol:
                    x = asarray(x)
                    if _bi.any(v.args[0] in d.fv for d in x.dims):
                        raise ShapeError('vmapped output shape depends on the batch index')

                    def h(idx, x=x):
                        # evaluate under the range of the batch index with fresh element indices, then instantiate
                        return subst(x.fn(idx[1:]), {v: idx[0]})
                    res.append(A((n,) + x.dims, h, x.kind))
        oaxs = _leaf_axes(out_axes, tree_unflatten(od, list(_bi.range(len(res)))))
        res = [moveaxis(x, 0, ax) if ax not in (0, None) else x for x, ax in zip(res, oaxs)]
        return tree_unflatten(od, res)

    functools.update_wrapper(g, f, updated=()) if hasattr(f, '__name__') else None
    return g


def jit(f=None, static_argnums=None, static_argnames=None, **kw):
    if f is None:
        return lambda g: jit(g)
    return f


# ---- differentiation
_gv = itertools.count()


class _GradBlock(Exception):
    pass


def dterm(t, name, js):
    """d t / d name(js)"""
    memo = {}

    def has(t):
        r = memo.get(('h', t))
        if r is None:
            r = _bi.any(s.op == 'fn' and s.args[0] == name for s in subterms(t))
            memo[('h', t)] = r
        return r

    def d(t):
        if not has(t):
            return C(Fraction(0))
        r = memo.get(t)
        if r is None:
            r = dd(t)
            memo[t] = r
        return r

    def dd(t):
        op = t.op
        if op == 'fn':
            nm = t.args[0]
            if nm == name:
                return ite(and_(*[eq(a, j) for a, j in zip(t.args[1:], js)]), C(Fraction(1)), C(Fraction(0)))
            if nm == 'Sum':
                n, dims, body = t.args[1].args
                vs = [fresh('s') for _ in _bi.range(n)]
                b = d(lam_open(t.args[1], vs))
                return fn('Sum', lam(vs, dims, b))
            x = t.args[1]
            if nm == 'exp':
                return mul(t, d(x))
            if nm == 'log':
                return div(d(x), x)
            if nm == 'sin':
                return mul(fn('cos', x), d(x))
            if nm == 'cos':
                return neg(mul(fn('sin', x), d(x)))
            if nm == 'tanh':
                return mul(sub(C(Fraction(1)), mul(t, t)), d(x))
            raise Unsupported(f'derivative of {nm}')
        if op == 'add':
            return add(*[d(a) for a in t.args])
        if op == 'mul':
            out = []
            for i, a in enumerate(t.args):
                if has(a):
                    out.append(mul(*t.args[:i], d(a), *t.args[i + 1:]))
            return add(*out)
        if op == 'div':
            a, b = t.args
            return sub(div(d(a), b), div(mul(a, d(b)), mul(b, b)))
        if op == 'pow':
            b, e = t.args
            ev = cval(e)
            return mul(C(ev) if isinstance(ev, int) else C(ev), pow_(b, ev - 1), d(b))
        if op == 'toreal':
            return d(t.args[0])
        if op == 'ite':
            if has(t.args[0]):
                pass
            return ite(t.args[0], d(t.args[1]), d(t.args[2]))
        raise Unsupported(f'derivative of {op}')
    return d(t)


def value_and_grad(f, argnums=0, has_aux=False, **kw):
    def g(*args, **kwargs):
        nums = [argnums] if isinstance(argnums, int) else list(argnums)
        if getattr(f, 'vp_uf', None) is not None:
            val = f(*args, **kwargs)
            gr = [f.vp_grad(n, *args, **kwargs) for n in nums]
            return val, (gr[0] if isinstance(argnums, int) else tuple(gr))
        if NUMERIC[0]:
            return _numgrad(f, nums, argnums, args, kwargs)
        args = list(args)
        orig = {}
        names = {}
        for n in nums:
            x = asarray(args[n]).astype('float')
            orig[n] = x
            names[n] = f'gv{next(_gv)}'
            args[n] = A(x.dims, lambda i, nm=names[n]: fn(nm, *i), 'f')
        out = f(*args, **kwargs)
        aux = None
        if has_aux:
            out, aux = out
        out = asarray(out)
        if out.dims != () and not out._is_single():
            raise TypeError('Gradient only defined for scalar-output functions')
        if out.dims != ():
            raise TypeError('Gradient only defined for scalar-output functions')
        t = out.fn(())

        def back(s):
            def r(z):
                for n in nums:
                    if z.op == 'fn' and z.args[0] == names[n]:
                        return orig[n].fn(z.args[1:])
                return None
            return replace(s, r)
        val = A((), lambda _: back(t), 'f')
        grads = []
        for n in nums:
            x = orig[n]
            js = tuple(fresh('g') for _ in x.dims)
            dt = back(dterm(t, names[n], js))
            grads.append(A(x.dims, lambda i, js=js, dt=dt: subst(dt, dict(zip(js, i))), 'f'))
        gr = grads[0] if isinstance(argnums, int) else tuple(grads)
        if has_aux:
            return (val, aux), gr
        return val, gr
    return g


def _numgrad(f, nums, argnums, args, kwargs):
    """numeric mode: differentiate symbolically with the stub switched to symbolic constants"""
    h = mpf(10) ** -15
    val = asarray(f(*args, **kwargs))
    grads = []
    for n in nums:
        x = asarray(args[n])
        ds = [cval(d) for d in x.dims]
        table = {}
        for js in itertools.product(*[_bi.range(d) for d in ds]):
            def pert(s):
                return A(x.dims, lambda i: C(tompf(cval(x.num(i))) + (s * h if tuple(cval(q) for q in i) == js else 0)), 'f')
            a = list(args)
            a[n] = pert(1)
            up = cval(asarray(f(*a, **kwargs)).term())
            a[n] = pert(-1)
            dn = cval(asarray(f(*a, **kwargs)).term())
            table[js] = C((tompf(up) - tompf(dn)) / (2 * h))
        grads.append(A(x.dims, lambda i, table=table: table[tuple(cval(q) for q in i)], 'f'))
    return val, (grads[0] if isinstance(argnums, int) else tuple(grads))


def grad(f, argnums=0, has_aux=False, **kw):
    vg = value_and_grad(f, argnums, has_aux)

    def g(*a, **k):
        v, gr = vg(*a, **k)
        return (gr, v[1]) if has_aux else gr
    return g


def jacfwd(f, argnums=0, **kw):
    """Jacobian with respect to one argument: output dimensions first"""
    if not isinstance(argnums, int) or kw:
        raise Unsupported('jacfwd options')

    def g(*args):
        args = list(args)
        orig = asarray(args[argnums]).astype('float')
        if NUMERIC[0]:
            raise Unsupported('numeric Jacobian')
        name = f'gv{next(_gv)}'
        args[argnums] = A(orig.dims, lambda i: fn(name, *i), 'f')
        out = asarray(f(*args))
        k = out.ndim

        def el(idx):
            back = lambda s: replace(s, lambda z: orig.fn(z.args[1:]) if z.op == 'fn' and z.args[0] == name else None)
            return back(dterm(out.num(idx[:k]), name, idx[k:]))
        return A(out.dims + orig.dims, el, 'f')
    return g


# ---------------------------------------------------------------- linear algebra (matrix-level contracts)
def _mat():
    from . import matalg
    return matalg


def eigh(x, **kw):
    return _mat().eigh(asarray(x))


def solve(a, b, **kw):
    return _mat().solve(asarray(a), asarray(b))


def linalg_norm(x, ord=None, axis=None, keepdims=False):
    x = asarray(x)
    if ord in (None, 2, 'fro') and (axis is not None and not isinstance(axis, (tuple, list)) or x.ndim == 1 or ord != 2):
        return sqrt(jsum(jabs(x) ** 2, axis, keepdims=keepdims))
    raise Unsupported('norm')


# ---------------------------------------------------------------- modules
def image_resize(img, shape, method, antialias=True, **kw):
    img = asarray(img)
    dims = shape_of(shape)
    if len(dims) != img.ndim:
        raise ValueError('shape must have length equal to the number of dimensions of x')
    m = method if isinstance(method, str) else str(method)
    if m == 'nearest':
        def f(idx):
            src = []
            for i, o, n in zip(idx, dims, img.dims):
                if dim_eq(o, n):
                    src.append(i)
                else:
                    # contract: floor((i + 0.5) * n / o)
                    src.append(idiv(mul(add(mul(C(2), i), ONE), n), mul(C(2), o)))
            return img.fn(tuple(src))
        return A(dims, f, img.kind)
    # contract: the axes of unchanged size are left alone, the others are an unspecified function of the slice along them
    ch = [k for k, (o, n) in enumerate(zip(dims, img.dims)) if not dim_eq(o, n)]
    nm = {'bilinear': 'linear', 'triangle': 'linear'}.get(m, m)
    if not ch:
        return A(dims, lambda i: img.num(i), 'f')
    cache = {}

    def g(idx):
        rest = tuple(i for k, i in enumerate(idx) if k not in ch)
        if rest not in cache:
            v = [fresh('s') for _ in ch]
            it, src = iter(rest), []
            for k in range(len(dims)):
                src.append(v[ch.index(k)] if k in ch else next(it))
            cache[rest] = lam(v, [img.dims[k] for k in ch], img.num(tuple(src)))
        return fn(f'resize:{nm}:{len(ch)}', cache[rest], *[dims[k] for k in ch], *[idx[k] for k in ch])
    return A(dims, g, 'f')


def conv_general_dilated(lhs, rhs, window_strides, padding, dimension_numbers=None, **kw):
    lhs, rhs = asarray(lhs), asarray(rhs)
    if kw and _bi.any(v is not None and v != 1 for v in kw.values()):
        raise Unsupported('conv options')
    if tuple(window_strides) != (1, 1) or padding != 'SAME' or tuple(dimension_numbers) != ('NHWC', 'IOHW', 'NHWC'):
        raise Unsupported('conv configuration')
    n, h, w, c = lhs.dims
    ci, co, kh, kw_ = rhs.dims
    if not dim_eq(ci, c):
        raise ShapeError('conv channels')
    # contract: SAME padding, cross-correlation
    ph, pw = idiv(sub(kh, ONE), C(2)), idiv(sub(kw_, ONE), C(2))

    def f(idx):
        b, y, x, o = idx

        def el(i, p, q):
            yy, xx = sub(add(y, p), ph), sub(add(x, q), pw)
            ok = and_(le(ZERO, yy), lt(yy, h), le(ZERO, xx), lt(xx, w))
            return ite(ok, mul(lhs.num((b, yy, xx, i)), rhs.num((i, o, p, q))), C(Fraction(0))) if not (ok is FALSE) else C(Fraction(0))
        return Sum(c, lambda i: Sum(kh, lambda p: Sum(kw_, lambda q: el(i, p, q))))
    return A((n, h, w, co), f, 'f')


def dynamic_index_in_dim(x, i, axis=0, keepdims=True):
    x = asarray(x)
    (ax,) = axes_of(axis, x.ndim)
    r = x[(slice(None),) * ax + (i,)]
    return expand_dims(r, ax) if keepdims else r


def dynamic_slice_in_dim(x, start, size, axis=0):
    x = asarray(x)
    (ax,) = axes_of(axis, x.ndim)
    s = asarray(start).term()
    n = dim_t(size)
    s = max_(ZERO, min_(s, sub(x.dims[ax], n)))
    dims = list(x.dims)
    dims[ax] = n

    def f(idx):
        j = list(idx)
        j[ax] = add(s, j[ax])
        return x.fn(tuple(j))
    return A(tuple(dims), f, x.kind)


def mvn_logpdf(x, mean, cov):
    return _mat().mvn_logpdf(asarray(x), asarray(mean), asarray(cov))


class _NDArrayMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, A)


class ndarray(metaclass=_NDArrayMeta):
    pass


def isclose(a, b, rtol=1e-5, atol=1e-8):
    return jabs(asarray(a) - b) <= atol + rtol * jabs(b)


def jround(x, decimals=0):
    raise Unsupported('round')


jnp = _Mod(load=load, 
    _name='jax.numpy', ndarray=ndarray, array=lambda x, dtype=None, **k: asarray(x).astype(dtype) if dtype is not None else asarray(x),
    asarray=lambda x, dtype=None, **k: asarray(x).astype(dtype) if dtype is not None else asarray(x),
    astype=lambda x, d: asarray(x).astype(d),
    float32=float32, float64=float64, int32=int32, int64=int64, uint32=uint32, bool_=bool_, uint8=uint32, float_=float64,
    sum=jsum, mean=jmean, var=jvar, std=jstd, max=jmax, min=jmin, amax=jmax, amin=jmin, prod=jprod, all=jall, any=jany,
    where=jwhere, select=None, maximum=maximum, minimum=minimum, exp=exp, log=log, sqrt=sqrt, sin=sin, cos=cos, tan=tan, tanh=tanh,
    log1p=log1p, expm1=expm1, log2=log2, exp2=exp2, reciprocal=reciprocal, abs=jabs, absolute=jabs, fabs=jabs, square=square,
    sign=sign, floor=floor, ceil=ceil, clip=clip, isnan=isnan, isinf=isinf, isfinite=isfinite, nansum=nansum,
    nan_to_num=nan_to_num, zeros=zeros, ones=ones, full=full, empty=zeros, zeros_like=zeros_like, ones_like=ones_like,
    full_like=full_like, eye=eye, identity=eye, arange=arange, linspace=linspace, meshgrid=meshgrid, reshape=reshape, ravel=ravel,
    expand_dims=expand_dims, squeeze=squeeze, moveaxis=moveaxis, transpose=transpose, swapaxes=swapaxes,
    concatenate=concatenate, stack=stack, hstack=hstack, vstack=vstack, dstack=dstack, column_stack=column_stack, block=block,
    append=append, insert=insert, flip=flip, roll=roll, take=take, take_along_axis=take_along_axis, repeat=repeat,
    tile=tile, split=split_arr, array_split=array_split, pad=pad, diff=diff, cumsum=cumsum, searchsorted=searchsorted,
    argmax=argext('argmax'), argmin=argext('argmin'), sort=sort, argsort=argsort, dot=dot, matmul=matmul, outer=outer,
    inner=inner, vdot=vdot, einsum=einsum, diag=diag, diagonal=diagonal, trace=trace, tril=tri('tril'), triu=tri('triu'),
    ravel_multi_index=ravel_multi_index, setdiff1d=setdiff1d, broadcast_to=broadcast_to, add=lambda a, b: asarray(a) + b,
    subtract=lambda a, b: asarray(a) - b, multiply=lambda a, b: asarray(a) * b, divide=lambda a, b: asarray(a) / b,
    true_divide=lambda a, b: asarray(a) / b, floor_divide=lambda a, b: asarray(a) // b, mod=lambda a, b: asarray(a) % b,
    remainder=lambda a, b: asarray(a) % b, negative=lambda a: -asarray(a), power=lambda a, b: asarray(a) ** b,
    less=lambda a, b: asarray(a) < b, less_equal=lambda a, b: asarray(a) <= b, greater=lambda a, b: asarray(a) > b,
    greater_equal=lambda a, b: asarray(a) >= b, equal=lambda a, b: asarray(a) == b, not_equal=lambda a, b: asarray(a) != b,
    logical_not=lambda a: ~asarray(a).astype('bool'), logical_and=lambda a, b: asarray(a) & b, logical_or=lambda a, b: asarray(a) | b,
    invert=lambda a: ~asarray(a), shape=lambda x: asarray(x).shape, ndim=lambda x: asarray(x).ndim, size=lambda x: asarray(x).size,
    newaxis=None, real=lambda x: asarray(x), atleast_1d=atleast_1d, atleast_2d=atleast_2d, allclose=allclose, isclose=isclose,
    array_equal=array_equal, logaddexp=lambda a, b: log(exp(a) + exp(b)), flatnonzero=None, copy=lambda x: asarray(x),
    result_type=lambda *a: float32, finfo=None, float16=float32, bfloat16=float32, conj=lambda x: asarray(x),
    flipud=lambda x: flip(x, 0), fliplr=lambda x: flip(x, 1), rot90=None, nanmax=jmax, nanmean=jmean, unravel_index=None,
    round=jround, heaviside=None, cumprod=None, trapezoid=trapezoid,
    iscomplexobj=lambda x: False, isscalar=lambda x: not isinstance(x, A),
)
for _k in [k for k, v in jnp.__dict__.items() if v is None and k != 'newaxis']:
    del jnp.__dict__[_k]
jnp.__dict__['pi'] = None


class _JnpProxy:
    """jax.numpy with `pi` and constants evaluated lazily"""

    def __getattr__(self, name):
        if name == 'pi':
            return A((), lambda _: PI(), 'f')
        if name == 'e':
            return A((), lambda _: fn('exp', C(Fraction(1))), 'f')
        if name == 'inf':
            return float('inf')
        if name == 'nan':
            return float('nan')
        if name == 'linalg':
            return linalg
        r = getattr(jnp, name)
        f = sys._getframe(1).f_globals.get('__name__', '')
        if f[:4] == 'fbs.':
            USED.add(f'jax.numpy.{name}')
        return r


def multivariate_normal(key, mean, cov, shape=None, dtype=None, method='cholesky'):
    """mean + L z with the lower Cholesky factor L and standard normal z (documented for the default method)"""
    mean, cov = asarray(mean), asarray(cov)
    if method != 'cholesky' or mean.ndim != 1 or cov.ndim != 2:
        raise Unsupported('multivariate_normal')
    shape = tuple(shape) if shape is not None else ()
    z = normal(key, shape + tuple(mean.shape))
    return mean + matmul(z, _mat().cholesky(cov).T)


linalg = _Mod(_name='jax.numpy.linalg', norm=linalg_norm, eigh=eigh, solve=solve,
              inv=lambda x: _mat().inv(asarray(x)), cholesky=lambda x, **k: _mat().cholesky(asarray(x)),
              det=lambda x: _mat().det(asarray(x)), slogdet=lambda x: _mat().slogdet(asarray(x)))
jnp_proxy = _JnpProxy()
random = _Mod(_name='jax.random', PRNGKey=PRNGKey, key=PRNGKey, split=rsplit, fold_in=fold_in, uniform=uniform, normal=normal,
              randint=randint, choice=choice, categorical=categorical, multivariate_normal=multivariate_normal, permutation=permutation, bernoulli=bernoulli,
              gumbel=rgen('gumbel'), exponential=rgen('exponential'), laplace=rgen('laplace'), KeyArray=A)
lax = _Mod(_name='jax.lax', scan=scan, cond=cond, select=select, fori_loop=fori_loop, map=lax_map, switch=switch,
           stop_gradient=lambda x: x, dynamic_index_in_dim=dynamic_index_in_dim, dynamic_slice_in_dim=dynamic_slice_in_dim,
           conv_general_dilated=conv_general_dilated, rsqrt=rsqrt, expand_dims=expand_dims, exp=exp, log=log, sqrt=sqrt,
           max=maximum, min=minimum, add=lambda a, b: asarray(a) + b, sub=lambda a, b: asarray(a) - b,
           mul=lambda a, b: asarray(a) * b, div=lambda a, b: asarray(a) / b, neg=lambda a: -asarray(a), abs=jabs,
           square=square, rem=lambda a, b: asarray(a) % b, cumsum=lambda x, axis=0, **k: cumsum(x, axis), rev=lambda x, d: flip(x, d),
           concatenate=lambda xs, dimension: concatenate(xs, dimension), floor=floor, ceil=ceil, clamp=lambda lo, x, hi: clip(x, lo, hi),
           tanh=tanh, sin=sin, cos=cos)


def gelu(x, approximate=True):
    x = asarray(x).astype('float')
    return A(x.dims, lambda i: fn('gelu', x.fn(i)), 'f')


def elementwise(name):
    def f(x, *a, **k):
        x = asarray(x).astype('float')
        return A(x.dims, lambda i: fn(name, x.fn(i)), 'f')
    return f


nn = _Mod(_name='jax.nn', softmax=softmax, log_softmax=log_softmax, logsumexp=logsumexp, sigmoid=sigmoid, gelu=gelu,
          relu=lambda x: maximum(x, 0), silu=lambda x: asarray(x) * sigmoid(x), swish=lambda x: asarray(x) * sigmoid(x),
          leaky_relu=elementwise('leaky_relu'), softplus=lambda x: log(1 + exp(x)), tanh=tanh, one_hot=None)
special = _Mod(_name='jax.scipy.special', logsumexp=logsumexp, erf=erf, expit=sigmoid)
stats = _Mod(_name='jax.scipy.stats', norm=_Mod(_name='norm', logpdf=norm_logpdf, pdf=norm_pdf),
             multivariate_normal=_Mod(_name='mvn', logpdf=mvn_logpdf, pdf=lambda *a: exp(mvn_logpdf(*a))))
sp_linalg = _Mod(_name='jax.scipy.linalg', expm=lambda x, **k: _mat().expm(asarray(x)),
                 cho_factor=lambda x, **k: _mat().cho_factor(asarray(x), **k),
                 cho_solve=lambda c, b, **k: _mat().cho_solve(c, asarray(b)), sqrtm=lambda x, **k: _mat().sqrtm(asarray(x)),
                 cholesky=lambda x, lower=False, **k: _mat().cholesky(asarray(x), lower), inv=lambda x: _mat().inv(asarray(x)),
                 solve=lambda a, b, **k: solve(a, b), eigh=eigh,
                 solve_triangular=lambda a, b, **k: _mat().solve_triangular(asarray(a), asarray(b), **k))
integrate = _Mod(_name='jax.scipy.integrate', trapezoid=trapezoid)
scipy = _Mod(_name='jax.scipy', special=special, stats=stats, linalg=sp_linalg, integrate=integrate)
image = _Mod(_name='jax.image', resize=image_resize)
tree_util = _Mod(_name='jax.tree_util', tree_map=tree_map, tree_leaves=lambda t: tree_flatten(t)[0], tree_flatten=tree_flatten,
                 tree_unflatten=tree_unflatten)
tree = _Mod(_name='jax.tree', map=tree_map, leaves=lambda t: tree_flatten(t)[0])


def ravel_pytree(t):
    ls, d = tree_flatten(t)
    ls = [asarray(x) for x in ls]
    flat = concatenate([ravel(x) for x in ls])

    def un(v):
        v = asarray(v)
        out, p = [], ZERO
        for x in ls:
            n = _prodd(x.dims)
            out.append(reshape(v[dim_out(p):dim_out(add(p, n))], x.shape))
            p = add(p, n)
        return tree_unflatten(d, out)
    return flat, un


flatten_util = _Mod(_name='jax.flatten_util', ravel_pytree=ravel_pytree)
debug = _Mod(_name='jax.debug', print=lambda *a, **k: None, callback=lambda *a, **k: None)


class _Config:
    def update(self, *a):
        pass


class _ArrMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, A)


class Array(metaclass=_ArrMeta):
    pass


class _JaxMod(_Mod):
    pass


jax = _JaxMod(_name='jax', numpy=jnp_proxy, random=random, lax=lax, nn=nn, scipy=scipy, image=image, tree_util=tree_util,
              tree=tree, flatten_util=flatten_util, vmap=vmap, jit=jit, grad=grad, jacfwd=jacfwd, jacrev=jacfwd, jacobian=jacfwd, value_and_grad=value_and_grad, Array=Array,
              debug=debug, config=_Config(), tree_map=tree_map, named_scope=None, disable_jit=None,
              checkpoint=lambda f, **k: f, remat=lambda f, **k: f, device_get=lambda x: x, block_until_ready=lambda x: x,
              default_backend=lambda: 'cpu', devices=lambda *a: [])


# ---------------------------------------------------------------- python's math
def _m1(f):
    def g(x):
        r = f(x)
        return r
    return g


def mathfn(name, f):
    import math as _math

    def g(*a):
        if _bi.any(isinstance(x, A) for x in a) or True:
            r = f(*a)
            t = r.fn(())
            return r
        return getattr(_math, name)(*a)
    return g


def _floor_i(x):
    return asarray(x).__class__((), lambda _: fn('floor', asarray(x).term()), 'i') if not isc(asarray(x).term()) else int(cval(fn('floor', asarray(x).term())))


def _ceil_i(x):
    t = neg(fn('floor', neg(asarray(x).term())))
    return int(cval(t)) if isc(t) else A((), lambda _: t, 'i')


class _MathMod:
    inf = float('inf')
    nan = float('nan')

    def __getattr__(self, name):
        tbl = {'log': lambda x, b=None: log(x) if b is None else log(x) / log(b), 'sqrt': sqrt, 'exp': exp, 'sin': sin, 'cos': cos,
               'tan': tan, 'tanh': tanh, 'fabs': jabs, 'floor': _floor_i, 'ceil': _ceil_i, 'pow': lambda a, b: asarray(a) ** b,
               'log2': log2, 'log1p': log1p, 'expm1': expm1, 'erf': erf,
               'prod': lambda xs: functools.reduce(lambda a, b: a * b, list(xs), 1),
               'isnan': isnan, 'log10': lambda x: log(x) / log(10)}
        if name == 'pi':
            return A((), lambda _: PI(), 'f')
        if name == 'e':
            return A((), lambda _: fn('exp', C(Fraction(1))), 'f')
        if name in tbl:
            return tbl[name]
        raise Unsupported(f'no contract for math.{name}')


math = _MathMod()
