"""Symbolic arrays: shape is a tuple of integer terms, contents a function from index terms to a term."""
import builtins
import mpmath
from fractions import Fraction
from .terms import *
from .terms import const as C
from .ctx import CTX, decide, entails, Unsupported, UnsupportedAttr, ShapeError


def dim_t(d):
    if isinstance(d, T):
        return d
    if isinstance(d, A):
        if d.dims != ():
            if d._is_single():
                return d.fn(tuple(ZERO for _ in d.dims))
            raise Unsupported('array used as dimension')
        t = d.fn(())
        if isc(t) and not isinstance(cval(t), int):
            return C(int(cval(t)))
        return t
    if isinstance(d, bool):
        return C(int(d))
    if isinstance(d, int):
        return C(d)
    if isinstance(d, float) and d == int(d):
        raise TypeError(f'float {d} as dimension')
    try:
        return C(int(d.__index__()))
    except Exception:
        raise TypeError(f'dimension {d!r}')


def dim_out(t):
    return cval(t) if isc(t) else A((), lambda _: t, 'i')


def dim_eq(a, b):
    if a is b:
        return True
    e = eq(a, b)
    if e is TRUE:
        return True
    if e is FALSE:
        return False
    from . import norm as N
    try:
        p = N.padd(N.norm(a), N.pscale(N.norm(b), -1))
        if p.zero():
            return True
    except Unsupported:
        pass
    return bool(entails(e))


def kind_join(*ks):
    if 'K' in ks:
        return 'K'
    if 'f' in ks:
        return 'f'
    if 'i' in ks:
        return 'i'
    return 'b'


def kind_of_term(t):
    return {'I': 'i', 'R': 'f', 'B': 'b', 'K': 'K'}[t.sort]


class _DType:
    def __init__(self, name, kind):
        self.name, self.kind = name, kind

    def __call__(self, x=0):
        return asarray(x).astype(self)

    def __eq__(self, o):
        return isinstance(o, _DType) and o.kind == self.kind or (o in (self.name,)) or (
                o is float and self.kind == 'f') or (o is int and self.kind == 'i') or (o is bool and self.kind == 'b')

    def __hash__(self):
        return hash(self.kind)

    def __repr__(self):
        return self.name


float32 = _DType('float32', 'f')
float64 = _DType('float64', 'f')
int32 = _DType('int32', 'i')
int64 = _DType('int64', 'i')
uint32 = _DType('uint32', 'i')
bool_ = _DType('bool', 'b')
_kd = {'f': float32, 'i': int32, 'b': bool_, 'K': uint32}


def dtype_kind(d):
    if d is None:
        return None
    if isinstance(d, _DType):
        return d.kind
    if isinstance(d, str):
        return 'f' if 'float' in d else 'b' if 'bool' in d else 'i'
    n = getattr(d, '__name__', str(d))
    if n in ('SFloat',) or 'float' in n:
        return 'f'
    if 'bool' in n:
        return 'b'
    if 'int' in n or n == 'SInt':
        return 'i'
    raise Unsupported(f'dtype {d!r}')


class A:
    __array_priority__ = 1000

    def __init__(self, dims, fn, kind, tag=None):
        self.dims = tuple(dims)
        self._f = fn
        self.kind = kind
        self._memo = {}
        self.tag = tag   # e.g. structural matrix information

    def fn(self, idx):
        idx = tuple(idx)
        r = self._memo.get(idx)
        if r is None:
            r = self._f(idx)
            if not isinstance(r, T):
                r = C(r)
            self._memo[idx] = r
        return r

    def num(self, idx):
        return to_num(self.fn(idx))

    # -- basics
    @property
    def shape(self):
        return tuple(dim_out(d) for d in self.dims)

    @property
    def ndim(self):
        return len(self.dims)

    @property
    def size(self):
        r = ONE
        for d in self.dims:
            r = mul(r, d)
        return dim_out(r)

    @property
    def dtype(self):
        return _kd[self.kind]

    @property
    def T(self):
        return transpose(self)

    @property
    def mT(self):
        return swapaxes(self, -1, -2)

    @property
    def at(self):
        return _At(self)

    @property
    def real(self):
        return self

    def _is_single(self):
        return all(isc(d) and cval(d) == 1 for d in self.dims)

    def term(self):
        if self.dims == ():
            return self.fn(())
        if self._is_single():
            return self.fn(tuple(ZERO for _ in self.dims))
        raise Unsupported('not a scalar')

    def __len__(self):
        if not self.dims:
            raise TypeError('len() of unsized object')
        d = self.dims[0]
        if isc(d):
            return cval(d)
        raise Unsupported('len of symbolic dimension')

    def __iter__(self):
        if not self.dims:
            raise TypeError('iteration over a 0-d array')
        d = self.dims[0]
        if not isc(d):
            raise Unsupported('iteration over a symbolic dimension')
        return iter([self[i] for i in range(cval(d))])

    def __bool__(self):
        t = self.term()
        if t.sort != 'B':
            t = ne(t, ZERO)
        return decide(t)

    def __index__(self):
        t = self.term()
        if isc(t):
            return int(cval(t))
        raise Unsupported('symbolic value used as a concrete index')

    def __int__(self):
        return self.__index__()

    def __float__(self):
        t = self.term()
        if isc(t):
            return float(cval(t))
        raise Unsupported('float() of symbolic value')

    def __hash__(self):
        return id(self)

    def __repr__(self):
        if self.dims == ():
            return f'A({self.fn(())})'
        return f'A{tuple(self.dims)}:{self.kind}'

    def astype(self, d):
        k = dtype_kind(d)
        if k == self.kind or self.kind == 'K':
            return self
        if k == 'f':
            return A(self.dims, lambda i: toreal(self.fn(i)), 'f')
        if k == 'i':
            if self.kind == 'b':
                return A(self.dims, lambda i: to_num(self.fn(i)), 'i')
            return A(self.dims, lambda i: fn('trunc', self.fn(i)), 'i')
        return A(self.dims, lambda i: ne(self.num(i), ZERO), 'b')

    def item(self):
        t = self.term()
        return cval(t) if isc(t) else A((), lambda _: t, self.kind)

    def copy(self):
        return self

    def block_until_ready(self):
        return self

    # -- arithmetic
    def __add__(self, o): return ew2(add, self, o)
    def __radd__(self, o): return ew2(add, o, self)
    def __sub__(self, o): return ew2(sub, self, o)
    def __rsub__(self, o): return ew2(sub, o, self)
    def __mul__(self, o): return ew2(mul, self, o)
    def __rmul__(self, o): return ew2(mul, o, self)
    def __truediv__(self, o): return ew2(div, self, o, kind='f')
    def __rtruediv__(self, o): return ew2(div, o, self, kind='f')
    def __floordiv__(self, o): return ew2(idiv, self, o)
    def __rfloordiv__(self, o): return ew2(idiv, o, self)
    def __mod__(self, o): return ew2(mod, self, o)
    def __rmod__(self, o): return ew2(mod, o, self)
    def __divmod__(self, o): return (self // o, self % o)
    def __neg__(self): return ew1(neg, self)
    def __pos__(self): return self
    def __abs__(self): return ew1(abs_t, self)

    def __pow__(self, o):
        return power(self, o)

    def __rpow__(self, o):
        return power(asarray(o), self)

    def __matmul__(self, o): return matmul(self, o)
    def __rmatmul__(self, o): return matmul(o, self)

    def __lt__(self, o): return ew2(lt, self, o, kind='b')
    def __le__(self, o): return ew2(le, self, o, kind='b')
    def __gt__(self, o): return ew2(lambda a, b: lt(b, a), self, o, kind='b')
    def __ge__(self, o): return ew2(lambda a, b: le(b, a), self, o, kind='b')

    def __eq__(self, o):
        if o is None or isinstance(o, (str, tuple, list, dict)):
            return False
        return ew2(eq, self, o, kind='b')

    def __ne__(self, o):
        if o is None or isinstance(o, (str, tuple, list, dict)):
            return True
        return ew2(ne, self, o, kind='b')

    def __invert__(self):
        if self.kind != 'b':
            return ew1(lambda t: sub(neg(t), ONE), self)
        return ew1(not_, self, kind='b')

    def __and__(self, o):
        return ew2(and_, self, o, kind='b')

    def __or__(self, o):
        return ew2(or_, self, o, kind='b')

    def __xor__(self, o):
        return ew2(lambda a, b: not_(eq(a, b)), self, o, kind='b')

    __rand__ = __and__
    __ror__ = __or__

    # -- indexing
    def __getitem__(self, key):
        return getitem(self, key)

    # -- methods mirrored from jnp
    def __getattr__(self, name):
        if name.startswith('_'):
            raise AttributeError(name)
        from . import fakejax
        if name in ('sum', 'mean', 'max', 'min', 'prod', 'reshape', 'ravel', 'flatten', 'squeeze', 'transpose', 'std',
                    'var', 'clip', 'cumsum', 'argmax', 'argmin', 'dot', 'all', 'any', 'take', 'sort', 'argsort',
                    'round', 'repeat', 'swapaxes', 'trace', 'diagonal', 'conj'):
            f = getattr(fakejax.jnp, {'flatten': 'ravel', 'conj': 'asarray'}.get(name, name))

            def meth(*a, **k):
                if name == 'reshape' and len(a) > 1:
                    a = (tuple(a),)
                if name == 'transpose' and len(a) > 1:
                    a = (tuple(a),)
                return f(self, *a, **k)

            return meth
        raise UnsupportedAttr(f'array attribute {name}')


def abs_t(t):
    t = to_num(t)
    return ite(le(ZERO, t), t, neg(t))


def asarray(x, kind=None):
    if isinstance(x, A):
        return x
    if isinstance(x, T):
        return A((), lambda _: x, kind_of_term(x))
    if isinstance(x, (bool, int, float, Fraction, mpmath.mpf)):
        t = C(x)
        return A((), lambda _: t, kind_of_term(t))
    if isinstance(x, SymList):
        return x.to_array()
    if isinstance(x, (list, tuple)):
        if len(x) == 0:
            return A((ZERO,), lambda i: C(Fraction(0)), 'f')
        xs = [asarray(e) for e in x]
        return stack0(xs)
    if isinstance(x, range):
        return asarray(list(x))
    if hasattr(x, 'tolist'):
        return asarray(x.tolist())
    if x is None:
        raise TypeError('None is not an array')
    raise Unsupported(f'asarray({type(x)})')


def stack0(xs):
    dims = xs[0].dims
    for x in xs:
        if len(x.dims) != len(dims) or not all(dim_eq(a, b) for a, b in zip(x.dims, dims)):
            raise ShapeError('inhomogeneous shapes')
    k = kind_join(*[x.kind for x in xs])

    def f(idx):
        i, r = idx[0], idx[1:]
        if isc(i):
            j = cval(i)
            if 0 <= j < len(xs):
                return castk(xs[j].fn(r), k)
            return fn('oob', i, sort='R' if k == 'f' else 'I')
        out = castk(xs[-1].fn(r), k)
        for j in range(len(xs) - 2, -1, -1):
            out = ite(eq(i, C(j)), castk(xs[j].fn(r), k), out)
        return out

    return A((C(len(xs)),) + dims, f, k)


def castk(t, k):
    if k == 'f':
        return toreal(t) if t.sort != 'R' else t
    if k == 'i':
        return to_num(t)
    return t


def bshape(*shapes):
    n = max([len(s) for s in shapes], default=0)
    out = []
    for i in range(n):
        d = None
        for s in shapes:
            j = i - (n - len(s))
            if j < 0:
                continue
            e = s[j]
            if d is None:
                d = e
            elif isc(d) and cval(d) == 1:
                d = e
            elif isc(e) and cval(e) == 1:
                pass
            elif not dim_eq(d, e):
                raise ShapeError(f'incompatible shapes for broadcasting: {shapes}')
        out.append(d)
    return tuple(out)


def bidx(dims, idx):
    """index into an array of shape dims given a broadcast index."""
    off = len(idx) - len(dims)
    return tuple(ZERO if (isc(d) and cval(d) == 1) else idx[off + i] for i, d in enumerate(dims))


def broadcast_to(x, shape):
    x = asarray(x)
    if not isinstance(shape, (tuple, list)):
        shape = (shape,)
    dims = tuple(dim_t(d) for d in shape)
    if len(bshape(x.dims, dims)) != len(dims):
        raise ShapeError('broadcast_to')
    for i, d in enumerate(reversed(x.dims)):
        if not (isc(d) and cval(d) == 1) and not dim_eq(d, dims[len(dims) - 1 - i]):
            raise ShapeError('broadcast_to')
    return A(dims, lambda idx: x.fn(bidx(x.dims, idx)), x.kind)


def ewn(f, *xs, kind=None):
    xs = [asarray(x) for x in xs]
    dims = bshape(*[x.dims for x in xs])
    k = kind or kind_join(*[x.kind for x in xs])

    def g(idx):
        return f(*[x.fn(bidx(x.dims, idx)) for x in xs])

    return A(dims, g, k)


def ew2(f, a, b, kind=None):
    if not isinstance(a, (A, T, int, float, bool, Fraction, mpmath.mpf, list, tuple)) and not hasattr(a, 'tolist'):
        return NotImplemented
    if not isinstance(b, (A, T, int, float, bool, Fraction, mpmath.mpf, list, tuple)) and not hasattr(b, 'tolist'):
        return NotImplemented
    a, b = asarray(a), asarray(b)
    if kind is None and f in (add, sub, mul) and a.kind == 'b' and b.kind == 'b':
        kind = 'i'
    r = ewn(f, a, b, kind=kind)
    return r


def ew1(f, a, kind=None):
    a = asarray(a)
    return A(a.dims, lambda i: f(a.fn(i)), kind or ('i' if a.kind == 'b' else a.kind))


def power(a, o):
    a = asarray(a)
    if isinstance(o, A) and o.dims == () and isc(o.fn(())):
        o = cval(o.fn(()))
    if isinstance(o, (int, float, Fraction, mpmath.mpf)):
        e = o
        if isinstance(e, float):
            e = int(e) if e == int(e) else Fraction(repr(e))
        k = a.kind if isinstance(o, int) and (o >= 0) else 'f'
        return A(a.dims, lambda i: pow_(a.num(i), e), 'i' if k == 'b' else k)
    return ewn(lambda x, y: pow_(x, y), a, o, kind='f')


def transpose(x, axes=None):
    x = asarray(x)
    n = x.ndim
    if axes is None:
        axes = tuple(range(n))[::-1]
    axes = tuple(int(a) % n if n else a for a in axes)
    dims = tuple(x.dims[a] for a in axes)

    def f(idx):
        out = [None] * n
        for i, a in enumerate(axes):
            out[a] = idx[i]
        return x.fn(tuple(out))

    return A(dims, f, x.kind)


def swapaxes(x, a, b):
    n = asarray(x).ndim
    ax = list(range(n))
    ax[a % n], ax[b % n] = ax[b % n], ax[a % n]
    return transpose(x, ax)


def Sum(n, f, lo=None):
    """sum of f(i), 0 <= i < n."""
    if isc(n):
        m = cval(n)
        if m <= 64 or NUMERIC[0]:
            r = Fraction(0)
            ts = [f(C(i)) for i in range(m)]
            if not ts:
                return C(Fraction(0))
            return add(*ts)
    v = fresh('s')
    body = f(v)
    return fn('Sum', lam((v,), (n,), to_num(body)), sort=to_num(body).sort)


def Reduce(name, n, f):
    """'Max' / 'Min' over a non-empty range."""
    if isc(n):
        m = cval(n)
        if m <= 16 or NUMERIC[0]:
            if m == 0:
                raise ShapeError('zero-size reduction')
            r = to_num(f(ZERO))
            for i in range(1, m):
                r = (max_ if name == 'Max' else min_)(r, to_num(f(C(i))))
            return r
    v = fresh('s')
    body = to_num(f(v))
    return fn(name, lam((v,), (n,), body), sort=body.sort)


def matmul(a, b):
    a, b = asarray(a), asarray(b)
    from . import matalg
    r = matalg.try_matmul(a, b)
    if r is not None:
        return r
    if a.ndim == 0 or b.ndim == 0:
        raise TypeError('matmul of scalar')
    if a.ndim == 1 and b.ndim == 1:
        n = contract_dim(a.dims[0], b.dims[0])
        return A((), lambda _: Sum(n, lambda i: mul(a.num((i,)), b.num((i,)))), kind_join(a.kind, b.kind))
    if b.ndim == 1:
        n = contract_dim(a.dims[-1], b.dims[0])
        return A(a.dims[:-1], lambda idx: Sum(n, lambda i: mul(a.num(idx + (i,)), b.num((i,)))),
                 kind_join(a.kind, b.kind))
    if a.ndim == 1:
        n = contract_dim(a.dims[0], b.dims[-2])
        return A(b.dims[:-2] + b.dims[-1:],
                 lambda idx: Sum(n, lambda i: mul(a.num((i,)), b.num(idx[:-1] + (i, idx[-1])))),
                 kind_join(a.kind, b.kind))
    n = contract_dim(a.dims[-1], b.dims[-2])
    batch = bshape(a.dims[:-2], b.dims[:-2])

    def f(idx):
        bi, i, j = idx[:-2], idx[-2], idx[-1]
        return Sum(n, lambda k: mul(a.num(bidx(a.dims[:-2], bi) + (i, k)), b.num(bidx(b.dims[:-2], bi) + (k, j))))

    return A(batch + (a.dims[-2], b.dims[-1]), f, kind_join(a.kind, b.kind))


def contract_dim(x, y):
    if not dim_eq(x, y):
        raise ShapeError(f'contraction of {x} with {y}')
    return x


# ---- indexing --------------------------------------------------------------
def norm_slice(s, n):
    """slice on a dimension of size n -> (start T, length T, step int)"""
    step = s.step
    if isinstance(step, A):
        step = int(step)
    step = 1 if step is None else int(step)

    def conv(v):
        if v is None:
            return None
        return dim_t(v)

    start, stop = conv(s.start), conv(s.stop)
    if isc(n) and (start is None or isc(start)) and (stop is None or isc(stop)):
        a, b, st = slice(None if start is None else cval(start), None if stop is None else cval(stop), step).indices(
            cval(n))
        return C(a), C(len(range(a, b, st))), st

    def wrap(t):
        # python semantics: negative counts from the end
        if isc(t):
            return add(n, t) if cval(t) < 0 else t
        if entails(le(ZERO, t)):
            return t
        if entails(lt(t, ZERO)):
            return add(n, t)
        return ite(lt(t, ZERO), add(n, t), t)

    def clampv(t, lo, hi):
        if entails(and_(le(lo, t), le(t, hi))):
            return t
        return max_(lo, min_(t, hi))

    if step > 0:
        a = ZERO if start is None else clampv(wrap(start), ZERO, n)
        b = n if stop is None else clampv(wrap(stop), ZERO, n)
        ln = sub(b, a)
        if step > 1:
            ln = idiv(add(ln, C(step - 1)), C(step))
        if not entails(le(ZERO, ln)):
            ln = max_(ZERO, ln)
        return a, ln, step
    m1 = C(-1)
    a = sub(n, ONE) if start is None else clampv(wrap(start), m1, sub(n, ONE))
    b = m1 if stop is None else clampv(wrap(stop), m1, sub(n, ONE))
    ln = sub(a, b)
    if step < -1:
        ln = idiv(add(ln, C(-step - 1)), C(-step))
    if not entails(le(ZERO, ln)):
        ln = max_(ZERO, ln)
    return a, ln, step


def wrap_index(t, n):
    """JAX normalisation of an integer index: negative counts from the end."""
    t = to_num(t)
    if isc(t):
        v = cval(t)
        if v < 0:
            r = add(n, t)
            return r
        return t
    if t.op == 'v' or not t.fv:
        return t
    if NUMERIC[0]:
        return t
    if t.op == 'add' and any(isc(s) and cval(s) < 0 for s in t.args) or (t.op == 'mul' and isc(t.args[0]) and cval(t.args[0]) < 0):
        if entails(le(ZERO, t)):
            return t
        return ite(lt(t, ZERO), add(t, n), t)
    return t


def clamp_num(t, n):
    """concrete gather: JAX clamps out-of-bounds indices."""
    if NUMERIC[0] and isc(t) and isc(n):
        return C(max(0, min(int(cval(t)), cval(n) - 1)))
    return t


def parse_key(x, key):
    if not isinstance(key, tuple):
        key = (key,)
    key = list(key)
    key = [asarray(k) if isinstance(k, (list,)) or (hasattr(k, 'tolist') and not isinstance(k, A)) else k for k in key]
    nspec = sum(1 for k in key if k is not None and k is not Ellipsis)
    if nspec > x.ndim:
        raise IndexError('too many indices')
    if not any(k is Ellipsis for k in key):
        key.append(Ellipsis)
    if sum(1 for k in key if k is Ellipsis) > 1:
        raise IndexError('an index can only have a single ellipsis')
    out = []
    for k in key:
        if k is Ellipsis:
            out.extend([slice(None)] * (x.ndim - nspec))
        else:
            out.append(k)
    return out


class _Sel:
    """A parsed index: result dims and a map from result index to source index."""

    def __init__(self, x, key):
        key = parse_key(x, key)
        ax = 0
        items = []  # per output construct
        adv = []
        for k in key:
            if k is None:
                items.append(('new',))
                continue
            n = x.dims[ax]
            if isinstance(k, slice):
                items.append(('sl', ax) + norm_slice(k, n))
            else:
                if isinstance(k, SymList):
                    k = k.to_array()
                ka = asarray(k)
                if ka.kind == 'b':
                    raise Unsupported('boolean mask index')
                if ka.kind == 'f':
                    raise TypeError('Indexer must have integer or boolean type')
                items.append(('adv', ax, ka, n))
                adv.append(ka)
            ax += 1
        self.adv = adv
        bd = bshape(*[a.dims for a in adv]) if adv else ()
        advpos = [i for i, it in enumerate(items) if it[0] == 'adv']
        contiguous = bool(advpos) and advpos == list(range(advpos[0], advpos[-1] + 1))
        dims = []
        plan = []  # list of (kind, ...) referencing out positions
        bpos = None
        if adv and not contiguous:
            # 0-d advanced indices separated by slices behave like this too (numpy); harmless when bd == ()
            bpos = 0
            dims.extend(bd)
        for i, it in enumerate(items):
            if it[0] == 'new':
                dims.append(ONE)
            elif it[0] == 'sl':
                plan.append(('sl', it[1], len(dims), it[2], it[4]))
                dims.append(it[3])
            else:
                if bpos is None:
                    bpos = len(dims)
                    dims.extend(bd)
                plan.append(('adv', it[1], it[2], it[3]))
        self.dims = tuple(dims)
        self.plan = plan
        self.bpos = bpos
        self.nb = len(bd)
        self.bd = bd
        self.x = x

    def src(self, idx):
        out = [None] * self.x.ndim
        b = idx[self.bpos:self.bpos + self.nb] if self.bpos is not None else ()
        for p in self.plan:
            if p[0] == 'sl':
                _, ax, pos, start, step = p
                out[ax] = add(start, mul(C(step), idx[pos]))
            else:
                _, ax, ka, n = p
                out[ax] = clamp_num(wrap_index(ka.fn(bidx(ka.dims, b)), n), n)
        return tuple(out)


def getitem(x, key):
    s = _Sel(x, key)
    return A(s.dims, lambda idx: x.fn(s.src(idx)), x.kind)


class _At:
    def __init__(self, x):
        self.x = x

    def __getitem__(self, key):
        return _AtIdx(self.x, key)


class _AtIdx:
    def __init__(self, x, key):
        self.x, self.key = x, key

    def get(self, **kw):
        return getitem(self.x, self.key)

    def _upd(self, comb, v, **kw):
        x = self.x
        s = _Sel(x, self.key)
        v = asarray(v)
        # broadcast v to s.dims
        bs = bshape(v.dims, s.dims)
        if len(bs) != len(s.dims):
            # leading ones in v are dropped by jax
            raise ShapeError('incompatible shapes in scatter')
        for d, e in zip(reversed(v.dims), reversed(s.dims)):
            if not (isc(d) and cval(d) == 1) and not dim_eq(d, e):
                raise ShapeError(f'incompatible shapes for scatter: {v.dims} into {s.dims}')
        kind = x.kind

        def vval(ridx):
            return castk(v.fn(bidx(v.dims, ridx)), kind)

        def f(idx):
            # idx: index into x. Find the result index hitting it.
            cond = []
            ridx = [ZERO] * len(s.dims)
            vecs = []
            for p in s.plan:
                if p[0] == 'sl':
                    _, ax, pos, start, step = p
                    n = s.dims[pos]
                    if step == 1:
                        r = sub(idx[ax], start)
                    elif step == -1:
                        r = sub(start, idx[ax])
                    else:
                        raise Unsupported('strided scatter')
                    ridx[pos] = r
                    full = (start is ZERO and step == 1 and n is x.dims[ax])
                    if not full:
                        cond.append(le(ZERO, r))
                        cond.append(lt(r, n))
                else:
                    _, ax, ka, n = p
                    if len(s.bd) == 0:
                        cond.append(eq(idx[ax], wrap_index(ka.fn(()), n)))
                    else:
                        vecs.append((ax, ka, n))
            old = x.fn(idx)
            if not vecs:
                c = and_(*cond)
                if c is FALSE:
                    return old
                return ite(c, comb(old, vval(tuple(ridx))), old)
            if len(s.bd) != 1:
                raise Unsupported('scatter with multi-dimensional index arrays')
            n = s.bd[0]
            if isc(n) and (NUMERIC[0] or cval(n) <= 8):
                out = old
                for j in range(cval(n)):
                    cc = list(cond)
                    for ax, ka, m in vecs:
                        cc.append(eq(idx[ax], wrap_index(ka.fn(bidx(ka.dims, (C(j),))), m)))
                    rr = list(ridx)
                    rr[s.bpos] = C(j)
                    c = and_(*cc)
                    if c is not FALSE:
                        out = ite(c, comb(out, vval(tuple(rr))), out)
                return out
            if len(vecs) != 1:
                raise Unsupported('scatter with several index arrays')
            if comb is not _set:
                raise Unsupported('scatter-add with symbolic index array')
            ax, ka, m = vecs[0]
            v0 = fresh('j')
            L = lam((v0,), (n,), to_num(ka.fn(bidx(ka.dims, (v0,)))))
            hit = fn('hit', L, idx[ax], sort='B')
            inv = fn('inv', L, idx[ax], sort='I')
            rr = list(ridx)
            rr[s.bpos] = inv
            return ite(and_(hit, *cond), vval(tuple(rr)), old)

        return A(x.dims, f, kind)

    def set(self, v, **kw):
        return self._upd(_set, v)

    def add(self, v, **kw):
        return self._upd(lambda o, n: add(o, n), v)

    def subtract(self, v, **kw):
        return self._upd(lambda o, n: sub(o, n), v)

    def multiply(self, v, **kw):
        return self._upd(lambda o, n: mul(o, n), v)

    def mul(self, v, **kw):
        return self.multiply(v)

    def divide(self, v, **kw):
        return self._upd(lambda o, n: div(o, n), v)

    def max(self, v, **kw):
        return self._upd(lambda o, n: max_(o, n), v)

    def min(self, v, **kw):
        return self._upd(lambda o, n: min_(o, n), v)


def _set(o, n):
    return n


# ---- python sequences of symbolic length ------------------------------------
class SymList:
    """A python list of symbolic length: element i is get(i)."""

    def __init__(self, n, get):
        self.n, self.get = n, get

    def __iter__(self):
        if isc(self.n):
            return iter([self.get(C(i)) for i in range(cval(self.n))])
        raise Unsupported('iteration over a symbolic-length list')

    def __len__(self):
        if isc(self.n):
            return cval(self.n)
        raise Unsupported('len of a symbolic-length list')

    def __getitem__(self, i):
        t = dim_t(i)
        if isc(t) and cval(t) < 0:
            t = add(self.n, t)
        return self.get(t)

    def to_array(self):
        v = fresh('q')
        e = self.get(v)
        if isinstance(e, tuple):
            es = [asarray(x) for x in e]
            m = len(es)

            def f(idx):
                row = [asarray(x).term() for x in self.get(idx[0])]
                j = idx[1]
                if isc(j):
                    return row[cval(j)]
                out = row[-1]
                for q in range(m - 2, -1, -1):
                    out = ite(eq(j, C(q)), row[q], out)
                return out

            return A((self.n, C(m)), f, kind_join(*[x.kind for x in es]))
        e = asarray(e)
        return A((self.n,) + e.dims, lambda idx: asarray(self.get(idx[0])).fn(idx[1:]), e.kind)


def sym_range(*a):
    if all(isinstance(x, int) for x in a):
        return range(*a)
    ts = [dim_t(x) for x in a]
    if all(isc(t) for t in ts):
        return range(*[cval(t) for t in ts])
    lo, hi, st = ZERO, None, ONE
    if len(ts) == 1:
        hi = ts[0]
    elif len(ts) == 2:
        lo, hi = ts
    else:
        lo, hi, st = ts
    ln = sub(hi, lo)
    if st is not ONE:
        ln = idiv(add(ln, sub(st, ONE)), st)
    if not entails(le(ZERO, ln)):
        ln = max_(ZERO, ln)
    return SymList(ln, lambda i: A((), lambda _, i=i: add(lo, mul(st, i)), 'i'))


def _progression(l):
    """a long list of integers in arithmetic progression, as a function of the position"""
    if len(l) < 2 or not all(type(x) is int for x in l) or any(y - x != l[1] - l[0] for x, y in zip(l, l[1:])):
        return None
    return SymList(C(len(l)), lambda i: A((), lambda _, i=i: add(C(l[0]), mul(C(l[1] - l[0]), i)), 'i'))


def sym_product(*ls):
    if all(not isinstance(l, SymList) for l in ls):
        import itertools
        ls = [list(l) for l in ls]
        ps = [_progression(l) for l in ls]
        if len(ls) != 2 or len(ls[0]) * len(ls[1]) <= 1 or None in ps:
            return itertools.product(*ls)
        ls = ps
    ls = [l if isinstance(l, SymList) else SymList(C(len(list(l))), (lambda i, l=list(l): l[cval(i)])) for l in ls]
    if len(ls) != 2:
        raise Unsupported('product of more than two symbolic lists')
    a, b = ls

    def get(i):
        return (a.get(idiv(i, b.n)), b.get(mod(i, b.n)))

    return SymList(mul(a.n, b.n), get)


def sym_comp(f, it):
    if isinstance(it, SymList) and not isc(it.n):
        return SymList(it.n, lambda i: f(it.get(i)))
    return [f(x) for x in it]
