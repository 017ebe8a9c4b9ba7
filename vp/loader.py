"""Loads the *unmodified* source of /repo under the contract library.

The only transformation is mechanical: a list/generator comprehension with one `for` and no condition becomes
__vp_comp__(lambda target: elt, iterable), so that it can range over a symbolic number of elements.
"""
import ast
import builtins
import os
import types
from fractions import Fraction
from .terms import *
from .terms import const as C
from .ctx import CTX, Unsupported, entails
from . import fakejax as fj
from .sarray import A, asarray, SymList, sym_range, sym_product, sym_comp, dim_t, dim_out


class _Comp(ast.NodeTransformer):
    def _comp(self, node):
        self.generic_visit(node)
        if len(node.generators) != 1:
            return node
        g = node.generators[0]
        if g.ifs or g.is_async:
            return node
        if any(isinstance(n, (ast.NamedExpr, ast.Yield, ast.Await)) for n in ast.walk(node.elt)):
            return node
        tgt = g.target
        if isinstance(tgt, ast.Name):
            args = ast.arguments(posonlyargs=[], args=[ast.arg(arg=tgt.id)], kwonlyargs=[], kw_defaults=[], defaults=[])
            body = node.elt
        elif isinstance(tgt, ast.Tuple) and all(isinstance(e, ast.Name) for e in tgt.elts):
            args = ast.arguments(posonlyargs=[], args=[ast.arg(arg='__vp_t__')], kwonlyargs=[], kw_defaults=[], defaults=[])
            inner = ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=e.id) for e in tgt.elts], kwonlyargs=[],
                                                  kw_defaults=[], defaults=[]), body=node.elt)
            body = ast.Call(func=inner, args=[ast.Starred(value=ast.Name(id='__vp_t__', ctx=ast.Load()), ctx=ast.Load())], keywords=[])
        else:
            return node
        return ast.copy_location(ast.Call(func=ast.Name(id='__vp_comp__', ctx=ast.Load()),
                                          args=[ast.Lambda(args=args, body=body), g.iter], keywords=[]), node)

    visit_ListComp = _comp
    visit_GeneratorExp = _comp


class _IntMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, int)

    def __call__(cls, x=0, *a):
        if isinstance(x, A):
            t = x.term()
            r = fn('trunc', t)
            if isc(r):
                return int(cval(r))
            from . import norm
            r = norm.simp(r) if not NUMERIC[0] else r
            return int(cval(r)) if isc(r) else A((), lambda _: r, 'i')
        return int(x, *a)


class SInt(metaclass=_IntMeta):
    pass


class _FloatMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, float)

    def __call__(cls, x=0.):
        if isinstance(x, A):
            return x.astype('float')
        return float(x)


class SFloat(metaclass=_FloatMeta):
    pass


def _pick(r, x, small):
    p, q = fj.asarray(r), fj.asarray(x)
    if p.ndim == 0 and q.ndim == 0 and p.kind == q.kind == 'i':
        a, b = p.term(), q.term()
        if entails(le(a, b)):
            return p if small else q
        if entails(le(b, a)):
            return q if small else p
    return (fj.minimum if small else fj.maximum)(p, q)


def smin(*a, **k):
    if len(a) == 1:
        a = list(a[0])
    if any(isinstance(x, A) for x in a) and not k:
        r = a[0]
        for x in a[1:]:
            r = _pick(r, x, True)
        return _simp(r)
    return min(*a, **k)


def smax(*a, **k):
    if len(a) == 1:
        a = list(a[0])
    if any(isinstance(x, A) for x in a) and not k:
        r = a[0]
        for x in a[1:]:
            r = _pick(r, x, False)
        return _simp(r)
    return max(*a, **k)


def _simp(r):
    t = r.term()
    if isc(t):
        v = cval(t)
        return v
    return r


def slen(x):
    if isinstance(x, SymList):
        return dim_out(x.n)
    if isinstance(x, A) and x.dims and not isc(x.dims[0]):
        return dim_out(x.dims[0])
    return len(x)


def slist(x=()):
    if isinstance(x, SymList) and not (isc(x.n) and cval(x.n) <= 1):
        return x
    return list(x)


def ssum(x, start=0):
    if isinstance(x, A):
        return fj.jsum(x, 0) + start
    r = start
    for e in x:
        r = r + e
    return r


def sround(x, *a):
    if isinstance(x, A):
        raise Unsupported('round')
    return round(x, *a)


class Library:
    def __init__(self, root='/repo', overrides=None):
        self.root = root
        self.modules = {}
        self.sources = {}
        self.overrides = dict(overrides or {})
        self.fakes = self._fakes()

    def _fakes(self):
        from . import fakeflax
        import itertools
        it = types.SimpleNamespace(**{k: getattr(itertools, k) for k in dir(itertools) if not k.startswith('_')})
        it.product = sym_product
        numpy = fj.jnp_proxy
        return {
            'jax': fj.jax, 'jax.numpy': fj.jnp_proxy, 'jax.random': fj.random, 'jax.lax': fj.lax, 'jax.nn': fj.nn,
            'jax.scipy': fj.scipy, 'jax.scipy.special': fj.special, 'jax.scipy.stats': fj.stats, 'jax.scipy.linalg': fj.sp_linalg,
            'jax.tree_util': fj.tree_util, 'jax.flatten_util': fj.flatten_util, 'jax.image': fj.image, 'jax.numpy.linalg': fj.linalg,
            'jax.scipy.integrate': fj.integrate, 'jax.scipy.stats.norm': fj.stats.norm,
            'numpy': numpy, 'math': fj.math, 'itertools': it,
            'flax': fakeflax.flax, 'flax.linen': fakeflax.linen, 'optax': fakeflax.optax, 'einops': fakeflax.einops,
        }

    REAL = {'typing', 'functools', 'abc', 'dataclasses', 'enum', 'collections', 'operator', 'copy', 'warnings', 'types', 'numbers', '__future__',
            'collections.abc', 'typing_extensions', 'contextlib', 'os', 'sys', 're', 'string', 'inspect'}

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals['__package__'].split('.')
            pkg = pkg[:len(pkg) - (level - 1)]
            name = '.'.join(pkg + ([name] if name else []))
        if name == 'fbs' or name.startswith('fbs.'):
            m = self.load(name)
            if not fromlist:
                return self.load(name.split('.')[0])
            for f in fromlist:
                if f != '*' and not hasattr(m, f) and self._path(name + '.' + f):
                    setattr(m, f, self.load(name + '.' + f))
            return m
        if name in self.fakes:
            if fromlist or '.' not in name:
                return self.fakes[name]
            return self.fakes[name.split('.')[0]]
        if name in self.REAL:
            return builtins.__import__(name, None, None, fromlist, 0)
        raise Unsupported(f'import of {name}')

    def _path(self, name):
        p = os.path.join(self.root, *name.split('.'))
        if os.path.isdir(p) and os.path.exists(os.path.join(p, '__init__.py')):
            return os.path.join(p, '__init__.py'), True
        if os.path.exists(p + '.py'):
            return p + '.py', False
        return None

    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        pp = self._path(name)
        if pp is None:
            raise ModuleNotFoundError(name)
        if '.' in name:
            self.load(name.rpartition('.')[0])
            if name in self.modules:
                return self.modules[name]
        path, ispkg = pp
        src = open(path).read()
        self.sources[name] = src
        tree = ast.parse(src, path)
        tree = ast.fix_missing_locations(_Comp().visit(tree))
        code = compile(tree, path, 'exec')
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name if ispkg else name.rpartition('.')[0]
        bi = dict(vars(builtins))
        bi.update(__import__=self._import, range=sym_range, int=SInt, float=SFloat, min=smin, max=smax, len=slen, list=slist,
                  sum=ssum, abs=lambda x: fj.jabs(x) if isinstance(x, A) else abs(x), round=sround)
        m.__dict__['__builtins__'] = bi
        m.__dict__['__vp_comp__'] = sym_comp
        self.modules[name] = m
        if '.' in name:
            par = self.load(name.rpartition('.')[0])
            setattr(par, name.rpartition('.')[2], m)
        exec(code, m.__dict__)
        for k, v in self.overrides.items():
            mod, _, attr = k.rpartition(':')
            if mod == name:
                setattr(m, attr, v.wrap(getattr(m, attr)) if hasattr(v, 'wrap') else v)
        return m
