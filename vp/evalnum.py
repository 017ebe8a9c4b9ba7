"""Floating-point evaluation of terms at small concrete sizes.

Used only (a) to choose between candidate correspondences before they are proved and (b) to refute an equality the prover
could not discharge.  It never accepts an obligation.
"""
import hashlib
import math
import sys
import numpy as np
from fractions import Fraction
from .terms import *
from .ctx import Unsupported
from . import norm as N

sys.setrecursionlimit(100000)
np.seterr(all='ignore')


class Limit(Exception):
    pass


def _h(*xs):
    return int.from_bytes(hashlib.blake2b(repr(xs).encode(), digest_size=8).digest(), 'little')


def h01(*xs):
    return (_h(*xs) + 0.5) / 2.0 ** 64


def hnormal(*xs):
    a, b = h01('a', *xs), h01('b', *xs)
    return math.sqrt(-2 * math.log(a)) * math.cos(2 * math.pi * b)


def mix(name, vals, seed):
    """A generic smooth function: sensitive to every argument."""
    s = 0.3 + h01(name, 'bias', seed)
    n = 0
    for v in vals:
        if isinstance(v, np.ndarray):
            for ix, x in np.ndenumerate(v):
                n += 1
                s += (0.4 + 0.8 * h01(name, n, seed)) * float(x)
        elif isinstance(v, tuple):
            s += h01(name, v, seed)
            n += 1
        else:
            n += 1
            s += (0.4 + 0.8 * h01(name, n, seed)) * float(v)
    return s


INTFUN = {}     # name -> (lo, hi) callables used for integer-valued inputs
GEN = {}        # name -> f(ev, args) specific generators of input values (e.g. simplex weights)


class Ev:
    def __init__(self, env, seed=0, limit=4_000_000):
        self.env0 = env
        self.seed = seed
        self.memo = {}
        self.fvs = {}
        self.n = 0
        self.limit = limit
        self.mm = {}
        self.rename = {}

    def __call__(self, t, env=None):
        return self.ev(t, self.env0 if env is None else {**self.env0, **env})

    def ev(self, t, env):
        fv = self.fvs.get(t)
        if fv is None:
            fv = self.fvs[t] = tuple(sorted(t.fv))
        key = (t, tuple([env.get(n) for n in fv]))
        r = self.memo.get(key)
        if r is None:
            self.n += 1
            if self.n > self.limit:
                raise Limit()
            r = self._ev(t, env)
            self.memo[key] = r
        return r

    def arr(self, l, env):
        n, dims, body = l.args
        ds = [max(0, int(self.ev(d, env))) for d in dims]
        if np.prod(ds, dtype=float) > 20000:
            raise Limit()
        out = np.zeros([max(0, d) for d in ds])
        vs = [f'%{l.h}_{i}' for i in range(n)]
        e = dict(env)
        for ix in np.ndindex(*ds):
            for v, i in zip(vs, ix):
                e[v] = i
            out[ix] = self.ev(body, e)
        return out

    def key(self, t, env):
        return self.ev(t, env)

    def _ev(self, t, env):
        op = t.op
        if op == 'c':
            v = cval(t)
            return v if isinstance(v, (bool, int)) else float(v)
        if op == 'v':
            if t.args[0] in env:
                return env[t.args[0]]
            if t.args[0] == 'pi':
                return math.pi
            if t.sort == 'K':
                return ('k', t.args[0])
            if t.sort == 'R':
                return 0.3 + h01('var', t.args[0], self.seed)
            raise Unsupported(f'unbound {t.args[0]}')
        if op == 'add':
            return sum(self.ev(a, env) for a in t.args)
        if op == 'mul':
            # indicators first: what they mask may be undefined
            r = 1
            for a in sorted(t.args, key=lambda a: not (a.op == 'fn' and a.args[0] == 'I')):
                v = self.ev(a, env)
                if v == 0 and a.op == 'fn' and a.args[0] == 'I':
                    return 0.0 if t.sort == 'R' else 0
                r = r * v
            return r
        if op == 'toreal':
            return float(self.ev(t.args[0], env))
        if op == 'div':
            a, b = self.ev(t.args[0], env), self.ev(t.args[1], env)
            return float(np.float64(a) / np.float64(b))
        if op == 'pow':
            a, e = self.ev(t.args[0], env), self.ev(t.args[1], env)
            if t.sort == 'I':
                return int(a) ** int(e)
            if a < 0 and e != int(e) and t.args[0].op == 'fn' and t.args[0].args[0] == 'P':
                # a power under a case distinction that the normal form has distributed: any total extension will do
                a = -a
            return float(np.float64(a) ** np.float64(e))
        if op == 'ite':
            return self.ev(t.args[1] if self.ev(t.args[0], env) else t.args[2], env)
        if op == 'lt':
            return bool(self.ev(t.args[0], env) < self.ev(t.args[1], env))
        if op == 'le':
            return bool(self.ev(t.args[0], env) <= self.ev(t.args[1], env))
        if op == 'eq':
            a, b = self.ev(t.args[0], env), self.ev(t.args[1], env)
            if isinstance(a, float) or isinstance(b, float):
                return bool(a == b or abs(a - b) <= 1e-9 + 1e-8 * max(abs(a), abs(b)))
            return bool(a == b)
        if op == 'and':
            return all(self.ev(a, env) for a in t.args)
        if op == 'or':
            return any(self.ev(a, env) for a in t.args)
        if op == 'not':
            return not self.ev(t.args[0], env)
        if op in ('idiv', 'mod'):
            a, b = self.ev(t.args[0], env), self.ev(t.args[1], env)
            if b == 0:
                return 0
            return a // b if op == 'idiv' else a % b
        if op == 'child':
            return ('c', self.ev(t.args[0], env), self.ev(t.args[1], env), self.ev(t.args[2], env))
        if op == 'chain':
            k, n, c, m = [self.ev(a, env) for a in t.args]
            for _ in range(int(m)):
                k = ('c', k, n, c)
            return k
        if op == 'fn':
            return self._fn(t, env)
        raise Unsupported(f'eval {op}')

    def _fn(self, t, env):
        name = t.args[0]
        a = t.args[1:]
        ev = lambda i: self.ev(a[i], env)
        if name == 'exp':
            x = ev(0)
            return math.exp(x) if x < 700 else math.inf
        if name == 'log':
            x = ev(0)
            return math.log(x) if x > 0 else (-math.inf if x == 0 else math.nan)
        if name in ('sin', 'cos', 'tanh', 'tan', 'erf', 'atan'):
            return getattr(math, name)(ev(0))
        if name == 'sigmoid':
            return 1 / (1 + math.exp(-ev(0)))
        if name == 'gelu':
            x = ev(0)
            return 0.5 * x * (1 + math.erf(x / math.sqrt(2)))
        if name == 'leaky_relu':
            x = ev(0)
            return x if x >= 0 else 0.01 * x
        if name == 'floor':
            x = ev(0)
            return math.floor(x) if math.isfinite(x) else 0
        if name == 'P':
            return ev(0)
        if name == 'I':
            return 1 if ev(0) else 0
        if name == 'Sum':
            return self.arr(a[0], env).sum() if t.sort == 'R' else int(round(self.arr(a[0], env).sum()))
        if name in ('Max', 'Min'):
            x = self.arr(a[0], env)
            if x.size == 0:
                return -math.inf
            return getattr(x, name.lower())()
        if name in ('argmax', 'argmin'):
            return int(getattr(np, name)(self.arr(a[0], env)))
        if name == 'sort':
            return float(np.sort(self.arr(a[0], env))[self._ix(ev(1))])
        if name == 'argsort':
            return int(np.argsort(self.arr(a[0], env), kind='stable')[self._ix(ev(1))])
        if name == 'setdiff':
            av, bv = self.arr(a[0], env), self.arr(a[1], env)
            vs = [int(x) for x in np.setdiff1d(av, bv)]
            n = ev(2)
            i = ev(3)
            return vs[i] if 0 <= i < len(vs) else 0
        if name == 'hit':
            return bool(np.any(self.arr(a[0], env) == ev(1)))
        if name == 'inv':
            w = np.nonzero(self.arr(a[0], env) == ev(1))[0]
            return int(w[-1]) if len(w) else 0
        if name == 'L':
            return self._loop(t, env)
        if name.startswith('M:'):
            return self._mat(name[2:].removesuffix('_s'), a, env)
        if name.startswith(('D:', 'W:')):
            return self._draw(t, env)
        if name.startswith('NN:'):      # the parameters of a layer: their names
            vals = [h01(x.args[2].args[0]) if x.op == 'lam' and x.args[2].op == 'fn' and x.args[2].args[0].startswith('P:') else
                    self.arr(x, env) if x.op == 'lam' else self.ev(x, env) for x in a]
        else:
            vals = [self.arr(x, env) if x.op == 'lam' else self.ev(x, env) for x in a]
        if name in GEN:
            return GEN[name](self, vals)
        return self.uf(name, vals, t.sort)

    def uf(self, name, vals, sort):
        if sort == 'I':
            from . import prover as P
            s = mix(name, vals, self.seed)
            if name in P.INTRANGE:
                lo, hi = P.INTRANGE[name]
                lo, hi = int(self(lo)), int(self(hi))
                return lo + int(math.floor(abs(s) * 7919)) % max(1, hi - lo)
            return int(math.floor(s * 7))
        if sort == 'B':
            return math.sin(3 * mix(name, vals, self.seed)) > 0
        if all(isinstance(v, (int, bool)) for v in vals):
            s = math.cos(2 * math.pi * h01(name, tuple(int(v) for v in vals), self.seed)) * 1.3 + 0.05
        else:
            s = math.sin(mix(name, vals, self.seed)) * 1.3 + 0.05
        if name in N.POSITIVE or name in N.NONNEG:
            return math.exp(0.5 * s)
        return s

    def _ix(self, i):
        return int(i)

    def _loop(self, t, env):
        from . import fakejax as fj
        lid, c, ctx, k, idx = fj.loop_parts(t)
        lp = fj.LOOPS[lid]
        cp = lp.comps[c]
        kv = int(self.ev(k, env))
        cv = [self.ev(x, env) for x in ctx]
        iv = [self.ev(x, env) for x in idx]
        e = dict(self.env0)
        for v, x in zip(lp.ctx, cv):
            e[v.args[0]] = x
        for v, x in zip(cp['idx'], iv):
            e[v.args[0]] = x
        if kv <= 0:
            return self.ev(cp['init'], e)
        e[lp.k.args[0]] = kv - 1
        return self.ev(cp['step'], e)

    def _mat(self, name, a, env):
        M = self.arr(a[0], env)
        idx = tuple(int(self.ev(x, env)) for x in a[1:])
        key = (name, M.tobytes(), M.shape)
        r = self.mm.get(key)
        if r is None:
            r = self.mm[key] = _matfun(name, M)
        return float(r[idx])

    def _draw(self, t, env):
        name = t.args[0]
        kind = name.split(':')[1]
        s = self.seed
        if name.startswith('D:'):
            rank = int(name.split(':')[2])
            args = t.args[1:]
            key = self.ev(args[0], env)
            rest = args[1:]
            idx = rest[len(rest) - rank:] if rank else ()
            dims = rest[len(rest) - 2 * rank:len(rest) - rank] if rank else ()
            params = rest[:len(rest) - 2 * rank]
            coords = tuple(int(self.ev(x, env)) for x in idx)
            ident = ('D', kind, key, coords)
            pident = ('D', kind, key)
            pn = [self.ev(d, env) for d in dims]
        else:
            _, _, fam, np_ = name.split(':')
            np_ = int(np_)
            params = t.args[1:1 + np_]
            co = t.args[1 + np_:]
            if fam in self.rename:
                fam, picks = self.rename[fam]
                coords = []
                for j, tau, n in picks:
                    v = int(self.ev(co[j], env))
                    coords.append(v if tau == 'id' else int(self.ev(n, self.env0)) - 1 - v if tau == 'rev' else v + tau)
                coords = tuple(coords)
            else:
                coords = tuple(int(self.ev(x, env)) for x in co)
            ident = ('W', kind, fam, coords)
            pident = ('W', kind, fam, coords[:-1])
            pn = [self.ev(params[0], env)] if kind == 'perm' else None
        if kind == 'normal':
            return hnormal(ident, s)
        if kind == 'uniform':
            return h01(ident, s)
        if kind == 'randint':
            n = max(1, int(self.ev(params[0], env)))
            return min(n - 1, int(h01(ident, s) * n))
        if kind == 'cat':
            p = self.arr(params[1], env)
            u = h01(ident, s)
            c = np.cumsum(p) / np.sum(p)
            return int(min(len(p) - 1, np.searchsorted(c, u, side='right')))
        if kind == 'perm':
            n = int(pn[0])
            rs = np.random.RandomState(_h(pident, s) % (2 ** 32))
            return int(rs.permutation(n)[coords[-1]])
        vals = [self.arr(x, env) if x.op == 'lam' else self.ev(x, env) for x in params]
        u = h01(ident, s)
        if kind.startswith('U='):
            return self.uf(kind, vals, t.sort) + 0.7 * hnormal(ident, s)
        return hnormal(ident, s)


def _matfun(name, M):
    import scipy.linalg as sl
    try:
        if name == 'inv':
            return np.linalg.inv(M)
        if name == 'expm':
            return sl.expm(M)
        if name == 'sqrtm':
            return np.real(sl.sqrtm(M))
        if name == 'chol':
            return np.linalg.cholesky(M)
        if name == 'det':
            return np.asarray(np.linalg.det(M))
        if name == 'sdet':
            return np.asarray(np.linalg.slogdet(M)[0])
        if name == 'logdet':
            return np.asarray(np.linalg.slogdet(M)[1])
        if name in ('eigval', 'eigvalp'):
            return np.linalg.eigh(M)[0]
        if name == 'eigvec':
            return np.linalg.eigh(M)[1]
    except np.linalg.LinAlgError:
        return np.full(M.shape, np.nan)
    raise Unsupported(name)
