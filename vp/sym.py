"""Symbolic side of a case: sizes, inputs and draws are logical symbols; obligations are proved."""
import itertools
import time
import traceback
import random as pyrandom
from fractions import Fraction
from .terms import *
from .terms import const as C, _node
from .ctx import CTX, Unsupported, ShapeError, explore, entails
from . import norm as N
from . import prover as P
from . import fakejax as fj
from . import terms as T_
from . import match as M
from .sarray import A, asarray, dim_t, dim_out, dim_eq, Sum, SymList
from . import evalnum
from .evalnum import Ev, Limit
from .loader import Library
from .match import key_path as key_path_of


class Refuted(Exception):
    pass


def _inrange(i, n):
    return [le(ZERO, i), lt(i, n)]


def _gen_simplex(nm, dims):
    def f(ev, vals):
        n = int(ev(dims[0]))
        k = (nm, n)
        if k not in ev.mm:
            x = [0.05 + evalnum.h01(nm, i, ev.seed) for i in range(n)]
            ev.mm[k] = [v / sum(x) for v in x]
        i = int(vals[0])
        return ev.mm[k][i] if 0 <= i < n else 0.1
    return f


class UF:
    """A user-supplied function: any function of its arguments (and of its key's randomness)."""

    def __init__(self, name, out, kind, key):
        self.name, self.out, self.kind, self.keyed = name, out, kind, key
        self.vp_uf = None
        self.__name__ = name

    def enc(self, args, kw):
        out = []
        items = list(args) + [kw[k] for k in sorted(kw)]
        for a in items:
            for x in fj.tree_flatten(a)[0]:
                if isinstance(x, str):
                    out.append(C(int.from_bytes(x.encode(), 'little')))
                    continue
                x = asarray(x)
                if x.dims == ():
                    out.append(to_num(x.fn(())))
                else:
                    vs = [fresh('s') for _ in x.dims]
                    with fj.hyps([h for v, d in zip(vs, x.dims) for h in _inrange(v, d)]):
                        out.append(lam(vs, x.dims, x.num(tuple(vs))))
        return out

    def dims(self, args, kw):
        o = self.out
        if callable(o):
            o = o(*args, **kw)
        if not isinstance(o, (tuple, list)):
            o = (o,)
        return tuple(dim_t(d) for d in o)

    def __call__(self, *args, **kw):
        sort = {'f': 'R', 'i': 'I', 'b': 'B'}[self.kind]
        if self.keyed:
            key, args = args[0], args[1:]
            d = self.dims(args, kw)
            return fj.draw('U=' + self.name, key, d, tuple(self.enc(args, kw)), sort, self.kind)
        d = self.dims(args, kw)
        e = self.enc(args, kw)
        return A(d, lambda i: fn('U:' + self.name, *e, *i, sort=sort), self.kind)


class X:
    """Namespace in which contracts are written (symbolic)."""
    sym = True

    def __init__(self, S):
        self.S = S
        self.jnp = fj.jnp_proxy
        self.nn = fj.nn
        self.jax = fj.jax
        self.np = fj.jnp_proxy

    logsumexp = staticmethod(fj.logsumexp)

    def uf(self, f):
        return f

    def _ctx(self, ctx):
        return [asarray(c).term() for c in ctx]

    def _k(self, name, ctx):
        t = skey(name, *self._ctx(ctx))
        return A((), lambda _: t, 'K')

    def key(self, name, *ctx):
        return self._k(name, ctx)

    def normal(self, name, shape, *ctx):
        return fj.draw('normal', self._k(name, ctx), fj.shape_of(shape))

    def uniform(self, name, shape, *ctx):
        return fj.draw('uniform', self._k(name, ctx), fj.shape_of(shape))

    def rand(self, kind, name, shape, *ctx):
        return fj.draw(kind, self._k(name, ctx), fj.shape_of(shape))

    def randint(self, name, n, shape, *ctx):
        return fj.randint(self._k(name, ctx), shape, 0, n)

    def cat(self, name, p, shape, *ctx):
        n, L = fj._cat_params(p)
        return fj.draw('cat', self._k(name, ctx), fj.shape_of(shape), (n, L), 'I', 'i')

    def perm(self, name, n, m, *ctx):
        r = fj.draw('perm', self._k(name, ctx), (dim_t(n),), (), 'I', 'i')
        return r if m is None else r[:m]

    def rec(self, n, init, step):
        il, idf = fj.tree_flatten(init)
        n = dim_t(n)

        def body(kA, st):
            out = step(kA, fj.tree_unflatten(idf, st))
            ol, odf = fj.tree_flatten(out)
            if not fj.same_tree(odf, idf):
                raise TypeError('contract recursion changes structure')
            return ol, []
        lp, state, _ = fj.make_loop(n, il, body)
        return fj.tree_unflatten(idf, [A((add(n, ONE),) + cp['dims'], lambda i, c=c: state(c, i[0], i[1:]), cp['kind'])
                                       for c, cp in enumerate(lp.comps)])

    def map(self, n, f):
        return fj.vmap(f)(fj.arange(dim_out(dim_t(n))))

    def where(self, *a):
        return fj.jwhere(*a)

    def sum(self, n, f):
        n = dim_t(n)
        return A((), lambda _: Sum(n, lambda i: asarray(f(A((), lambda _: i, 'i'))).term()), 'f')

    def build(self, shape, f):
        """array whose element idx is f(*idx)"""
        dims = fj.shape_of(shape)
        vs = [fresh('v') for _ in dims]
        with fj.hyps([h for v, d in zip(vs, dims) for h in _inrange(v, d)]):
            e = asarray(f(*[A((), lambda _, v=v: v, 'i') for v in vs]))
            t = e.fn(())
        return A(dims, lambda i: subst(t, dict(zip(vs, i))), e.kind)

    def asarray(self, x):
        return asarray(x)

    def eq(self, a, b):
        return asarray(a) == b

    def le(self, a, b):
        return asarray(a) <= b

    def grad(self, f, argnums=0):
        return fj.grad(f, argnums)

    def vmap(self, f, **k):
        return fj.vmap(f, **k)


class S:
    sym = True

    def __init__(self, root):
        self.root = root
        self.jnp = fj.jnp_proxy
        self.jax = fj.jax
        self.nn = fj.nn
        self.callees = {}
        self.obls = []
        self.sizes = []
        self.names = set()
        self.assumptions = []

    # -- inputs
    def size(self, name, lo=1, hi=None):
        v = var(name, 'I')
        CTX.hyps = CTX.hyps + [le(C(lo), v)] + ([le(v, C(hi))] if hi is not None else [])
        self.sizes.append((name, lo, hi))
        return dim_out(v)

    def dim(self, f, *a):
        return f(*a)

    def assume(self, c):
        CTX.hyps = CTX.hyps + [asarray(c).term()]

    def array(self, name, shape, gen='normal'):
        dims = fj.shape_of(shape)
        nm = 'x_' + name
        if gen in ('pos', 'simplex', 'unitpos', 'times+'):
            N.POSITIVE.add(nm)
        if gen in ('nonneg', 'unit', 'weights'):
            N.NONNEG.add(nm)
        if gen in ('times', 'timesrev'):
            # strictly monotone grid: t_0 + partial sums of positive increments
            N.POSITIVE.add(nm + ':dt')
            t0 = fn(nm + ':0')
            sg = C(1) if gen == 'times' else C(-1)
            return A(dims, lambda i: add(t0, mul(sg, Sum(i[0], lambda j: fn(nm + ':dt', j)))), 'f')
        if gen == 'simplex':
            v = fresh('s')
            p = N.norm(fn('Sum', lam((v,), dims, fn(nm, v))))
            (mono, c), = p.d.items()
            (a, e), = mono
            N.SUMFACTS[a] = N.pconst(1)
            P.SIMPLEX.add(nm)
            evalnum.GEN[nm] = _gen_simplex(nm, dims)
            N.reset()
        return A(dims, lambda i: fn(nm, *i), 'f')

    def pdmat(self, name, n):
        """symmetric positive definite matrix"""
        nm = 'x_' + name
        evalnum.GEN[nm] = lambda ev, v: (math.exp(-0.3 * (v[0] - v[1]) ** 2) + 0.5 * (v[0] == v[1])) * (0.6 + evalnum.h01(nm, v[0], ev.seed)) * \
            (0.6 + evalnum.h01(nm, v[1], ev.seed))
        # symmetric by construction
        T_.SYMMETRIC.add(nm)
        return A((dim_t(n), dim_t(n)), lambda i: fn(nm, i[0], i[1]), 'f', ('pd',))

    def index(self, name, n):
        v = var(name, 'I')
        CTX.hyps = CTX.hyps + _inrange(v, dim_t(n))
        return A((), lambda _: v, 'i')

    def indexarr(self, name, shape, n, lo=0):
        nm = 'n_' + name
        P.INTRANGE[nm] = (C(lo), dim_t(n))
        return A(fj.shape_of(shape), lambda i: fn(nm, *i, sort='I'), 'i')

    def partition(self, name, p, q):
        """two index arrays of p and q entries that together list 0, ..., p + q - 1 exactly once"""
        dp, dq = dim_t(p), dim_t(q)
        u, o = 'pt_' + name, 'pt_' + name + "'"
        for a, b, d, first in ((u, o, dp, True), (o, u, dq, False)):
            P.INTRANGE[a] = (ZERO, add(dp, dq))
            N.PARTITION[a] = (b, first, d)

            def gen(ev, v, first=first):
                i, n = int(ev(dp)), int(ev(dp)) + int(ev(dq))
                perm = list(range(n))
                pyrandom.Random(hash((name, n, i, ev.seed)) & 0xffff).shuffle(perm)
                k = int(v[0]) + (0 if first else i)
                return perm[k] if 0 <= k < n else 0
            evalnum.GEN[a] = gen
        return (A((dp,), lambda i: fn(u, i[0], sort='I'), 'i'), A((dq,), lambda i: fn(o, i[0], sort='I'), 'i'))

    def boolarr(self, name, shape):
        nm = 'b_' + name
        return A(fj.shape_of(shape), lambda i: fn(nm, *i, sort='B'), 'b')

    def real(self, name, gen='normal', lo=None, hi=None):
        v = var(name, 'R')
        h = []
        if gen == 'pos':
            h.append(lt(ZERO, v))
        if gen == 'unit':
            h += [lt(ZERO, v), lt(v, ONE)]
        if lo is not None:
            h.append(le(C(Fraction(str(lo))), v))
        if hi is not None:
            h.append(le(v, C(Fraction(str(hi)))))
        CTX.hyps = CTX.hyps + h
        return A((), lambda _: v, 'f')

    symbolic = True

    def callee(self, path, impl):
        """within this case the function at path is replaced by its contract"""
        self.callees[path] = impl

    def block(self, path, out):
        """within this case the network block at path is replaced by its contract: an unspecified function of its options, its
        parameters and one sample of each input, of the output shape out(block, input) ; returns the block, for the specification"""
        b = Block(path.rpartition(':')[2], out)
        self.callees[path] = b
        return b

    def len(self, x):
        from .loader import slen
        return slen(x)

    def variables(self, name, build, examples):
        """unspecified parameters of a network; f(L) gives them (concretely: perturbed initial parameters of build(L))"""
        from .fakeflax import Tok
        return lambda L=None: {'params': Tok(name)}

    def param(self, p, name, shape):
        """a parameter array among the unspecified parameters p"""
        nm = 'P:' + p[name].path
        return A(tuple(dim_t(d) for d in shape), lambda i: fn(nm, *i), 'f')

    def file(self, name, data):
        """path of a file that holds the arrays"""
        fj.FILES['/' + name] = data
        return '/' + name

    @property
    def linen(self):
        from . import fakeflax
        return fakeflax.linen

    def flag(self, name):
        v = var(name, 'B')
        return A((), lambda _: v, 'b')

    def key(self, name='key'):
        t = rootkey(name)
        return A((), lambda _: t, 'K')

    def func(self, name, out=(), kind='f', pos=False, key=False, bounds=None):
        if pos:
            N.POSITIVE.add('U:' + name)
        if kind == 'i' and bounds:
            P.INTRANGE['U:' + name] = (dim_t(bounds[0]), dim_t(bounds[1]))
        kind = 'f' if kind == 'logw' else kind
        return UF(name, out, kind, key)

    # -- obligations
    def same(self, name, code, spec, **kw):
        self.obls.append(('same', name, code, spec, kw))

    def ensure(self, name, code, post, **kw):
        self.obls.append(('ensure', name, code, post, kw))

    def lemma(self, name, spec, **kw):
        self.obls.append(('lemma', name, None, spec, kw))

    def keys(self, name, code):
        self.obls.append(('keys', name, code, None, {}))

    def raises(self, name, code, exc):
        self.obls.append(('raises', name, code, exc, {}))


class Block:
    def __init__(self, name, out):
        self.name, self.out, self.cls = name, out, None

    def wrap(self, orig):
        from . import fakeflax
        name, out = self.name, self.out
        if not (isinstance(orig, type) and issubclass(orig, fakeflax.Module)):
            raise Unsupported(f'{name} is not a network module')

        def call(self, *xs):
            xs = [asarray(x) for x in xs]
            opts = '|'.join(str(getattr(self, k, None)) for k, _ in self.__vp_fields__)
            return fakeflax.uf_layer('block:' + name + ':' + opts, xs, 1, tuple(dim_t(d) for d in out(self, *[x.shape[1:] for x in xs])),
                                     [self.param('*', lambda *a: A((ONE,), lambda i: C(Fraction(0)), 'f'))])
        self.cls = type(name, (orig,), {'__call__': call})
        return self.cls

    def __call__(self, *a, **k):
        return self.cls(*a, **k)


class L:
    def __init__(self, lib):
        self.lib = lib

    def __call__(self, name):
        m, _, attr = name.partition(':')
        r = self.lib.load(m)
        for a in attr.split('.') if attr else ():
            r = getattr(r, a)
        return r


# ---------------------------------------------------------------------------------
def leaf_terms(x, idx):
    return x.fn(idx)


class Goal:
    """equalities between code and contract outputs on one path"""

    def __init__(self, name, hyps):
        self.name, self.hyps = name, hyps
        self.eqs = []       # (label, idx vars, idx dims, code term, spec term)


def canon_loops(fams, ts, done):
    """canonicalise the loops reachable from ts in place"""
    todo = list(ts)
    vis = set()
    while todo:
        t = todo.pop()
        for s in subterms(t, seen=vis):
            if fj.is_L(s):
                lid = fj.loop_parts(s)[0]
                if lid in done:
                    continue
                done.add(lid)
                for cp in fj.LOOPS[lid].comps:
                    for f in ('init', 'step'):
                        cp[f] = fams.canon(cp[f])
                        todo.append(cp[f])


class CaseRun:
    def __init__(self, case, root='/repo', budget=60, verbose=False):
        self.case, self.root, self.budget, self.verbose = case, root, budget, verbose
        self.results = []
        self.t_end = time.time() + budget

    def log(self, *a):
        if self.verbose:
            print('   ', *a, flush=True)

    def res(self, name, status, detail='', backend='', t=0.0, **kw):
        self.results.append(dict(name=name, status=status, detail=detail, backend=backend, time=round(t, 3), **kw))
        self.log(f'[{status}] {name} {detail[:400] if status != "proved" else ""}')

    def run(self):
        N.reset()
        N.POSITIVE.clear(), N.NONNEG.clear(), N.SUMFACTS.clear(), P.SIMPLEX.clear(), evalnum.GEN.clear(), P.INTRANGE.clear(), fj.LOOPS.clear(), fj.FILES.clear()
        CTX.hyps, CTX.pc = [], []
        lib = Library(self.root)
        self.L = L(lib)
        self.lib = lib
        try:
            self.S = S(self.root)
            self.case.f(self.S)
            lib.overrides.update(self.S.callees)
        except Unsupported as e:
            self.res('setup', 'unsupported', f'{e}')
            return self.results
        self.base = list(CTX.hyps)
        if not P.consistent(self.base):
            self.res('vacuity', 'vacuous', 'the assumptions of the case are contradictory')
            return self.results
        obls = []
        keyed = {o[2] for o in self.S.obls if o[0] == 'keys'}
        for o in self.S.obls:
            obls.append(o)
            if o[0] == 'same' and o[2] not in keyed:
                obls.append(('keys', o[1] + '/keys', o[2], None, dict(auto=True)))
        for kind, name, code, spec, kw in obls:
            t0 = time.time()
            CTX.hyps, CTX.pc = list(self.base), []
            try:
                getattr(self, 'do_' + kind)(name, code, spec, kw)
            except Unsupported as e:
                self.res(name, 'unsupported', f'{type(e).__name__}: {e}', t=time.time() - t0)
                if self.verbose:
                    traceback.print_exc()
            except Refuted as e:
                self.res(name, 'refuted', str(e), t=time.time() - t0)
            except (RecursionError, Limit, MemoryError) as e:
                self.res(name, 'unknown', f'{type(e).__name__}', t=time.time() - t0)
            except Exception as e:
                self.res(name, 'error', traceback.format_exc()[-1500:], t=time.time() - t0)
        return self.results

    # -- helpers
    def paths(self, code):
        ps = explore(lambda: code(self.L))
        if self.verbose:
            for p in ps:
                if p.exc is not None:
                    print(p.exc.vp_tb[-1500:])
        return ps

    def leaves(self, out):
        return [asarray(x) for x in fj.tree_flatten(out)[0]]

    def extract(self, arrs, tag):
        out = []
        for q, a in enumerate(arrs):
            idx = tuple(fresh('o') for _ in a.dims)
            hs = [h for i, d in zip(idx, a.dims) for h in _inrange(i, d)]
            with fj.hyps(hs):
                t = a.fn(idx)
            out.append((idx, a.dims, t, hs))
        return out

    def do_same(self, name, code, spec, kw):
        t0 = time.time()
        ps = self.paths(code)
        if not ps:
            raise Unsupported('no feasible path')
        for k, p in enumerate(ps):
            nm = name if len(ps) == 1 else f'{name}#path{k}'
            t1 = time.time()
            if p.exc is not None:
                raise Refuted(f'{nm}: raises {type(p.exc).__name__}: {p.exc} (at {p.exc.vp_tb.strip().splitlines()[-3:]})')
            CTX.hyps, CTX.pc = self.base + p.pc, []
            N.reset()
            co = self.leaves(p.result)
            so = self.leaves(spec(X(self.S)))
            if len(co) != len(so):
                raise Refuted(f'{nm}: {len(co)} outputs, contract has {len(so)}')
            for q, (a, b) in enumerate(zip(co, so)):
                if a.ndim != b.ndim or not all(dim_eq(x, y) for x, y in zip(a.dims, b.dims)):
                    if a.ndim == b.ndim and all(entails(not_(eq(x, y))) is not True and entails(eq(x, y)) is not True for x, y in zip(a.dims, b.dims) if not dim_eq(x, y)):
                        raise Unsupported(f'{nm}: output {q} shape {a.dims} vs {b.dims} undecided')
                    raise Refuted(f'{nm}: output {q} has shape {tuple(map(pretty, a.dims))}, contract {tuple(map(pretty, b.dims))}')
            ce, se = self.extract(co, 'c'), self.extract(so, 's')
            cf, sf = M.Fams('code'), M.Fams('spec')
            cts = [cf.canon(t) for _, _, t, _ in ce]
            sts = []
            for (ci, _, _, _), (si, _, t, _) in zip(ce, se):
                sts.append(sf.canon(subst(t, dict(zip(si, ci)))))
            done = set()
            # code loops are those reachable from the code terms
            canon_loops(cf, cts, done)
            canon_loops(sf, sts, done)
            hyps = [h for _, _, _, h in ce]
            g = Equal(self, nm, ce, cts, sts, hyps, cf, sf)
            g.run()
            self.log(f'{nm}: {time.time() - t1:.2f}s')

    def do_ensure(self, name, code, post, kw):
        for k, p in enumerate(self.paths(code)):
            nm = name if k == 0 else f'{name}#path{k}'
            t0 = time.time()
            if p.exc is not None:
                raise Refuted(f'{nm}: raises {type(p.exc).__name__}: {p.exc}')
            CTX.hyps, CTX.pc = self.base + p.pc, []
            N.reset()
            self.bools(nm, post(X(self.S), p.result), t0)

    def do_lemma(self, name, code, spec, kw):
        t0 = time.time()
        r = spec(X(self.S))
        if isinstance(r, tuple) and len(r) == 2:
            a, b = [self.leaves(x) for x in r]
            if len(a) != len(b):
                raise Refuted(f'{name}: structure')
            ce, se = self.extract(a, 'c'), self.extract(b, 's')
            sf = M.Fams('spec')
            cts = [sf.canon(t) for _, _, t, _ in ce]
            sts = [sf.canon(subst(t, dict(zip(si, ci)))) for (ci, _, _, _), (si, _, t, _) in zip(ce, se)]
            canon_loops(sf, cts + sts, set())
            Equal(self, name, ce, cts, sts, [h for *_, h in ce], None, sf).run()
        else:
            self.bools(name, r, t0)

    def bools(self, name, r, t0):
        f = M.Fams('code')
        for q, (idx, dims, t, hs) in enumerate(self.extract(self.leaves(r), 'c')):
            nm = name if q == 0 else f'{name}[{q}]'
            t = f.canon(t)
            canon_loops(f, [t], set())
            CTX.hyps = CTX.hyps + hs
            pr = P.Prover([], budget=min(25, max(2, self.t_end - time.time())))
            ok = pr.holds(t)
            if not ok:
                dl = min(time.time() + 30, self.t_end + 20)
                for g in (t.args if t.op == 'and' else (t,)):
                    x, y = g.args if g.op == 'eq' else (to_num(g), ONE)
                    ok, why = prove_eq(x, y, CTX.hyps, deadline=dl)
                    if not ok:
                        break
            CTX.hyps = CTX.hyps[:len(CTX.hyps) - len(hs)]
            if ok:
                self.res(nm, 'proved', backend='norm+z3', t=time.time() - t0)
                continue
            bad = self.numeric_bool(idx, dims, t)
            if bad:
                self.res(nm, 'refuted', f'false at {bad}: {pretty(t)[:300]}', t=time.time() - t0)
            else:
                self.res(nm, 'unknown', f'{why} :: {pretty(t)[:600]}', t=time.time() - t0)

    def do_keys(self, name, code, spec, kw):
        """every draw of the code consumes a key of its own: pairwise disjoint derivation paths, injective in the loops"""
        t0 = time.time()
        import sys as _sys

        def site():
            f = _sys._getframe(2)
            out = []
            while f is not None:
                fn_ = f.f_code.co_filename
                if fn_.startswith(self.root):
                    out.append((fn_[len(self.root):], f.f_lineno, f.f_code.co_name, f.f_lasti))
                f = f.f_back
            return tuple(out)
        base = set(id(h) for h in self.base)
        for q, p in enumerate(self.key_log(code, site)):
            log, exc, pc = p
            if exc is not None:
                raise Refuted(f'{name}: raises {type(exc).__name__}: {exc}')
            CTX.hyps, CTX.pc = self.base + pc, []
            bad = None
            sites = {}
            for kind, key, hyps, st in log:
                sites[st, kind] = (key, hyps)          # loops are executed several times: keep the last
            items = []
            for (st, kind), (key, hyps) in sites.items():
                hs = [h for h in hyps if id(h) not in base]
                bind = sorted({v for h in hs for v in h.fv if '!' in v})
                ren1 = {var(v, 'I'): fresh('p') for v in bind}
                ren2 = {var(v, 'I'): fresh('q') for v in bind}
                root, els = key_path_of(key)
                mp = lambda e, r: tuple(tuple(subst(y, r) for y in x) if isinstance(x, tuple) else (subst(x, r) if isinstance(x, T) else x) for x in e)
                items.append((kind, st, root, [mp(e, ren1) for e in els], [subst(h, ren1) for h in hs],
                              [mp(e, ren2) for e in els], [subst(h, ren2) for h in hs], [(ren1[var(v, 'I')], ren2[var(v, 'I')]) for v in bind]))
            if kw.get('auto') and not items:
                continue
            for a, x in enumerate(items):
                for b, y in enumerate(items[:a + 1]):
                    if a == b:
                        if not x[7]:
                            continue
                        ne = [not_(eq(u, v)) for u, v in x[7]]
                        # the vector of enclosing indices differs in some component
                        hy = self.base + pc + x[4] + x[6] + [or_(*ne)]
                        r = paths_conflict(x[3], x[5], hy)
                    elif x[2] is not y[2]:
                        if x[2].op == 'v' and y[2].op == 'v':
                            continue
                        r = f'keys with roots {pretty(x[2])} and {pretty(y[2])}'
                    else:
                        r = paths_conflict(x[3], y[5], self.base + pc + x[4] + y[6])
                    if r:
                        bad = f'{r}: {x[0]} at {x[1][:1]} and {y[0]} at {y[1][:1]}'
                        break
                if bad:
                    break
            nm = name if q == 0 else f'{name}#path{q}'
            if bad:
                self.res(nm, 'unknown', bad, t=time.time() - t0)
            else:
                self.res(nm, 'proved', backend='key paths + z3', t=time.time() - t0)

    def key_log(self, code, site):
        out = []

        def run():
            log = []
            old = CTX.draw_hook
            CTX.draw_hook = lambda kind, k, params, dims: log.append((kind, k, list(CTX.hyps) + list(CTX.pc), site()))
            try:
                r = code(self.L)
                for x in self.leaves(r):
                    pass
            finally:
                CTX.draw_hook = old
            return log
        for p in explore(run):
            out.append((p.result if p.exc is None else [], p.exc, p.pc))
        return out

    def do_raises(self, name, code, exc, kw):
        for p in self.paths(code):
            if p.exc is None or not isinstance(p.exc, exc):
                raise Refuted(f'{name}: expected {exc}, got {p.exc!r}')
        self.res(name, 'proved', backend='symbolic execution')

    # -- numeric points
    def points(self, hyps, n=3, extra=1):
        """small concrete sizes (and seeds) satisfying the hypotheses"""
        rnd = pyrandom.Random(7)
        fv = set()
        for h in hyps:
            fv |= h.fv
        out = []
        for s, lo, hi in self.S.sizes:
            fv.add(s)
        sizes = {s: (lo, hi) for s, lo, hi in self.S.sizes}
        for att in range(400):
            env = {}
            for v in sorted(fv):
                if v in sizes:
                    lo, hi = sizes[v]
                    env[v] = min(lo + rnd.choice([0, 1, 1, 2, 2, 3]), hi if hi is not None else 10 ** 9)
            seed = att
            # remaining integer / boolean / real variables
            for v in sorted(fv - set(env)):
                t = [x for h in hyps for x in subterms(h) if x.op == 'v' and x.args[0] == v]
                if not t:
                    continue
                if t[0].sort == 'I':
                    env[v] = rnd.randint(0, 3)
                elif t[0].sort == 'B':
                    env[v] = rnd.random() < 0.5
                elif t[0].sort == 'R':
                    env[v] = rnd.uniform(0.05, 1.5)
            ev = Ev(env, seed)
            try:
                ok = all(self.hyp_ok(ev, h, env) for h in hyps)
            except Unsupported:
                ok = False
            if ok:
                out.append(ev)
                if len(out) >= n:
                    break
        return out

    def hyp_ok(self, ev, h, env):
        # definitional hypotheses about function symbols (e.g. simplex) are imposed by the generators
        if h.op == 'eq' and any(s.op == 'fn' and s.args[0] == 'Sum' for s in subterms(h)):
            return True
        return bool(ev(h))

    def numeric_bool(self, idx, dims, t):
        n = 0
        for ev in self.points(CTX.hyps, 4):
            for env in self.idx_points(ev, idx, dims, 6):
                try:
                    v = ev(t, env)
                except (Unsupported, Limit):
                    return None
                n += 1
                if not v:
                    return {**{k: v for k, v in ev.env0.items()}, **env}
        return None

    def idx_points(self, ev, idx, dims, n):
        ds = [int(ev(d)) for d in dims]
        if any(d <= 0 for d in ds):
            return []
        allp = list(itertools.product(*[range(d) for d in ds])) if len(ds) < 4 else None
        rnd = pyrandom.Random(3)
        if allp is not None and len(allp) <= n:
            ps = allp
        else:
            ps = [tuple(rnd.randrange(d) for d in ds) for _ in range(n - 1)] + [tuple(d - 1 for d in ds)]
        return [{v.args[0]: i for v, i in zip(idx, p)} for p in ps]


import math


def close(a, b):
    a, b = float(a), float(b)
    if a == b:
        return True
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    if math.isinf(a) or math.isinf(b):
        return False
    return abs(a - b) <= 1e-8 + 1e-7 * max(abs(a), abs(b))


class LoopInv:
    """invariant: the component equals a component of a contract recursion"""

    def __init__(self, sid, d, perm):
        self.sid, self.d, self.perm = sid, d, perm

    def at(self, k, co, sort):
        co = [co[p] for p in self.perm]
        nc = len(fj.LOOPS[self.sid].ctx)
        return fj.loop_state(self.sid, self.d, k, tuple(co[:nc]), tuple(co[nc:]), sort)

    def goal(self, part, k, co):
        co = [co[p] for p in self.perm]
        sp = fj.LOOPS[self.sid]
        sc = sp.comps[self.d]
        sub_ = dict(zip(list(sp.ctx) + list(sc['idx']), co))
        sub_[sp.k] = k
        return subst(sc[part], sub_)

    def __repr__(self):
        return f'loop{self.sid}.{self.d}{self.perm}'


class ExprInv:
    """invariant: the component equals an expression in the step index and the coordinates"""

    def __init__(self, F, kv, co):
        self.F, self.kv, self.co = F, kv, co

    def at(self, k, co, sort):
        return subst(self.F, {self.kv: k, **dict(zip(self.co, co))})

    def goal(self, part, k, co):
        return self.at(ZERO if part == 'init' else add(k, ONE), co, None)

    def __repr__(self):
        return f'expr {pretty(self.F, 6)[:300]}'


class Equal:
    def __init__(self, run, name, ce, cts, sts, hyps, cf, sf):
        self.run_, self.name, self.ce, self.cts, self.sts, self.hs, self.cf, self.sf = run, name, ce, cts, sts, hyps, cf, sf
        self.ren = None
        self.lmap = {}

    def log(self, *a):
        self.run_.log(*a)

    def used(self, ts, fams):
        """families occurring in the terms or the loops they reach"""
        if fams is None:
            return []
        nm = set()
        todo, vis, lo = list(ts), set(), set()
        while todo:
            t = todo.pop()
            for s in subterms(t, seen=vis):
                if s.op == 'fn' and isinstance(s.args[0], str):
                    if s.args[0].startswith('W:'):
                        nm.add(s.args[0].split(':')[2])
                    elif s.args[0] == 'L':
                        lid, c, *_ = fj.loop_parts(s)
                        if (lid, c) not in lo:
                            lo.add((lid, c))
                            cp = fj.LOOPS[lid].comps[c]
                            todo += [cp['init'], cp['step']]
        return [fams.list[n] for n in sorted(nm) if n in fams.list]

    def agree(self, m, evs, fine=False):
        """do code and contract agree at the sample points under the draw map m? -> (bool, counterexample)"""
        inform = 0
        for ev in evs:
            ev.rename = m
            for (idx, dims, _, _), c, s in zip(self.ce, self.cts, self.sts):
                for env in self.run_.idx_points(ev, idx, dims, 5 if fine else 3):
                    try:
                        a, b = ev(c, env), ev(s, env)
                    except Limit:
                        continue
                    if isinstance(a, float) and math.isnan(a) and isinstance(b, float) and math.isnan(b):
                        continue
                    inform += 1
                    if not close(a, b):
                        return False, dict(point={**{k: v for k, v in ev.env0.items() if '!' not in k}}, index=list(env.values()),
                                           code=float(a), contract=float(b))
        return (True if inform else None), None

    def run(self):
        t0 = time.time()
        r = self.run_
        hyps = CTX.hyps
        # trivial?
        cfs, sfs = self.used(self.cts, self.cf), self.used(self.sts, self.sf)
        self.log('code families', cfs, 'spec families', sfs)
        evs = r.points(hyps, 3)
        if not evs:
            self.log('no sample points')
        best = None
        cx = None
        if self.cf is None:
            ok, cx = self.agree({}, evs, True)
            best = {} if ok is not False else None
        else:
            tlim = time.time() + 20
            for m in M.assignments(cfs, sfs):
                for ev in evs:
                    ev.memo.clear()
                ok, c = self.agree(m, evs)
                if ok is not False:
                    best = m
                    break
                if cx is None:
                    cx = c
                if time.time() > tlim:
                    break
        if best is None:
            r.res(self.name, 'refuted', f'no correspondence of draws makes code and contract agree: {cx}' if cx else
                  f'draw families differ: code {cfs}, contract {sfs}', t=time.time() - t0, exact=self.cf is None or (not cfs and not sfs))
            return
        self.log('map', best)
        self.best = best
        ren = M.Rename(best)
        # coverage: every contract family used must be hit
        self.evs = evs
        cts = [ren(t) for t in self.cts]
        # loops
        lm = self.match_loops(cts, ren)
        for lid, c in lm:
            self.prove_loop(lid, c, lm, ren)
        conv = self.converter(lm, ren)
        for q, ((idx, dims, _, hs), c, s) in enumerate(zip(self.ce, cts, self.sts)):
            t1 = time.time()
            nm = self.name if len(cts) == 1 else f'{self.name}[{q}]'
            c = conv(c)
            ok, why = prove_eq(c, s, hyps + hs, deadline=min(time.time() + 30, r.t_end + 20))
            if ok:
                r.res(nm, 'proved', backend='norm+z3', t=time.time() - t1)
            else:
                r.res(nm, 'unknown', why, t=time.time() - t1)

    # -- loops
    def match_loops(self, cts, ren):
        look = lambda lid, c: (fj.LOOPS[lid].comps[c]['init'], fj.LOOPS[lid].comps[c]['step'])
        cl = M.loop_closure(cts, look)
        sl = M.loop_closure(self.sts, look)
        if not cl:
            return {}
        out = {}
        both = set(cl) & set(sl)
        cl = [x for x in cl if x not in both]
        tr = {}
        evs = self.evs[:2]

        def traj(lid, c, ev, m):
            key = (lid, c, id(ev))
            lp = fj.LOOPS[lid]
            cp = lp.comps[c]
            m_, r_ = len(lp.ctx), len(cp['idx'])
            out = {}
            rng = [range(2)] * m_ + [range(2)] * r_
            for co in itertools.product(*rng):
                for k in (0, 1, 2, 3):
                    e = dict(ev.env0)
                    e.update({v.args[0]: x for v, x in zip(lp.ctx, co[:m_])})
                    e.update({v.args[0]: x for v, x in zip(cp['idx'], co[m_:])})
                    if k == 0:
                        v = ev.ev(cp['init'], e)
                    elif k > max(1, int(ev.ev(lp.n, e))):
                        continue
                    else:
                        e[lp.k.args[0]] = k - 1
                        v = ev.ev(cp['step'], e)
                    out[co + (k,)] = v
            return out

        strj = {}
        for lid, c in cl:
            lp = fj.LOOPS[lid]
            cp = lp.comps[c]
            if cp['kind'] == 'K':
                continue
            nco = len(lp.ctx) + len(cp['idx'])
            try:
                ct = [traj(lid, c, ev, None) for ev in evs]
            except (Limit, Unsupported) as e:
                self.log('traj', e)
                continue
            for sid, d in sorted(sl, key=lambda x: (0 if x[1] == c else 1, x)):
                sp = fj.LOOPS[sid]
                sc = sp.comps[d]
                if len(sp.ctx) + len(sc['idx']) != nco or sc['kind'] != cp['kind']:
                    continue
                if (sid, d) not in strj:
                    strj[sid, d] = [traj(sid, d, ev, None) for ev in evs]
                st = strj[sid, d]
                hit = None
                for perm in itertools.permutations(range(nco)):
                    # contract coordinate j = code coordinate perm[j]
                    if all(len(a) == len(b) for a, b in zip(ct, st)) and all(
                            (w := b.get(tuple(co[p] for p in perm) + (co[-1],))) is not None and close(v, w)
                            for a, b in zip(ct, st) for co, v in a.items()):
                        hit = perm
                        break
                if hit is not None:
                    out[lid, c] = LoopInv(sid, d, hit)
                    break
            else:
                hit = self.expr_inv(lid, c, nco, ct, evs)
                if hit is not None:
                    out[lid, c] = hit
                    continue
                self.log('no contract recursion for loop', lid, c, 'kind', cp['kind'], pretty(cp['step'], 6)[:300])
        self.log('loops', out)
        return out

    def expr_inv(self, lid, c, nco, ct, evs):
        """a state of the code's loop as an expression over the contract's outputs, or a closed form"""
        lp = fj.LOOPS[lid]
        cp = lp.comps[c]
        co = tuple(fresh('e') for _ in range(nco))
        kv = fresh('e')
        cands = []
        isnum = cp['kind'] != 'b'
        coord = dict(zip(list(lp.ctx) + list(cp['idx']), co))
        ini = subst(cp['init'], coord)
        cands.append(ini)
        if isnum:
            d = subst(subst(cp['step'], {lp.k: ZERO}), coord)
            one = self.unroll0(d, lid)
            if one is not None:
                cands.append(add(ini, mul(kv, sub(one, ini))))
            if cp['kind'] == 'i':
                cands.append(add(ini, kv))
        for (idx, dims, _, _), t in zip(self.ce, self.sts):
            if len(idx) == nco + 1:
                for tp in range(len(idx)):
                    rest = [j for j in range(len(idx)) if j != tp]
                    for tau in (kv, sub(sub(dims[tp], ONE), kv), add(kv, ONE), sub(sub(dims[tp], C(2)), kv)):
                        for perm in itertools.permutations(range(nco)):
                            cands.append(subst(t, {idx[tp]: tau, **{idx[j]: co[p] for j, p in zip(rest, perm)}}))
            elif len(idx) == nco:
                for perm in itertools.permutations(range(nco)):
                    cands.append(subst(t, {idx[j]: co[p] for j, p in enumerate(perm)}))
        for F in cands:
            n = 0
            ok = True
            for a, ev in zip(ct, evs):
                try:
                    N_ = int(ev(lp.n))
                except (Limit, Unsupported, TypeError):
                    N_ = 1
                for cv, v in a.items():
                    if cv[-1] > N_:
                        continue
                    e = dict(ev.env0)
                    e.update({x.args[0]: y for x, y in zip(co, cv)})
                    e[kv.args[0]] = cv[-1]
                    try:
                        w = ev.ev(F, e)
                    except (Limit, Unsupported, ZeroDivisionError, IndexError):
                        ok = False
                        break
                    if not close(v, w):
                        ok = False
                        break
                    n += 1
                if not ok:
                    break
            if ok and n:
                return ExprInv(F, kv, co)
        return None

    def unroll0(self, d, lid):
        def f(t):
            if fj.is_L(t):
                l, c, ctx, k, idx = fj.loop_parts(t)
                if l == lid and N.simp(k) is ZERO:
                    return base(l, c, ctx, idx)
            return None
        return replace(d, f, {})

    def converter(self, lm, ren):
        memo = {}

        def f(t):
            if fj.is_L(t):
                lid, c, ctx, k, idx = fj.loop_parts(t)
                if (lid, c) in lm:
                    return lm[lid, c].at(k, list(ctx) + list(idx), t.sort)
            return None
        return lambda t: replace(t, f, memo)

    def prove_loop(self, lid, c, lm, ren):
        t0 = time.time()
        r = self.run_
        lp = fj.LOOPS[lid]
        cp = lp.comps[c]
        inv = lm[lid, c]
        conv = self.converter(lm, ren)
        hy = [h for h in lp.hyps if h not in CTX.hyps] + [h for i, n in zip(cp['idx'], cp['dims']) for h in _inrange(i, n)]
        for part in ('init', 'step'):
            a = conv(ren(cp[part]))
            b = inv.goal(part, lp.k, list(lp.ctx) + list(cp['idx']))
            h = CTX.hyps + hy + (_inrange(lp.k, lp.n) if part == 'step' else [])
            ok, why = prove_eq(a, b, h, deadline=min(time.time() + 30, r.t_end + 20))
            nm = f'{self.name}/invariant{lid}.{c}-{"base" if part == "init" else "step"}'
            if ok:
                r.res(nm, 'proved', backend='norm+z3', t=time.time() - t0)
            else:
                r.res(nm, 'unknown', why, t=time.time() - t0)


def paths_conflict(p, q, hyps):
    """could the two derivation paths be the same key, or one a prefix of the other (a key both consumed and split)?
    -> False, or the reason"""
    cond = list(hyps)
    p, q = list(p), list(q)

    def feasible(extra=()):
        r, _, _ = P.z3_check(cond + list(extra))
        return r != P.z3.unsat
    while p and q:
        a, b = p[0], q[0]
        if a[0] == 'c' and b[0] == 'c':
            if a[1] is not b[1] and not entails(eq(a[1], b[1])):
                return False
            cond.append(eq(a[2], b[2]))
            if not feasible():
                return False
            p.pop(0), q.pop(0)
            continue
        if a[0] == 'c':
            p, q = q, p
            a, b = b, a
        # a is a chain of m steps taking child c of n
        (n, c), m = a[1], a[2]
        nxt = p[1] if len(p) > 1 else None
        safe = lambda e: e is not None and e[0] == 'c' and e[1] is n and not feasible([eq(e[2], c)])
        if b[0] == 'h' and b[1] == a[1]:
            nq = q[1] if len(q) > 1 else None
            if safe(nxt) and safe(nq):
                cond.append(eq(m, b[2]))
                if not feasible():
                    return False
                p.pop(0), q.pop(0)
                continue
            return 'two positions of a key chain may coincide'
        if b[0] == 'c' and safe(nxt) and (safe(b) or b[1] is not n):
            cond.append(eq(m, ZERO))
            if not feasible():
                return False
            p.pop(0)
            continue
        return 'key chain against a direct child'
    if not feasible():
        return False
    return 'the same key is consumed twice' if not p and not q else 'a key is both consumed and split'


# ---- equality with unfolding of recursions -------------------------------------------
def kparts(k):
    p = N.norm(k)
    c = p.d.get((), Fraction(0))
    rest = tuple(sorted(((tuple((a.id, e) for a, e in m), v) for m, v in p.d.items() if m != ()), key=repr))
    return rest, c


def unfold(lid, c, ctx, k, idx):
    lp = fj.LOOPS[lid]
    cp = lp.comps[c]
    return subst(cp['step'], {lp.k: k, **dict(zip(lp.ctx, ctx)), **dict(zip(cp['idx'], idx))})


def base(lid, c, ctx, idx):
    lp = fj.LOOPS[lid]
    cp = lp.comps[c]
    return subst(cp['init'], {**dict(zip(lp.ctx, ctx)), **dict(zip(cp['idx'], idx))})


def unfold_pair(a, b):
    for _ in range(8):
        groups = {}
        for s in itertools.chain(subterms(a), subterms(b)):
            if fj.is_L(s):
                lid, c, ctx, k, idx = fj.loop_parts(s)
                if any(v.startswith('%') for v in k.fv):
                    continue
                rest, cst = kparts(k)
                groups.setdefault((lid, rest), set()).add(cst)
        todo = {}
        for (lid, rest), cs in groups.items():
            if rest == ():
                todo[lid, rest] = 0
            else:
                m = min(cs)
                if any(x > m for x in cs):
                    todo[lid, rest] = m
        changed = [False]

        def f(t):
            if not fj.is_L(t):
                return None
            lid, c, ctx, k, idx = fj.loop_parts(t)
            bound = any(v.startswith('b!') for v in k.fv)
            rest, cst = kparts(k)
            if rest == ():
                if cst <= 0:
                    changed[0] = True
                    return base(lid, c, ctx, idx)
                if cst <= 6:
                    changed[0] = True
                    return unfold(lid, c, ctx, C(int(cst) - 1), idx)
                return None
            if bound:
                if cst >= 1:
                    changed[0] = True
                    return unfold(lid, c, ctx, N.simp(sub(k, ONE)), idx)
                return None
            m = todo.get((lid, rest))
            if m is not None and cst > m and entails(le(ONE, k)):
                changed[0] = True
                return unfold(lid, c, ctx, N.simp(sub(k, ONE)), idx)
            return None
        a2, b2 = replace(a, f, {}), replace(b, f, {})
        if not changed[0]:
            return a, b
        a, b = a2, b2
    return a, b


def unfold_zero(t):
    """states whose index is provably zero"""
    def f(s):
        if fj.is_L(s):
            lid, c, ctx, k, idx = fj.loop_parts(s)
            if not any(v.startswith('b!') for v in k.fv) and entails(eq(k, ZERO)):
                return base(lid, c, ctx, idx)
        return None
    return replace(t, f, {})


def loop_indices(*ts):
    out = []
    for t in ts:
        for s in subterms(t):
            if s.op == 'fn' and s.args[0] == 'L':
                k = fj.loop_parts(s)[3]
                if k not in out and not any(v.startswith('b!') or v.startswith('%') for v in k.fv):
                    out.append(k)
    return out


def unfold_top(t):
    """one unfolding of the outermost recursion states whose step index is provably positive"""
    def f(s):
        if s.op == 'fn' and s.args[0] == 'L':
            lid, c, ctx, k, idx = fj.loop_parts(s)
            if not any(v.startswith('b!') or v.startswith('%') for v in k.fv) and entails(le(ONE, k)):
                return unfold(lid, c, ctx, N.simp(sub(k, ONE)), idx)
            return s
        return None
    return replace(t, f, {})


def split_conds(*ts):
    out = []
    for t in ts:
        for s in subterms(t, under_binders=False):
            if s.op == 'ite':
                c = s.args[0]
                if c not in out:
                    out.append(c)
    simple = [c for c in out if not any(s.op == 'fn' for s in subterms(c))]
    return simple


def finite_draw(a, b):
    """a draw of a constant number (at most 32) of equally likely values that both sides depend on"""
    f = lambda t: {x for x in subterms(t, under_binders=False) if x.op == 'fn' and x.args[0].startswith('W:randint:')
                   and isc(x.args[1]) and 2 < cval(x.args[1]) <= 32}
    both = f(a) & f(b)
    return min(both, key=lambda x: x.id) if both else None


def prove_eq(a, b, hyps, deadline, depth=4):
    old, oldpc = CTX.hyps, CTX.pc
    CTX.hyps, CTX.pc = list(hyps), []
    why = []
    try:
        def go(a, b, d, u=2):
            if a is b:
                return True
            if a.sort == 'K' or b.sort == 'K':
                return P.Prover([], budget=2).eq(a, b)
            a, b = unfold_zero(a), unfold_zero(b)
            a, b = unfold_pair(a, b)
            if a is b:
                return True
            cs = split_conds(a, b) if d > 0 else []
            # decide what is decided
            for c in cs:
                e = entails(c)
                v = True if e else (False if entails(not_(c)) else None)
                if v is not None:
                    a = N.assume_in(a, c, v) if c is not TRUE else a
                    b = N.assume_in(b, c, v)
                    return go(a, b, d, u)
            rem = max(1.0, deadline - time.time())
            pr = P.Prover([], budget=min(rem, 12 if cs else rem))
            try:
                if pr.eq(a, b):
                    return True
            except Unsupported as e:
                why.append(str(e))
            if cs and time.time() < deadline:
                c = cs[0]
                ok = True
                for v in (True, False):
                    keep = CTX.hyps
                    CTX.hyps = keep + [c if v else not_(c)]
                    try:
                        if not P.consistent(CTX.hyps):
                            continue
                        x, y = N.assume_in(a, c, v), N.assume_in(b, c, v)
                        if v:
                            x, y = pr.apply_eq(x, c), pr.apply_eq(y, c)
                        if not go(x, y, d - 1, u):
                            ok = False
                            break
                    finally:
                        CTX.hyps = keep
                if ok:
                    return True
            elif u and time.time() < deadline:
                x, y = unfold_top(a), unfold_top(b)
                if (x is not a or y is not b) and go(x, y, d, u - 1):
                    return True
                kk = next((k for k in loop_indices(a, b) if not entails(le(ONE, k)) and not entails(eq(k, ZERO))), None)
                if kk is not None:
                    ok = True
                    for h in (eq(kk, ZERO), le(ONE, kk)):
                        keep = CTX.hyps
                        CTX.hyps = keep + [h]
                        try:
                            if P.consistent(CTX.hyps):
                                x, y = unfold_zero(a), unfold_zero(b)
                                ok = go(unfold_top(x), unfold_top(y), d, u - 1)
                        finally:
                            CTX.hyps = keep
                        if not ok:
                            break
                    if ok:
                        return True
            if pr.residual is not None:
                why.append('residual ' + pretty(pr.residual[0], int(__import__("os").environ.get("VPD", 9)))[:int(__import__("os").environ.get("VPW", 700))])
            why.extend(pr.trace[-2:])
            return False
        def values(a, b):
            """one goal for every value of a draw with a constant range"""
            if a is not b and a.sort != 'K':
                x = finite_draw(a, b)
                if x is not None:
                    for v in range(cval(x.args[1])):
                        f = lambda t: C(v) if t is x else None
                        if not values(replace(a, f), replace(b, f)):
                            why.append(f'at value {v} of {x}')
                            return False
                    return True
            return go(a, b, depth)
        return values(a, b), '; '.join(why[-3:]) or 'not equal by the rules tried'
    finally:
        CTX.hyps, CTX.pc = old, oldpc
