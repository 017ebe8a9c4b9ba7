"""Discharging obligations: polynomial normal forms + congruence + case splitting, with z3 deciding conditions.

prove_eq(a, b, hyps) returns True only when the equality of the two terms follows from the hypotheses by
  * the normal forms of norm.py,
  * congruence of uninterpreted functions and binders,
  * exhaustive case splitting on conditions (each branch condition refuted or assumed; infeasible branches are
    recognised by z3),
  * clearing of denominators,
  * z3 (linear/nonlinear arithmetic over the abstraction of the remaining atoms).
"""
import time
import itertools
import z3
from fractions import Fraction
from .terms import *
from .terms import const as C, _node
from . import norm as N
from .norm import norm, simp, to_term, Poly, padd, pscale, pmul, pconst, is_ind
from . import ctx as _ctx
from .ctx import CTX, Unsupported
from .evalnum import Limit

STATS = {'z3_calls': 0, 'z3_time': 0.0, 'z3_sat': 0, 'z3_unsat': 0, 'z3_unknown': 0, 'eq_goals': 0}
Z3_TIMEOUT = 3000


class Z3Enc:
    def __init__(self):
        self.memo = {}
        self.side = []
        self.names = {}
        self.floors = []

    def enc(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self._enc(t)
            self.memo[t] = r
        return r

    def num(self, t):
        e = self.enc(t)
        if z3.is_bool(e):
            return z3.If(e, z3.IntVal(1), z3.IntVal(0))
        return e

    def app(self, t):
        args = []
        for a in t.args[1:]:
            if not isinstance(a, T):
                return None
            if a.op == 'lam':
                args.append(z3.IntVal(a.id))
            elif a.sort == 'K':
                args.append(z3.IntVal(a.id))
            else:
                args.append(self.num(a))
        rs = {'I': z3.IntSort(), 'R': z3.RealSort(), 'B': z3.BoolSort()}.get(t.sort)
        if rs is None:
            return None
        sig = ''.join('i' if z3.is_int(x) else 'r' for x in args)
        if not args:
            return None
        f = z3.Function(f'{t.args[0]}/{sig}/{t.sort}', *[x.sort() for x in args], rs)
        return f(*args)

    def atom(self, t):
        nm = f'a{t.id}'
        if t.op == 'fn' and (t.args[0][:2] in ('x_', 'n_', 'b_', 'W:', 'U:') or t.args[0] == 'L'):
            v = self.app(t)
            if v is not None:
                self.axioms(t, v)
                return v
        if t.sort == 'I':
            v = z3.Int(nm)
        elif t.sort == 'B':
            v = z3.Bool(nm)
        else:
            v = z3.Real(nm)
        self.axioms(t, v)
        return v

    def axioms(self, t, v):
        if t.op == 'fn':
            n = t.args[0]
            if n == 'exp' or n in N.POSITIVE:
                self.side.append(v > 0)
            elif n in N.NONNEG:
                self.side.append(v >= 0)
            elif n.startswith(('D:', 'W:')):
                kind = n.split(':')[1]
                if kind == 'uniform':
                    self.side.append(v >= 0)
                    self.side.append(v < 1)
                elif kind in ('cat', 'randint', 'perm'):
                    hi = self.num(t.args[2] if n.startswith('D:') else t.args[1])
                    self.side.append(v >= 0)
                    self.side.append(v < hi)
            elif n in ('Max', 'Min') and isinstance(t.args[1], T) and t.args[1].op == 'lam':
                pass
            elif n == 'argext':
                pass
            elif n == 'floor':
                x = self.num(t.args[1])
                if z3.is_int(x):
                    x = z3.ToReal(x)
                self.side.append(z3.ToReal(v) <= x)
                self.side.append(x < z3.ToReal(v) + 1)
            elif n == 'inv' or n.startswith('ix:'):
                pass
            elif n == 'ss':   # searchsorted on an array of length args[1]
                self.side.append(v >= 0)
                self.side.append(v <= self.num(t.args[1]))
            elif n in INTRANGE:
                lo, hi = INTRANGE[n]
                if lo is not None:
                    self.side.append(v >= self.num(lo))
                if hi is not None:
                    self.side.append(v < self.num(hi))

    def _enc(self, t):
        op = t.op
        if op == 'c':
            v = cval(t)
            if isinstance(v, bool):
                return z3.BoolVal(v)
            if isinstance(v, int):
                return z3.IntVal(v)
            if isinstance(v, Fraction):
                return z3.RealVal(str(v))
            return self.atom(t)
        if op == 'v':
            if t.args[0] == 'pi':
                v = z3.Real('pi')
                self.side.append(z3.And(v > z3.RealVal('3.14159265'), v < z3.RealVal('3.14159266')))
                return v
            return {'I': z3.Int, 'R': z3.Real, 'B': z3.Bool, 'K': z3.Int}[t.sort](t.args[0])
        if op == 'add':
            return z3.Sum([self.num(a) for a in t.args])
        if op == 'mul':
            return z3.Product([self.num(a) for a in t.args])
        if op == 'toreal':
            x = self.num(t.args[0])
            return z3.ToReal(x) if z3.is_int(x) else x
        if op == 'div':
            a, b = self.num(t.args[0]), self.num(t.args[1])
            a = z3.ToReal(a) if z3.is_int(a) else a
            b = z3.ToReal(b) if z3.is_int(b) else b
            return a / b
        if op == 'pow':
            b, e = t.args
            ev = cval(e)
            if isinstance(ev, int):
                x = self.num(b)
                if 0 < ev <= 6:
                    r = x
                    for _ in range(ev - 1):
                        r = r * x
                    return r
                if -6 <= ev < 0:
                    if z3.is_int(x):
                        x = z3.ToReal(x)
                    r = x
                    for _ in range(-ev - 1):
                        r = r * x
                    return 1 / r
            v = self.atom(t)
            if isinstance(ev, Fraction) and ev.denominator == 2:
                x = self.num(b)
                if z3.is_int(x):
                    x = z3.ToReal(x)
                if ev == Fraction(1, 2):
                    self.side.append(z3.Implies(x >= 0, z3.And(v >= 0, v * v == x)))
                    self.side.append(z3.Implies(x > 0, v > 0))
            return v
        if op == 'ite':
            if t.sort == 'K':
                return self.atom_key(t)
            return z3.If(self.enc(t.args[0]), self.num(t.args[1]), self.num(t.args[2]))
        if op in ('lt', 'le', 'eq'):
            if t.args[0].sort == 'K':
                return z3.Bool(f'a{t.id}')
            a, b = self.num(t.args[0]), self.num(t.args[1])
            return a < b if op == 'lt' else a <= b if op == 'le' else a == b
        if op == 'and':
            return z3.And([self.enc(a) for a in t.args])
        if op == 'or':
            return z3.Or([self.enc(a) for a in t.args])
        if op == 'not':
            return z3.Not(self.enc(t.args[0]))
        if op in ('idiv', 'mod'):
            a, b = self.num(t.args[0]), self.num(t.args[1])
            return a / b if op == 'idiv' else a % b
        if op == 'fn':
            if t.args[0] == 'I':
                return z3.If(self.enc(t.args[1]), z3.IntVal(1), z3.IntVal(0))
            if t.args[0] == 'P':
                return self.enc(t.args[1])
            return self.atom(t)
        if t.sort == 'K':
            return self.atom_key(t)
        raise Unsupported(f'z3 encoding of {op}')

    def atom_key(self, t):
        return z3.Int(f'k{t.id}')


INTRANGE = {}      # uninterpreted integer functions with a declared range [lo, hi)
FACTS = []         # callbacks: (set of atoms) -> list of boolean terms (instances of library axioms)


def _rename_sym(t):
    return t


SIMPLEX = set()    # names of weight vectors: 0 < w_i <= 1


def gather_facts(ts):
    out = []
    seen = set()
    atoms, exts = {}, []
    for t in ts:
        for s in subterms(t, under_binders=False, seen=seen):
            if s.op == 'fn':
                for f in FACTS:
                    out.extend(f(s))
                if s.args[0] in SIMPLEX:
                    out.append(le(s, ONE))
                if s.args[0] in ('Max', 'Min') and isinstance(s.args[1], T) and s.args[1].op == 'lam' and s.args[1].args[0] == 1:
                    exts.append(s)
                elif len(s.args) == 2:
                    atoms.setdefault(s.args[0], []).append(s)
    for e in exts:
        v = var('%probe', 'I')
        b = lam_open(e.args[1], [v])
        if b.op == 'fn' and len(b.args) == 2 and b.args[1] is v:
            n = e.args[1].args[1][0]
            for a in atoms.get(b.args[0], ()):
                rng = and_(le(ZERO, a.args[1]), lt(a.args[1], n))
                out.append(or_(not_(rng), le(a, e) if e.args[0] == 'Max' else le(e, a)))
            if b.args[0] in SIMPLEX:
                out.append(le(e, ONE))
    return out


def z3_check(fs, timeout=None):
    """satisfiability of a conjunction of boolean terms"""
    enc = Z3Enc()
    s = z3.Solver()
    s.set('timeout', timeout or Z3_TIMEOUT)
    fs = list(fs) + gather_facts(fs)
    for f in fs:
        s.add(enc.enc(f))
    for x in enc.side:
        s.add(x)
    t0 = time.time()
    r = s.check()
    STATS['z3_calls'] += 1
    STATS['z3_time'] += time.time() - t0
    STATS['z3_' + str(r)] = STATS.get('z3_' + str(r), 0) + 1
    return r, s, enc


def z3_entails(hyps, c, timeout=None):
    if not relevant(hyps, c) and c.op != 'c':
        pass
    r, _, _ = z3_check(list(hyps) + [not_(c)], timeout)
    return r == z3.unsat


def relevant(hyps, c):
    return True


def consistent(hyps):
    r, _, _ = z3_check(hyps)
    return r != z3.unsat


# ---------------------------------------------------------------------------
class Budget:
    def __init__(self, secs):
        self.end = time.time() + secs

    def ok(self):
        return time.time() < self.end


class Fail(Exception):
    pass


def prenex(t):
    """t = sum over the returned (variable, dimension) pairs of the returned body"""
    if t.op == 'fn' and t.args[0] == 'Sum':
        l = t.args[1]
        vs = [fresh('p') for _ in range(l.args[0])]
        b, body = prenex(lam_open(l, vs))
        return list(zip(vs, l.args[1])) + b, body
    if t.op == 'mul':
        hit = None
        for i, x in enumerate(t.args):
            b, body = prenex(x)
            if b:
                if hit is not None:
                    return [], t
                hit = (i, b, body)
        if hit is None:
            return [], t
        i, b, body = hit
        return b, mul(*t.args[:i], body, *t.args[i + 1:])
    if t.op == 'add' and len(t.args) == 1:
        return prenex(t.args[0])
    if t.op == 'div':
        b, body = prenex(t.args[0])
        return (b, div(body, t.args[1])) if b else ([], t)
    return [], t


class Prover:
    def __init__(self, hyps=(), budget=20, depth=8):
        self.hyps = list(hyps)
        self.budget = Budget(budget)
        self.trace = []
        self.residual = None
        self.maxdepth = depth
        self.merge_memo = {}

    # -- public
    def eq(self, a, b):
        STATS['eq_goals'] += 1
        if a is b:
            return True
        if a.sort == 'B' and b.sort == 'B':
            a, b = to_num(a), to_num(b)
            if a is b:
                return True
        if (a.sort == 'K') != (b.sort == 'K'):
            return False
        old = CTX.hyps
        CTX.hyps = old + self.hyps
        try:
            if a.sort == 'K':
                return self.eq_key(a, b)
            if self.pointwise(a, b):
                STATS['pointwise'] = STATS.get('pointwise', 0) + 1
                return True
            try:
                p = padd(norm(a), pscale(norm(b), -1))
            except Unsupported as e:
                self.trace.append(str(e))
                return False
            return self.zero(p, self.maxdepth)
        finally:
            CTX.hyps = old

    # -- equal sums, summand by summand
    def pointwise(self, a, b):
        va, ba = prenex(a)
        vb, bb = prenex(b)
        if not va or len(va) != len(vb) or len(va) > 5:
            return False
        save, t_end = self.residual, self.budget.end
        self.budget.end = min(t_end, time.time() + max(5., (t_end - time.time()) / 2))
        try:
            tried = 0
            for perm in itertools.permutations(range(len(va))):
                if any(v.args[0] in d.fv for v, _ in va + vb for _, d in va + vb):
                    return False
                if not all(norm(va[i][1]).d == norm(vb[p][1]).d for i, p in enumerate(perm)):
                    continue
                tried += 1
                if tried > 3:
                    return False
                old = CTX.hyps
                CTX.hyps = old + [h for v, d in va for h in (le(ZERO, v), lt(v, d))]
                try:
                    if self.cases(ba, subst(bb, {vb[p][0]: va[i][0] for i, p in enumerate(perm)}), 7):
                        return True
                finally:
                    CTX.hyps = old
            return False
        except (Limit, Unsupported):
            return False
        finally:
            self.residual, self.budget.end = save, t_end

    def cases(self, a, b, depth):
        """a = b, splitting on the conditions of the terms before normalising them"""
        if a is b:
            return True
        if not self.budget.ok():
            return False
        while True:
            c = None
            for t in (a, b):
                for s in subterms(t, under_binders=True):
                    if s.op == 'ite' or (s.op == 'fn' and s.args[0] == 'I'):
                        d = s.args[0] if s.op == 'ite' else s.args[1]
                        if d in (TRUE, FALSE) or any(n.startswith('%') for n in d.fv):
                            continue
                        if any(x.op in ('ite', 'lam') for x in subterms(d)):
                            continue
                        c = d
                        break
                if c is not None:
                    break
            if c is None:
                break
            v = True if _ctx.entails(c) else False if _ctx.entails(not_(c)) else None
            if v is None:
                break
            a, b = N.assume_in(a, c, v), N.assume_in(b, c, v)
        if c is None or depth == 0:
            return self.zero(padd(norm(a), pscale(norm(b), -1)), min(self.maxdepth, 4))
        old = CTX.hyps
        for v in (True, False):
            CTX.hyps = old + [c if v else not_(c)]
            try:
                if not consistent(CTX.all_hyps()):
                    continue
                x, y = N.assume_in(a, c, v), N.assume_in(b, c, v)
                if v:
                    x, y = self.apply_eq(x, c), self.apply_eq(y, c)
                if not self.cases(x, y, depth - 1):
                    return False
            finally:
                CTX.hyps = old
        return True

    def holds(self, c):
        """boolean goal"""
        old = CTX.hyps
        CTX.hyps = old + self.hyps
        try:
            if _ctx.entails(c):
                return True
            try:
                cc = simp(c)
            except Unsupported:
                return False
            if cc is TRUE or _ctx.entails(cc):
                return True
            p = padd(norm(cc), pconst(-1))
            return self.zero(p, self.maxdepth)
        finally:
            CTX.hyps = old

    def eq_key(self, a, b):
        a, b = N.canon_key(a), N.canon_key(b)
        return a is b or self.unify(a, b, 3)

    # -- core
    def zero(self, p, depth):
        if p.zero():
            return True
        if not self.budget.ok():
            self.trace.append('budget')
            return False
        p = self.decide_conds(p)
        if p.zero():
            return True
        p = self.clear(p)
        if p.zero():
            return True
        # congruence merging of atoms
        p2 = self.merge(p, depth)
        if p2 is not None:
            if p2.zero():
                return True
            p = p2
        if self.sum_merge(p, depth):
            return True
        # case split
        conds = self.split_candidates(p)
        if conds and depth > 0:
            c = conds[0]
            return self.split(p, c, depth)
        if self.z3_zero(p):
            return True
        if self.residual is None:
            self.residual = (to_term(p), list(CTX.hyps))
        return False

    def split(self, p, c, depth):
        t = to_term(p)
        old = CTX.hyps
        for val in (True, False):
            h = c if val else not_(c)
            CTX.hyps = old + [h]
            try:
                if not consistent(CTX.all_hyps()):
                    continue
                t1 = N.assume_in(t, c, val)
                if val:
                    t1 = self.apply_eq(t1, c)
                if not self.zero(norm(t1), depth - 1):
                    return False
            finally:
                CTX.hyps = old
        return True

    def apply_eq(self, t, c):
        """use an assumed equality v = e by substitution"""
        if c.op == 'and':
            for d in c.args:
                t = self.apply_eq(t, d)
            return t
        if c.op == 'eq':
            vs = [s for s in subterms(c) if s.op == 'v' and s.sort == 'I']
            for v in sorted(vs, key=lambda v: -v.id):
                s = N.solve_eq(c, v)
                if s is not None and v.args[0] not in s.fv:
                    return subst(t, {v: s})
        return t

    def decide_conds(self, p):
        for _ in range(40):
            t = to_term(p)
            ch = False
            bound_names = None
            conds = []
            for s in subterms(t, under_binders=True):
                if is_ind(s):
                    c = s.args[1]
                    if any(n.startswith('%') for n in c.fv):
                        continue
                    conds.append(c)
            for c in conds:
                v = None
                if _ctx.entails(c):
                    v = True
                elif _ctx.entails(not_(c)):
                    v = False
                if v is not None:
                    p = norm(N.assume_in(t, c, v))
                    ch = True
                    break
            if not ch:
                return p
        return p

    def clear(self, p):
        for _ in range(20):
            tgt = None
            for m in p.d:
                for a, e in m:
                    if e < 0 and a.op == 'fn' and a.args[0] == 'P':
                        lo = min(dict(mm).get(a, Fraction(0)) for mm in p.d)
                        tgt = (a, lo)
                        break
                if tgt:
                    break
            if tgt is None:
                return p
            a, lo = tgt
            r = Poly({})
            up = Fraction(-lo)
            for m, c in p.d.items():
                md = dict(m)
                md[a] = md.get(a, Fraction(0)) + up
                if md[a] == 0:
                    del md[a]
                mm = tuple(sorted(md.items(), key=lambda q: q[0].id))
                q = N.expandP(mm) if md.get(a, 0) >= 1 else Poly({mm: Fraction(1)})
                r = padd(r, pscale(q, c))
            p = r
            if p.zero():
                return p
        return p

    def atoms(self, p):
        out = []
        for m in p.d:
            for a, e in m:
                if a not in out:
                    out.append(a)
        return out

    def merge(self, p, depth):
        ats = [a for a in self.atoms(p) if a.op == 'fn' or a.op in ('idiv', 'mod', 'pow')]
        changed = False
        groups = {}
        for a in ats:
            key = (a.op, a.args[0] if a.op == 'fn' else None, len(a.args))
            groups.setdefault(key, []).append(a)
        sub_ = {}
        for key, g in groups.items():
            if key[1] in ('P',) and False:
                continue
            reps = []
            for a in sorted(g, key=lambda x: x.id):
                for r in reps:
                    if self.congruent(r, a, depth):
                        sub_[a] = r
                        break
                else:
                    reps.append(a)
        if not sub_:
            return None
        d = Poly({})
        for m, c in p.d.items():
            mm = {}
            for a, e in m:
                b = sub_.get(a, a)
                mm[b] = mm.get(b, Fraction(0)) + e
                if is_ind(b):
                    mm[b] = Fraction(1)
            m2 = tuple(sorted([(a, e) for a, e in mm.items() if e != 0], key=lambda q: q[0].id))
            q = N.expandP(m2) if any(a.op == 'fn' and a.args[0] == 'P' and e >= 1 for a, e in m2) else Poly({m2: Fraction(1)})
            d = padd(d, pscale(q, c))
        return d

    def congruent(self, a, b, depth):
        key = (a, b, CTX.hkey())
        if key in self.merge_memo:
            return self.merge_memo[key]
        self.merge_memo[key] = False
        r = self._congruent(a, b, depth)
        self.merge_memo[key] = r
        return r

    def _congruent(self, a, b, depth):
        if depth <= 0 or not self.budget.ok():
            return False
        if a.op != b.op or len(a.args) != len(b.args):
            return False
        i0 = 0
        if a.op == 'fn':
            if a.args[0] != b.args[0]:
                return False
            i0 = 1
            if a.args[0] == 'I':
                # equivalence of conditions
                x, y = a.args[1], b.args[1]
                if _ctx.entails(and_(or_(not_(x), y), or_(not_(y), x))):
                    return True
                return x.op == y.op and self.unify(x, y, depth - 1)
        return all(self.unify(x, y, depth - 1) for x, y in zip(a.args[i0:], b.args[i0:]))

    def unify(self, x, y, depth):
        """prove x == y (any sort)"""
        if x is y:
            return True
        if not isinstance(x, T) or not isinstance(y, T):
            return x == y
        if x.sort != y.sort and {x.sort, y.sort} != {'I', 'R'}:
            return False
        if depth <= 0 or not self.budget.ok():
            return False
        if x.op == 'lam' and y.op == 'lam':
            return self.eq_lam(x, y, depth)
        if x.sort == 'K':
            if x.op == y.op and x.op in ('child', 'chain'):
                return all(self.unify(p, q, depth) for p, q in zip(x.args, y.args))
            if x.op == 'ite' and y.op == 'ite':
                return all(self.unify(p, q, depth) for p, q in zip(x.args, y.args))
            return False
        if x.sort == 'B':
            x, y = to_num(x), to_num(y)
        # quick disequality filter: different constants
        p = padd(norm(x), pscale(norm(y), -1))
        if p.zero():
            return True
        c = p.const()
        if c is not None:
            return False
        if x.sort == 'I' and y.sort == 'I' and not any(a.op == 'fn' for m in p.d for a, _ in m):
            return bool(_ctx.entails(eq(x, y)))
        save = self.residual
        r = self.zero(p, depth - 1)
        self.residual = save
        return r

    def eq_lam(self, x, y, depth):
        n, dx, bx = x.args
        m, dy, by = y.args
        if n != m:
            return False
        perms = [tuple(range(n))] if n == 1 else list(itertools.permutations(range(n)))
        for perm in perms[:1]:
            vs = [fresh('e') for _ in range(n)]
            if not all(self.unify(dx[i], dy[i], depth - 1) for i in range(n)):
                continue
            b1, b2 = lam_open(x, vs), lam_open(y, vs)
            hy = [le(ZERO, v) for v in vs] + [lt(v, d) for v, d in zip(vs, dx)]
            old = CTX.hyps
            CTX.hyps = old + hy
            try:
                if self.unify(b1, b2, depth):
                    return True
            finally:
                CTX.hyps = old
        return False

    def sum_merge(self, p, depth):
        """p = sum_j coef_j * Sum_i body_j(i) (+ rest): combine sums over equal ranges and prove the body zero."""
        groups = {}
        rest = []
        for m, c in p.d.items():
            s = [a for a, e in m if a.op == 'fn' and a.args[0] == 'Sum' and e == 1]
            if len(s) != 1 or s[0].args[1].args[0] != 1:
                rest.append((m, c))
                continue
            groups.setdefault(s[0].args[1].args[1][0], []).append((m, c, s[0]))
        if rest or len(groups) != 1 or depth <= 1:
            # try: rest must vanish separately
            if not groups:
                return False
            if len(groups) + (1 if rest else 0) == 1:
                pass
            else:
                if rest and not self.zero_quiet(Poly(dict(rest)), depth - 2):
                    return False
        for d, g in groups.items():
            if len(g) < 2:
                return False
            v = fresh('e')
            total = Poly({})
            for m, c, s in g:
                others = tuple(x for x in m if x[0] is not s)
                total = padd(total, pscale(pmul(Poly({others: Fraction(1)}), norm(lam_open(s.args[1], [v]))), c))
            old = CTX.hyps
            CTX.hyps = old + [le(ZERO, v), lt(v, d)]
            try:
                if not self.zero_quiet(total, depth - 1):
                    return False
            finally:
                CTX.hyps = old
        return True

    def zero_quiet(self, p, depth):
        save = self.residual
        r = self.zero(p, depth)
        self.residual = save
        return r

    def split_candidates(self, p):
        out = []
        t = to_term(p)
        for s in subterms(t, under_binders=True):
            if is_ind(s):
                c = s.args[1]
                if any(n.startswith('%') for n in c.fv):
                    continue
                if c not in out:
                    out.append(c)
            elif s.op == 'ite':
                c = s.args[0]
                if any(n.startswith('%') for n in c.fv):
                    continue
                if c not in out:
                    out.append(c)
        # prefer equalities and small conditions
        out.sort(key=lambda c: (any(s.op == 'fn' for s in subterms(c)), 0 if c.op == 'eq' else 1, len(c.fv), c.id))
        return out

    def z3_zero(self, p):
        t = to_term(p)
        if any(a.op == 'fn' and a.args[0] in ('Sum',) for a in self.atoms(p)) and len(p.d) < 2:
            pass
        try:
            return z3_entails(CTX.all_hyps(), eq(t, ZERO))
        except Unsupported:
            return False
        except z3.Z3Exception as e:
            self.trace.append(f'z3: {e}')
            return False


# ---- library axiom instances used by z3 -------------------------------------
def _max_facts(t):
    return []


FACTS.append(_max_facts)
