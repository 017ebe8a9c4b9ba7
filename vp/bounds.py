"""Integer index arithmetic: prove p >= 0 by replacing bounded integer atoms (quotients, remainders, draws, indices) by their
bounds, according to the sign of their coefficient. Every replacement weakens the inequality, so the result implies p >= 0."""
from fractions import Fraction
from .terms import *
from .terms import const as C


def _split(p, a):
    """p = k * a + rest with a not occurring in k and rest, or None"""
    from . import norm as N
    k, rest = {}, {}
    for m, c in p.d.items():
        md = dict(m)
        e = md.pop(a, 0)
        if e == 0:
            if any(x is not a and isinstance(x, T) and a in subterms(x) for x in md if x.op != 'v'):
                return None
            rest[m] = c
        elif e == 1:
            k[tuple(sorted(md.items(), key=lambda t: t[0].id))] = c
        else:
            return None
    return N.Poly(k), N.Poly(rest)


def _exact(px, py):
    """px / py as an integer polynomial, for a monomial py"""
    from . import norm as N
    if len(py.d) != 1:
        r = N.ratio(px, py)
        return N.pconst(r) if r is not None and r.denominator == 1 else None
    (m, c), = py.d.items()
    q = N.pmul(px, N.Poly({tuple((a, -e) for a, e in m): 1 / Fraction(c)}))
    if all(e > 0 and e.denominator == 1 for mm in q.d for _, e in mm) and all(x.denominator == 1 for x in q.d.values()):
        return q
    return None


class Bounds:
    def __init__(self, hyps, final):
        from . import norm as N
        self.N, self.final = N, final
        self.lo, self.up = {}, {}
        self.hyps = hyps
        for h in hyps:
            self.add(h)
        self.busy = set()

    def add(self, h):
        if h.op == 'and':
            for x in h.args:
                self.add(x)
        elif h.op in ('lt', 'le') and h.args[0].sort == 'I' and h.args[1].sort == 'I':
            o = 1 if h.op == 'lt' else 0
            a, b = h.args
            if b.op == 'v':
                self.lo.setdefault(b, []).append((a, o))
            if a.op == 'v':
                self.up.setdefault(a, []).append((b, -o))

    def bounds(self, a):
        """(lower polynomials, upper polynomials) of an integer atom"""
        N = self.N
        los, ups = [], []
        for t, o in self.lo.get(a, ()):
            los.append(N.padd(N.norm(t), N.pconst(o)))
        for t, o in self.up.get(a, ()):
            ups.append(N.padd(N.norm(t), N.pconst(o)))
        if a.op == 'idiv':
            x, y = a.args
            py = N.norm(y)
            if self.nonneg(N.norm(x)):
                los.append(N.pconst(0))
            for t, o in self.lo.get(x, ()):
                t = N.padd(N.norm(t), N.pconst(o))
                if t.const() is not None and py.const() is not None and py.const() > 0:
                    los.append(N.pconst(t.const() // py.const()))
                else:
                    q = _exact(t, py)
                    if q is not None:
                        los.append(q)
            for t, o in self.up.get(x, ()):
                q = _exact(N.padd(N.norm(t), N.pconst(o + 1)), py)
                if q is not None:
                    ups.append(N.padd(q, N.pconst(-1)))
        if a.op == 'fn':
            from . import prover
            n = a.args[0]
            if n.startswith(('D:', 'W:')) and n.split(':')[1] in ('cat', 'randint', 'perm'):
                hi = a.args[2] if n.startswith('D:') else a.args[1]
                los.append(N.pconst(0))
                ups.append(N.padd(N.norm(hi), N.pconst(-1)))
            elif n in prover.INTRANGE:
                lo, hi = prover.INTRANGE[n]
                if lo is not None:
                    los.append(N.norm(lo))
                if hi is not None:
                    ups.append(N.padd(N.norm(hi), N.pconst(-1)))
        return los, ups

    def nonneg(self, p, depth=6):
        N = self.N
        c = p.const()
        if c is not None:
            return c >= 0
        key = (frozenset(p.d.items()), depth)
        if key in self.busy or depth == 0:
            return False
        self.busy.add(key)
        try:
            return self._nonneg(p, depth)
        finally:
            self.busy.discard(key)

    def _nonneg(self, p, depth):
        N = self.N
        p = self.remainders(p)
        atoms = sorted({a for m in p.d for a, _ in m}, key=lambda a: (a.op == 'v', -a.id))
        for a in atoms:
            if a.sort != 'I' or a.op == 'v' and a.args[0].startswith('rem!'):
                pass
            if a.op == 'v' and not (a in self.up):
                continue          # a size: handled at the end
            s = _split(p, a)
            if s is None:
                continue
            k, rest = s
            los, ups = self.bounds(a)
            if los and self.nonneg(k, depth - 1):
                cand = los
            elif ups and self.nonneg(N.pscale(k, -1), depth - 1):
                cand = ups
            else:
                continue
            for b in cand:
                if self.nonneg(N.padd(N.pmul(k, b), rest), depth - 1):
                    return True
        # sizes: shift by their lower bounds, all coefficients nonnegative
        q = p
        for a in {a for m in p.d for a, _ in m if a.op == 'v'}:
            lo = [N.norm(t).const() for t, o in self.lo.get(a, ()) if N.norm(t).const() is not None]
            os = [o for t, o in self.lo.get(a, ()) if N.norm(t).const() is not None]
            if lo:
                b = max(l + o for l, o in zip(lo, os))
                q = self.shift(q, a, b)
        if all(c >= 0 for c in q.d.values()) and all(self.lo.get(a) or self.pos(a) for m in q.d for a, e in m if e % 2):
            return all(all(e > 0 for _, e in m) for m in q.d)
        return self.final(p) if all(a.op == 'v' or a.op == 'fn' and a.args[0] == 'I' for m in p.d for a, _ in m) else False

    def pos(self, a):
        if a.sort != 'I':
            return self.N.atom_pos(a, False)
        if a.op == 'fn' and a.args[0] == 'I':
            return True
        return any(l.const() is not None and l.const() >= 0 for l in self.bounds(a)[0])

    def shift(self, p, a, b):
        N = self.N
        r = N.Poly({})
        ab = N.padd(N.patom(a), N.pconst(b))
        for m, c in p.d.items():
            md = dict(m)
            e = md.pop(a, 0)
            if e < 0 or Fraction(e).denominator != 1:
                return p
            q = N.Poly({tuple(sorted(md.items(), key=lambda t: t[0].id)): c})
            for _ in range(int(e)):
                q = N.pmul(q, ab)
            r = N.padd(r, q)
        return r

    def remainders(self, p):
        """x - y * (x // y) in p: write x = y * q + rem, 0 <= rem < y"""
        N = self.N
        for q in sorted({a for m in p.d for a, _ in m if a.op == 'idiv'}, key=lambda a: a.id):
            x, y = q.args
            if x.op != 'v':
                continue
            s = _split(N.Poly({m: c for m, c in p.d.items() if q not in dict(m)}), x)
            if s is None or s[0].zero():
                continue
            rem = var('rem!' + str(q.id), 'I')
            if rem not in self.up:
                self.lo[rem] = [(ZERO, 0)]
                self.up[rem] = [(y, -1)]
            xs = N.padd(N.pmul(N.norm(y), N.patom(q)), N.patom(rem))
            keep = N.Poly({m: c for m, c in p.d.items() if q in dict(m)})
            p = N.padd(keep, N.pmul(s[0], xs), s[1])
        return p


_active = set()


def entails(hyps, c):
    """c: an inequality between integers, or a conjunction / negation of such"""
    from . import norm as N, prover
    if c is TRUE:
        return True
    if c.op == 'and':
        return all(entails(hyps, x) for x in c.args)
    if c.op == 'not' and c.args[0].op in ('lt', 'le'):
        a, b = c.args[0].args
        c = lt(b, a) if c.args[0].op == 'le' else le(b, a)
    if c.op not in ('lt', 'le') or c.args[0].sort != 'I' or c.args[1].sort != 'I':
        return False

    it = next((x for x in subterms(c, under_binders=False) if x.op == 'ite' and x.sort == 'I'), None)
    if it is not None:
        q, x, y = it.args
        if entails(hyps, q):
            return entails(hyps, replace(c, lambda t: x if t is it else None))
        n = not_(q)
        if n.op in ('lt', 'le', 'and', 'not') and entails(hyps, n):
            return entails(hyps, replace(c, lambda t: y if t is it else None))
        return False
    if any(x.op in ('mod', 'idiv') for x in subterms(c, under_binders=False)):
        if c in _active:
            return False
        _active.add(c)
        try:
            f = lt if c.op == 'lt' else le
            d = f(N.simp(c.args[0]), N.simp(c.args[1]))
        finally:
            _active.discard(c)
        if d is not c:
            return entails(hyps, d)

    def final(p):
        return prover.z3_entails(hyps, le(ZERO, N.to_term(p)))
    p = N.norm(sub(c.args[1], c.args[0]))
    if c.op == 'lt':
        p = N.padd(p, N.pconst(-1))
    if not any(a.op in ('idiv', 'fn') for m in p.d for a, _ in m) and not any(len(m) > 1 for m in p.d):
        return False
    return Bounds(hyps, final).nonneg(p)
