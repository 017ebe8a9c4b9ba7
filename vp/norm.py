"""Normal forms: polynomials with rational exponents over hash-consed atoms.

Everything here is an equality of real arithmetic (exp/log/sqrt identities under the stated positivity), used in both
directions by the prover; nothing in this file looks at the source code under verification.
"""
from fractions import Fraction
import mpmath
from .terms import *
from .terms import const as C, _node
from . import ctx as _ctx
from .ctx import Unsupported

POSITIVE = set()      # names of uninterpreted functions declared > 0 (contract preconditions)
NONNEG = set()        # names declared >= 0
F0, F1 = Fraction(0), Fraction(1)
HALF = Fraction(1, 2)

_memo = {}
SUMFACTS = {}      # declared values of whole sums (e.g. normalised weights)


def reset():
    _memo.clear()
    _bmemo.clear()
    _pmemo.clear()
    _hmemo.clear()


class Poly:
    __slots__ = ('d',)

    def __init__(self, d):
        self.d = d

    def zero(self):
        return not self.d

    def const(self):
        if not self.d:
            return F0
        if len(self.d) == 1 and () in self.d:
            return self.d[()]
        return None


def pconst(c):
    return Poly({(): Fraction(c)} if c != 0 else {})


def patom(a, e=F1):
    return Poly({((a, e),): F1})


def padd(*ps):
    d = {}
    for p in ps:
        for m, c in p.d.items():
            c2 = d.get(m, 0) + c
            if c2 == 0:
                d.pop(m, None)
            else:
                d[m] = c2
    return Poly(d)


def pscale(p, k):
    if k == 0:
        return Poly({})
    return Poly({m: c * k for m, c in p.d.items()})


def is_ind(a):
    return a.op == 'fn' and a.args[0] == 'I'


def mmul(m1, m2):
    """-> (monomial, needs_P_expansion)"""
    if not m1 or not m2:
        m = m1 or m2
        return m, any(a.op == 'fn' and a.args[0] == 'P' and e >= 1 for a, e in m)
    d = dict(m1)
    for a, e in m2:
        if a in d:
            if is_ind(a):
                continue
            d[a] = d[a] + e
            if d[a] == 0:
                del d[a]
        else:
            d[a] = e
    m = tuple(sorted(d.items(), key=lambda t: t[0].id))
    return m, any(a.op == 'fn' and a.args[0] == 'P' and e >= 1 for a, e in m)


MAXTERMS = 4000


def pmul(p, q):
    d = {}
    if len(p.d) * len(q.d) > MAXTERMS * 4:
        raise Unsupported('polynomial too large')
    extra = []
    for m1, c1 in p.d.items():
        for m2, c2 in q.d.items():
            m, ex = mmul(m1, m2)
            if ex:
                extra.append((m, c1 * c2))
                continue
            c = d.get(m, 0) + c1 * c2
            if c == 0:
                d.pop(m, None)
            else:
                d[m] = c
    r = Poly(d)
    for m, c in extra:
        r = padd(r, pscale(expandP(m), c))
    if len(r.d) > MAXTERMS:
        raise Unsupported('polynomial too large')
    return r


def expandP(m):
    """expand integer parts of P-atoms with exponent >= 1"""
    rest = []
    ps = []
    for a, e in m:
        if a.op == 'fn' and a.args[0] == 'P' and e >= 1:
            k = e.__floor__()
            f = e - k
            if f:
                rest.append((a, f))
            ps.append((norm(a.args[1]), k))
        else:
            rest.append((a, e))
    r = Poly({tuple(rest): F1})
    for p, k in ps:
        for _ in range(k):
            r = pmul(r, p)
    return r


def pprod(*ps):
    r = pconst(1)
    for p in ps:
        r = pmul(r, p)
    return r


# ---- positivity ------------------------------------------------------------
_posfn = {'exp', 'sqrt', 'cosh'}


def atom_pos(a, strict=True):
    """syntactic positivity of an atom"""
    if a.op == 'fn':
        n = a.args[0]
        if n == 'exp':
            return True
        if n in POSITIVE or n == 'M:eigvalp':
            return True
        if n == 'M:chol' and a.args[2] is a.args[3]:
            return True
        if not strict and (n in NONNEG or n == 'I' or n.startswith(('D:uniform', 'W:uniform'))):
            return True
        if n == 'P':
            return poly_pos(norm(a.args[1]), strict)
        if n in ('Sum', 'Max', 'Min'):
            l = a.args[1]
            ndim, dims, body = l.args
            if strict and n == 'Sum' and not all(_dimpos(d) for d in dims):
                return False
            return poly_pos(norm(body), strict)
        if n == 'toreal':
            return atom_pos(a.args[1], strict)
        return hyp_pos(a, strict)
    if a.op == 'v':
        if a.args[0] == 'pi':
            return True
        return hyp_pos(a, strict)
    return False


def _dimpos(d):
    return _ctx.entails(le(ONE, d)) is True


def hyp_pos(a, strict):
    for h in _ctx.CTX.all_hyps():
        if h.op == 'lt' and h.args[1] is a and isc(h.args[0]) and cval(h.args[0]) >= 0:
            return True
        if h.op == 'le' and h.args[1] is a and isc(h.args[0]) and (cval(h.args[0]) > 0 or (not strict and cval(h.args[0]) >= 0)):
            return True
        if not strict and h.op == 'lt' and h.args[1] is a and isc(h.args[0]) and a.sort == 'I' and cval(h.args[0]) >= -1:
            return True
    if a.sort == 'I':
        return _ctx.entails(le(ONE if strict else ZERO, a)) is True
    return False


_pmemo = {}


def poly_pos(p, strict=True):
    key = (frozenset(p.d.items()), strict, _ctx.CTX.hkey())
    r = _pmemo.get(key)
    if r is None:
        _pmemo[key] = False
        r = _poly_pos(p, strict)
        _pmemo[key] = r
    return r


def _poly_pos(p, strict):
    if p.zero():
        return not strict
    somestrict = False
    allok = True
    for m, c in p.d.items():
        ok = c > 0
        st = True
        for a, e in m:
            if atom_pos(a, True):
                continue
            st = False
            if atom_pos(a, False) or (e.denominator == 1 and e.numerator % 2 == 0):
                continue
            ok = False
            break
        if not ok:
            allok = False
            break
        somestrict = somestrict or st
    if allok:
        return somestrict or not strict
    # explicit hypotheses:  t > 0 with t proportional to p
    t = to_term(p)
    return hyp_pos2(p, strict)


def hyp_pos2(p, strict):
    for h in _ctx.CTX.all_hyps():
        if h.op in ('lt', 'le'):
            d = _hnorm(h)
            if d is None:
                continue
            if strict and h.op == 'le':
                continue
            r = ratio(p, d)
            if r is not None and r > 0:
                return True
    return False


_hmemo = {}


def _hnorm(h):
    k = (h, _ctx.CTX.hkey())
    if k not in _hmemo:
        _hmemo[k] = None
        try:
            _hmemo[k] = norm(sub(h.args[1], h.args[0]))
        except Unsupported:
            pass
    return _hmemo[k]


def ratio(p, q):
    if len(p.d) != len(q.d) or not p.d:
        return None
    r = None
    for m, c in p.d.items():
        if m not in q.d:
            return None
        x = c / q.d[m]
        if r is None:
            r = x
        elif r != x:
            return None
    return r


# ---- normalisation -----------------------------------------------------------
def find_ite(t):
    """an ite / I condition inside t not under a binder"""
    for s in subterms(t, under_binders=False):
        if s.op == 'ite':
            return s.args[0]
        if is_ind(s):
            return s.args[1]
    return None


def assume_in(t, cond, val, memo=None):
    """replace the canonical condition by its value (also under binders: cond has no bound variables in common)"""
    v = TRUE if val else FALSE
    nv = ONE if val else ZERO

    def f(n):
        if n is cond:
            return v
        if n.op == 'fn' and n.args[0] == 'I':
            c = n.args[1]
            if c is cond or c is v and False:
                return nv
            if c is TRUE:
                return ONE
            if c is FALSE:
                return ZERO
        return None

    return replace(t, f, {} if memo is None else memo)


def lift(t_args, build):
    """build(args) with every ite pulled out: ite(c, build(args|c), build(args|!c)) as a Poly"""
    for a in t_args:
        if a.op == 'lam' or a.sort == 'K':
            continue
        c = find_ite(a)
        if c is not None:
            ic = norm_bool(c)
            v = ic.const()
            if v is not None:
                return lift(tuple(x if x.op == 'lam' else assume_in(x, c, v != 0) for x in t_args), build)
            a1 = tuple(x if x.op == 'lam' else assume_in(x, c, True) for x in t_args)
            a0 = tuple(x if x.op == 'lam' else assume_in(x, c, False) for x in t_args)
            p1, p0 = lift(a1, build), lift(a0, build)
            return padd(pmul(ic, p1), pmul(padd(pconst(1), pscale(ic, -1)), p0))
    return build(t_args)


def norm(t):
    k = (t, _ctx.CTX.hkey())
    r = _memo.get(k)
    if r is None:
        r = _norm(t)
        _memo[k] = r
    return r


def simp(t):
    if t.sort == 'B':
        return canon_bool(t)
    if t.sort == 'K':
        return canon_key(t)
    if t.op == 'lam':
        return canon_lam(t)
    return to_term(norm(t))


def canon_key(t):
    if t.op in ('v',):
        return t
    if t.op == 'ite':
        return _node('ite', (canon_bool(t.args[0]), canon_key(t.args[1]), canon_key(t.args[2])), 'K')
    args = tuple(canon_key(a) if a.sort == 'K' else simp(a) for a in t.args)
    if args == t.args:
        return t
    return rebuild(t, args)


def canon_lam(t):
    n, dims, body = t.args
    vs = [fresh('b') for _ in range(n)]
    b = lam_open(t, vs)
    nd = tuple(simp(d) for d in dims)
    hyps = [le(ZERO, v) for v in vs] + [lt(v, d) for v, d in zip(vs, nd)]
    old = _ctx.CTX.hyps
    unit = {v: ZERO for v, d in zip(vs, nd) if d is ONE}
    b = simp(subst(b, unit) if unit else b)
    b = drop_conds(b, vs, hyps)
    return recanon(lam(vs, nd, b))


def drop_conds(b, vs, hyps):
    """decide indicator conditions mentioning only-bound-range facts"""
    names = frozenset(v.args[0] for v in vs)
    for _ in range(12):
        changed = False
        for s in list(subterms(b, under_binders=True)):
            if is_ind(s) and (s.args[1].fv & names) and not any(v[0] == '%' for v in s.args[1].fv):
                c = s.args[1]
                if _ctx.entails(c, extra=hyps):
                    b = simp(assume_in(b, c, True))
                    changed = True
                    break
                if _ctx.entails(not_(c), extra=hyps):
                    b = simp(assume_in(b, c, False))
                    changed = True
                    break
        if not changed:
            return b
    return b


def _norm(t):
    op = t.op
    if op == 'c':
        v = cval(t)
        if isinstance(v, bool):
            return pconst(int(v))
        if isinstance(v, mpf):
            if mpmath.isinf(v) or mpmath.isnan(v):
                return patom(t)
            return pconst(Fraction(str(v)))
        return pconst(v)
    if op == 'v':
        if t.sort == 'B':
            return patom(_node('fn', ('I', t), 'I'))
        return patom(t)
    if t.sort == 'B':
        return norm_bool(t)
    if op == 'add':
        return padd(*[norm(a) for a in t.args])
    if op == 'mul':
        return pprod(*[norm(a) for a in t.args])
    if op == 'toreal':
        return norm(t.args[0])
    if op == 'div':
        return pmul(norm(t.args[0]), npow(t.args[1], Fraction(-1)))
    if op == 'pow':
        e = cval(t.args[1])
        return npow(t.args[0], Fraction(e))
    if op == 'ite':
        r = relu_form(t)
        if r is not None:
            return r
        ic = norm_bool(t.args[0])
        return padd(pmul(ic, norm(t.args[1])), pmul(padd(pconst(1), pscale(ic, -1)), norm(t.args[2])))
    if op in ('idiv', 'mod'):
        def b(args):
            x, y = simp(args[0]), simp(args[1])
            n = (idiv if op == 'idiv' else mod)(x, y)
            if n.op != op:
                return norm(n)
            return nidiv(x, y) if op == 'idiv' else padd(norm(x), pscale(pmul(norm(y), nidiv(x, y)), -1))
        return lift(tuple(simp(a) for a in t.args), b)
    if op == 'fn':
        return norm_fn(t)
    raise Unsupported(f'norm of {op}')


def relu_form(t):
    """ite(a < b, x, y) with x - y = k (b - a): the two branches agree where a = b, so < and <= (and either orientation) are one"""
    c, neg = t.args[0], False
    while c.op == 'not':
        c, neg = c.args[0], not neg
    if c.op not in ('lt', 'le') or (c.args[0].sort == 'I' and c.args[1].sort == 'I') or t.sort == 'B':
        return None
    d = norm(sub(c.args[1], c.args[0]))
    if d.const() is not None:
        return None
    x, y = norm(t.args[1]), norm(t.args[2])
    if neg:
        x, y = y, x
    k = ratio(padd(x, pscale(y, -1)), d)
    if k is None or any(find_ite(to_term(p)) is not None for p in (d, x, y)):
        return None
    lead = d.d[sorted([m for m in d.d if m != ()], key=mono_key)[0]]
    if lead < 0:        # relu(d) = d + relu(-d)
        return padd(y, pscale(padd(d, pscale(pmul(d, cmp_poly(pscale(d, -1), 'lt', False)), -1)), k))
    return padd(y, pscale(pmul(d, cmp_poly(d, 'lt', False)), k))


def nidiv(x, y):
    """x // y, with multiples of y pulled out: (q*y + r)//y = q + r//y, and 0 when 0 <= r < y."""
    px, py = norm(x), norm(y)
    ky = py.const()
    q = Poly({})
    r = {}
    if len(py.d) == 1:
        my, cy = next(iter(py.d.items()))
        myd = dict(my)
        for m, c in px.d.items():
            md = dict(m)
            if ky is not None:
                k = c / ky
                if k.denominator == 1 and m != ():
                    q = padd(q, Poly({m: k}))
                    continue
                if m == ():
                    fl = (c / ky).__floor__()
                    if fl:
                        q = padd(q, pconst(fl))
                    if c - fl * ky:
                        r[m] = c - fl * ky
                    continue
            elif all(md.get(a, 0) >= e for a, e in myd.items()):
                k = c / cy
                if k.denominator == 1:
                    m2 = tuple((a, e - myd.get(a, 0)) for a, e in m if e - myd.get(a, 0) != 0)
                    q = padd(q, Poly({m2: k}))
                    continue
            r[m] = c
    else:
        # try exact multiple
        rt = ratio(px, py)
        if rt is not None and rt.denominator == 1:
            return pconst(rt)
        r = dict(px.d)
    rp = Poly(r)
    if rp.zero():
        return q
    rt_, yt = to_term(rp), to_term(py)
    if _ctx.entails(and_(le(ZERO, rt_), lt(rt_, yt))):
        return q
    if rp.const() is not None and rp.const() < 0 and _ctx.entails(and_(lt(ZERO, yt), le(ZERO, add(rt_, yt)))):
        return padd(q, pconst(-1))
    return padd(q, patom(_node('idiv', (rt_, yt), 'I')))


def npow(base, e):
    """base ** e as Poly"""
    p = norm(base)
    if e.denominator == 1 and 0 <= e <= 8:
        r = pconst(1)
        for _ in range(int(e)):
            r = pmul(r, p)
        return r
    if p.zero():
        if e > 0:
            return p
        return patom(_node('fn', ('recip0',), 'R'))
    if len(p.d) > 1:
        t = to_term(p)
        if find_ite(t) is not None:
            return lift((t,), lambda a: npow(a[0], e))
    return ppow(p, e)


def ppow(p, e):
    if p.zero():
        if e > 0:
            return p
        return patom(_node('fn', ('recip0',), 'R'))
    integer = e.denominator == 1
    if len(p.d) == 1:
        (m, c), = p.d.items()
        out, coef = [], None
        keep = []     # atoms of unknown sign under fractional power
        kc = F1
        if integer:
            coef = c ** int(e)
        else:
            coef = None
            cc = abs(c)
            pc = const_pow(cc, e)
            if c < 0:
                kc = Fraction(-1)
        for a, x in m:
            if is_ind(a):
                keep.append((a, x))
            elif integer or atom_pos(a, False):
                out.append((a, x * e))
            elif not integer and x.denominator == 1 and x.numerator % 2 == 0 and False:
                pass
            else:
                keep.append((a, x))
        if any(is_ind(a) for a, _ in keep):
            t = to_term(p)
            return lift((t,), lambda a: npow(a[0], e))
        r = Poly({tuple(sorted(out, key=lambda q: q[0].id)): F1})
        if any(a.op == 'fn' and a.args[0] == 'P' and x >= 1 for a, x in out):
            r = expandP(tuple(sorted(out, key=lambda q: q[0].id)))
        if integer:
            return pscale(r, coef)
        r = pmul(r, pc)
        if keep or kc != 1:
            inner = Poly({tuple(keep): kc})
            # canonical: single atom squared -> |atom|
            if len(keep) == 1 and kc == 1:
                a, x = keep[0]
                if x.denominator == 1 and (x * e).denominator == 1 and x.numerator % 2 == 0:
                    ab = norm(ite(le(ZERO, a), a, neg(a)))
                    return pmul(r, ppow(ab, x * e) if len(ab.d) == 1 else npow(ite(le(ZERO, a), a, neg(a)), x * e))
            r = pmul(r, patom(_node('fn', ('P', to_term(inner)), 'R'), e))
        return r
    # multi-term: factor content
    ms = sorted(p.d.keys(), key=mono_key)
    lead = p.d[ms[0]]
    # common monomial
    common = dict(ms[0])
    for m in ms[1:]:
        md = dict(m)
        for a in list(common):
            if a not in md:
                # atom may appear with negative exponent elsewhere
                x = common[a]
                if x > 0:
                    del common[a]
                continue
            common[a] = min(common[a], md[a])
    for m in ms[1:]:
        for a, x in m:
            if x < 0 and a not in common:
                common[a] = x
            elif a in common:
                common[a] = min(common[a], x)
    for m in ms:
        md = dict(m)
        for a in list(common):
            if a not in md:
                common[a] = min(common[a], F0)
    common = {a: x for a, x in common.items() if x != 0 and (integer or atom_pos(a, False))}
    k = lead if integer else abs(lead)
    inv = tuple(sorted(((a, -x) for a, x in common.items()), key=lambda q: q[0].id))
    q = Poly({})
    if inv:
        q = pmul(p, Poly({inv: F1}))
    else:
        q = p
    q = pscale(q, 1 / k)
    outc = const_pow(k, e) if not integer else pconst(k ** int(e))
    r = outc
    if common:
        r = pmul(r, Poly({tuple(sorted(((a, x * e) for a, x in common.items()), key=lambda q_: q_[0].id)): F1}))
    if len(q.d) == 1:
        return pmul(r, ppow(q, e))
    if not integer:
        # perfect square?
        s = try_sqrt(q) if e.denominator == 2 else None
        if s is not None:
            st = to_term(s)
            if poly_pos(s, False):
                ab = st
            else:
                ab = ite(le(ZERO, st), st, neg(st))
            return pmul(r, npow(ab, e * 2))
    if e >= 1:
        n = e.__floor__()
        for _ in range(n):
            r = pmul(r, q)
        e = e - n
        if e == 0:
            return r
    return pmul(r, patom(_node('fn', ('P', to_term(q)), 'R'), e))


def try_sqrt(q):
    """s with s*s == q, for small polynomials (leading-term guess); None otherwise"""
    if len(q.d) not in (3, 6):
        return None
    sq = [(m, c) for m, c in q.d.items() if c > 0 and all((x / 2).denominator == 1 for _, x in m)]
    roots = []
    for m, c in sq:
        r = _ratsqrt(c)
        if r is not None:
            roots.append((tuple((a, x / 2) for a, x in m), r))
    n = 2 if len(q.d) == 3 else 3
    import itertools
    for comb in itertools.combinations(roots, n):
        for signs in itertools.product([1, -1], repeat=n - 1):
            s = Poly({})
            for (m, c), sg in zip(comb, (1,) + signs):
                s = padd(s, Poly({m: c * sg}))
            d = padd(pmul(s, s), pscale(q, -1))
            if d.zero():
                return s
    return None


def _ratsqrt(c):
    import math
    a, b = math.isqrt(c.numerator), math.isqrt(c.denominator)
    if a * a == c.numerator and b * b == c.denominator:
        return Fraction(a, b)
    return None


def const_pow(c, e):
    """positive rational to a rational power"""
    if c == 1:
        return pconst(1)
    if e.denominator == 1:
        return pconst(c ** int(e))
    # factor into primes
    r = pconst(1)
    from sympy import factorint
    for base, sgn in ((c.numerator, 1), (c.denominator, -1)):
        if base == 1:
            continue
        for pr, k in factorint(base).items():
            x = e * k * sgn
            n = x.__floor__()
            f = x - n
            r = pscale(r, Fraction(pr) ** n)
            if f:
                r = pmul(r, patom(C(pr), f))
    return r


_mkm = {}


def mono_key(m):
    r = _mkm.get(m)
    if r is None:
        r = _mkm[m] = tuple(sorted((a.sh, e) for a, e in m))
    return r


def ratcanon(p):
    """canonical form of a rational function: no monomial holds both a negative power of a sum S and S's leading monomial
    (lead = (S - rest) / lc)"""
    if not any(e < 0 and a.op == 'fn' and a.args[0] == 'P' for m in p.d for a, e in m):
        return p
    for _ in range(200):
        hit = None
        for m, c in p.d.items():
            md = dict(m)
            for a, e in m:
                if e < 0 and a.op == 'fn' and a.args[0] == 'P':
                    q = norm(a.args[1])
                    lead = max(q.d, key=lambda mm: (sum(e for _, e in mm), tuple(sorted(((a.sh, e) for a, e in mm), reverse=True))))
                    if lead and all(md.get(b, F0) >= f > 0 for b, f in lead):
                        hit = (m, c, a, q, lead)
                        break
            if hit:
                break
        if not hit:
            return p
        m, c, a, q, lead = hit
        md = dict(m)
        for b, f in lead:
            md[b] -= f
        base = Poly({tuple(sorted(((b, e) for b, e in md.items() if e != 0), key=lambda t: t[0].id)): c / q.d[lead]})
        rest = Poly({mm: cc for mm, cc in q.d.items() if mm != lead})
        p = padd(p, Poly({m: -c}), pmul(base, patom(a)), pscale(pmul(base, rest), -1))
    return p


def ratargs(name, args):
    for a in args:
        if not isinstance(a, T):
            yield a
            continue
        s = simp(a)
        if name.startswith(('U:', 'W:', 'D:')) and a.sort in ('R', 'L'):
            if s.op == 'lam':
                n, dims, body = s.args
                if body.sort == 'R' and any(x.op == 'fn' and x.args[0] == 'P' for x in subterms(body, under_binders=False)):
                    vs = [fresh('b') for _ in range(n)]
                    b = lam_open(s, vs)
                    if find_ite(b) is None:
                        s = lam(vs, dims, to_term(ratcanon(norm(b))))
            elif any(x.op == 'fn' and x.args[0] == 'P' for x in subterms(s, under_binders=False)) and find_ite(s) is None:
                s = to_term(ratcanon(norm(s)))
        yield s


PARTITION = {}      # name of an index array -> (name of the other part, whether it is the first part)


def _part_of(L):
    """the part of a declared partition that this index array is, entire"""
    n, dims, b = L.args
    if n == 1 and b.op == 'fn' and b.args[0] in PARTITION and b.args[1].op == 'v' and b.args[1].args[0] == f'%{L.h}_0' and \
            simp(dims[0]) is simp(PARTITION[b.args[0]][2]):
        return b.args[0]


def partition_rules(name, a):
    """index arrays U, O that together list 0..N-1 exactly once (N is the scattered axis): hit(L, x) is 'x occurs in L' and
    inv(L, x) its position, which is used only where it occurs"""
    if name in PARTITION:
        k = a[0]
        if k.op == 'fn' and k.args[0] == 'inv' and _part_of(k.args[1]) == name:
            return norm(k.args[2])
        return None
    L, x = a[0], simp(a[1])
    u = _part_of(canon_lam(L))
    if u is None:
        return None
    w = x.args[0] if x.op == 'fn' and x.args[0] in PARTITION and x.args[0] in (u, PARTITION[u][0]) else None
    if name == 'inv':
        return norm(x.args[1]) if w == u else None
    if w is not None:
        return pconst(int(w == u))
    if not PARTITION[u][1]:
        o = PARTITION[u][0]
        v = fresh('b')
        return padd(pconst(1), pscale(norm_bool(fn('hit', lam((v,), (PARTITION[o][2],), fn(o, v, sort='I')), x, sort='B')), -1))
    return None


def norm_fn(t):
    name = t.args[0]
    args = t.args[1:]
    if name == 'I':
        return norm_bool(args[0])
    if name == 'P':
        return norm(args[0])
    if name == 'exp':
        return lift((simp(args[0]),), lambda a: nexp(norm(a[0])))
    if name == 'log':
        return lift((simp(args[0]),), lambda a: nlog(norm(a[0])))
    if name == 'Sum':
        return norm_sum(args[0])
    if name in ('Max', 'Min'):
        l = canon_lam(args[0])
        n, dims, body = l.args
        vs = [fresh('b') for _ in range(n)]
        b = lam_open(l, vs)
        names = frozenset(v.args[0] for v in vs)
        if not (b.fv & names):
            return norm(b)
        if b.op == 'fn' and b.args[0] == name and not any(d.fv & names for d in b.args[1].args[1]):
            # an extremum of extrema ranges over both
            us = [fresh('b') for _ in range(b.args[1].args[0])]
            l = recanon(lam(vs + us, dims + b.args[1].args[1], lam_open(b.args[1], us)))
            return patom(recanon(_node('fn', (name, l), t.sort)))
        return patom(_node('fn', (name, l), t.sort))
    if name == 'floor':
        def bf(a):
            p = norm(a[0])
            ip, rp = {}, {}
            for m, c in p.d.items():
                if c.denominator == 1 and all(x.sort == 'I' and e.denominator == 1 and e > 0 for x, e in m):
                    ip[m] = c
                else:
                    rp[m] = c
            if not rp:
                return p
            rt = to_term(Poly(rp))
            k = Poly(rp).const()
            if k is not None:
                return padd(Poly(ip), pconst(k.__floor__()))
            return padd(Poly(ip), patom(_node('fn', ('floor', rt), 'I')))
        return lift((simp(args[0]),), bf)
    if name == 'tanh' or name == 'sin' or name == 'tan' or name == 'erf' or name == 'atan':
        def bo(a):
            p = norm(a[0])
            if p.zero():
                return p
            ms = sorted(p.d.keys(), key=mono_key)
            if p.d[ms[0]] < 0:
                return pscale(patom(_node('fn', (name, to_term(pscale(p, -1))), 'R')), -1)
            return patom(_node('fn', (name, to_term(p)), 'R'))
        return lift((simp(args[0]),), bo)
    if name == 'cos':
        def bo(a):
            p = norm(a[0])
            ms = sorted(p.d.keys(), key=mono_key)
            if ms and p.d[ms[0]] < 0:
                p = pscale(p, -1)
            return patom(_node('fn', (name, to_term(p)), 'R'))
        return lift((simp(args[0]),), bo)
    # generic uninterpreted function
    sargs = tuple(ratargs(name, args))
    if name in ('hit', 'inv') or name in PARTITION:
        r = partition_rules(name, sargs)
        if r is not None:
            return r

    def b(a):
        n = fn(name, *[simp(x) if x.op != 'lam' else x for x in a], sort=t.sort)
        if n.op != 'fn' or n.args[0] != name:
            return norm(n)
        if n.sort == 'B':
            return patom(_node('fn', ('I', n), 'I'))
        return patom(n)

    return lift(sargs, b)


def nexp(p):
    """exp of a polynomial"""
    r = pconst(1)
    d = []
    for m, c in p.d.items():
        if m == ():
            r = pmul(r, patom(_node('fn', ('exp', C(F1)), 'R'), c))
            continue
        if len(m) == 1:
            a, e = m[0]
            if e == 1 and a.op == 'fn' and a.args[0] == 'log':
                r = pmul(r, ppow(norm(a.args[1]), c))
                continue
        t = to_term(Poly({m: F1}))
        d.append((_node('fn', ('exp', toreal(t)), 'R'), c))
    if d:
        r = pmul(r, Poly({tuple(sorted(d, key=lambda q: q[0].id)): F1}))
    return r


def nlog(p):
    c = p.const()
    if c is not None and c > 0:
        return nlogc(c)
    if len(p.d) == 1:
        (m, c), = p.d.items()
        r = pconst(0)
        rest = []
        for a, e in m:
            if a.op == 'fn' and a.args[0] == 'exp':
                r = padd(r, pscale(norm(a.args[1]), e))
            elif atom_pos(a, True):
                if a.op == 'fn' and a.args[0] == 'P':
                    r = padd(r, pscale(nlog_multi(norm(a.args[1])), e))
                else:
                    r = padd(r, pscale(patom(_node('fn', ('log', a if a.sort == 'R' else toreal(a)), 'R')), e))
            else:
                rest.append((a, e))
        if c > 0:
            r = padd(r, nlogc(c))
            c = F1
        if rest or c != 1:
            # gcd exponent
            if len(rest) == 1 and c == 1 and rest[0][1] > 0:
                a, e = rest[0]
                if e.denominator != 1 or e.numerator % 2 == 1:
                    r = padd(r, pscale(patom(_node('fn', ('log', a if a.sort == 'R' else toreal(a)), 'R')), e))
                    return r
            r = padd(r, patom(_node('fn', ('log', to_term(Poly({tuple(rest): c}), 'R')), 'R')))
        return r
    return nlog_multi(p)


def nlogc(c):
    if c == 1:
        return pconst(0)
    from sympy import factorint
    r = pconst(0)
    for base, s in ((c.numerator, 1), (c.denominator, -1)):
        if base > 1:
            for pr, k in factorint(base).items():
                r = padd(r, pscale(patom(_node('fn', ('log', C(Fraction(pr))), 'R')), k * s))
    return r


def nlog_multi(p):
    # pull out positive common factors
    q = ppow(p, Fraction(-1))   # canonical content extraction
    if len(q.d) == 1:
        (m, c), = q.d.items()
        r = pconst(0)
        ok = True
        P = None
        for a, e in m:
            if a.op == 'fn' and a.args[0] == 'P' and e == -1 and P is None:
                P = a
            elif atom_pos(a, True):
                pass
            else:
                ok = False
        if ok and P is not None:
            s = F1 if c > 0 else Fraction(-1)
            for a, e in m:
                if a is P:
                    continue
                if a.op == 'fn' and a.args[0] == 'exp':
                    r = padd(r, pscale(norm(a.args[1]), -e))
                elif a.op == 'fn' and a.args[0] == 'P':
                    r = padd(r, pscale(nlog_multi(norm(a.args[1])), -e))
                else:
                    r = padd(r, pscale(patom(_node('fn', ('log', a if a.sort == 'R' else toreal(a)), 'R')), -e))
            r = padd(r, pscale(nlogc(abs(c)), -1))
            body = norm(P.args[1])
            if s < 0:
                body = pscale(body, -1)
            return padd(r, patom(_node('fn', ('log', to_term(body, 'R')), 'R')))
    return patom(_node('fn', ('log', to_term(p, 'R')), 'R'))


def norm_sum(l):
    """Sum over a (multi-)range"""
    n, dims, body = l.args
    vs = [fresh('s') for _ in range(n)]
    b = lam_open(l, vs)
    dims = [simp(d) for d in dims]
    return sum_poly(vs, dims, b)


def sum_poly(vs, dims, b):
    # shift constant offsets in dims: Sum_{i<n+c}
    for q, d in enumerate(dims):
        p = norm(d)
        c = p.const()
        if c is not None:
            if c <= 0:
                return Poly({})
            if c <= 32:
                r = Poly({})
                ovs, ods = vs[:q] + vs[q + 1:], dims[:q] + dims[q + 1:]
                for i in range(int(c)):
                    bi = subst(b, {vs[q]: C(i)})
                    r = padd(r, sum_poly(ovs, ods, bi) if ovs else norm(bi))
                return r
        elif () in p.d and p.d[()].denominator == 1:
            off = int(p.d[()])
            base = padd(p, pconst(-off))
            bt = to_term(base)
            ovs, ods = vs[:q] + vs[q + 1:], dims[:q] + dims[q + 1:]
            rest = lambda bi: sum_poly(ovs, ods, bi) if ovs else norm(bi)
            if off > 0 and off <= 8 and _ctx.entails(le(ZERO, bt)):
                r = sum_poly(vs[:q] + [vs[q]] + vs[q + 1:], dims[:q] + [bt] + dims[q + 1:], b)
                for j in range(off):
                    r = padd(r, rest(subst(b, {vs[q]: add(bt, C(j))})))
                return r
            if off < 0 and off >= -8 and _ctx.entails(le(ZERO, to_term(p))):
                r = sum_poly(vs[:q] + [vs[q]] + vs[q + 1:], dims[:q] + [bt] + dims[q + 1:], b)
                for j in range(1, -off + 1):
                    r = padd(r, pscale(rest(subst(b, {vs[q]: add(bt, C(-j))})), -1))
                return r
    r = split_index(vs, dims, b)
    if r is not None:
        return r
    b = simp(b)
    names = {v.args[0]: i for i, v in enumerate(vs)}
    ns = frozenset(names)
    hyps = [le(ZERO, v) for v in vs] + [lt(v, d) for v, d in zip(vs, dims)]
    b = drop_conds(b, vs, hyps)
    p = norm(b)
    total = Poly({})
    for m, c in p.d.items():
        total = padd(total, pscale(sum_mono(vs, dims, m, ns), c))
    return total


def split_index(vs, dims, b):
    """a sum over v < c*y whose body uses v // y is one over i < c and j < y with v = i*y + j"""
    for q, (v, d) in enumerate(zip(vs, dims)):
        pd = norm(d)
        if len(pd.d) != 1:
            continue
        (m, c), = pd.d.items()
        if c.denominator != 1 or sum(e for _, e in m) + (c != 1) < 2:
            continue
        best = None
        for s in subterms(b, under_binders=True):
            if s.op in ('idiv', 'mod') and s.args[0] is v and not s.args[1].fv & {w.args[0] for w in vs}:
                py = norm(s.args[1])
                if len(py.d) != 1 or py.const() is not None and py.const() <= 0:
                    continue
                (my, cy), = py.d.items()
                md = dict(m)
                if (c / cy).denominator == 1 and all(md.get(a, 0) >= e for a, e in my):
                    k = sum(e for _, e in my)
                    if best is None or k > best[0]:
                        best = k, py, Poly({tuple((a, e - dict(my).get(a, 0)) for a, e in m if e != dict(my).get(a, 0)): c / cy})
        if best is None or best[1].const() == 1 or best[2].const() == 1:
            continue
        y, z = to_term(best[1]), to_term(best[2])
        i, j = fresh('s'), fresh('s')
        old = _ctx.CTX.hyps
        try:
            _ctx.CTX.hyps = old + [le(ZERO, i), lt(i, z), le(ZERO, j), lt(j, y)]
            b = simp(subst(b, {v: add(mul(i, y), j)}))
        finally:
            _ctx.CTX.hyps = old
        return sum_poly(vs[:q] + [i, j] + vs[q + 1:], dims[:q] + [z, y] + dims[q + 1:], b)
    return None


def solve_eq(cond, v):
    """cond canonical eq(ZERO, p): if p = ±v + rest (rest free of v) return the solution term"""
    if cond.op != 'eq':
        return None
    p = norm(sub(cond.args[1], cond.args[0]))
    cv, rest = None, {}
    for m, c in p.d.items():
        if m == ((v, F1),):
            cv = c
        elif any(v.args[0] in a.fv for a, _ in m):
            return None
        else:
            rest[m] = c
    if cv is None or abs(cv) != 1:
        return None
    return to_term(pscale(Poly(rest), -1 / cv))


def sum_mono(vs, dims, m, ns):
    """sum over vs of a single monomial"""
    # delta collapse
    for a, e in m:
        if is_ind(a) and (a.fv & ns):
            for q, v in enumerate(vs):
                if v.args[0] in a.fv:
                    s = solve_eq(a.args[1], v)
                    if s is not None:
                        rest = tuple(x for x in m if x[0] is not a)
                        bt = to_term(Poly({rest: F1}))
                        bt = subst(bt, {v: s})
                        ovs, ods = vs[:q] + vs[q + 1:], dims[:q] + dims[q + 1:]
                        bt = mul(bt, ite(and_(le(ZERO, s), lt(s, dims[q])), ONE, ZERO))
                        return sum_poly(ovs, ods, bt) if ovs else norm(bt)
    out = [x for x in m if not (x[0].fv & ns)]
    inn = [x for x in m if (x[0].fv & ns)]
    # merge inner sums
    vs, dims = list(vs), list(dims)
    work = []
    for a, e in inn:
        if a.op == 'fn' and a.args[0] == 'Sum' and e == 1:
            l = a.args[1]
            n2, d2, b2 = l.args
            if not any(d.fv & ns for d in d2):
                v2 = [fresh('s') for _ in range(n2)]
                bb = lam_open(l, v2)
                pb = norm(bb)
                if len(pb.d) == 1:
                    (mm, cc), = pb.d.items()
                    vs += v2
                    dims += list(d2)
                    ns = ns | frozenset(v.args[0] for v in v2)
                    rest = [x for x in inn if x[0] is not a]
                    m2, ex = mmul(tuple(sorted(out, key=lambda q: q[0].id)), tuple(sorted(rest, key=lambda q: q[0].id)))
                    m3, ex3 = mmul(m2, mm)
                    return pscale(sum_mono(vs, dims, m3, ns), cc)
    r = matrix_rules(vs, dims, inn, out, ns)
    if r is not None:
        return r
    # connected components
    comps = []
    for v, d in zip(vs, dims):
        comps.append(({v.args[0]}, [(v, d)], []))
    for a, e in inn:
        touched = [c for c in comps if c[0] & a.fv]
        base = touched[0]
        for c in touched[1:]:
            base[0].update(c[0])
            base[1].extend(c[1])
            base[2].extend(c[2])
            comps.remove(c)
        base[2].append((a, e))
    r = Poly({tuple(out): F1}) if True else None
    for nm, vd, atoms in comps:
        if not atoms:
            for v, d in vd:
                r = pmul(r, norm(d))
            continue
        # canonical order of bound variables: by dim id then by first occurrence
        body = to_term(Poly({tuple(sorted(atoms, key=lambda q: q[0].id)): F1}))
        if len(vd) > 1:
            best = None
            import itertools
            if len(vd) <= 4:
                for perm in itertools.permutations(vd):
                    l = recanon_in(lam([v for v, _ in perm], tuple(d for _, d in perm), body))
                    k = (tuple(d.id for _, d in perm), struct_key(l))
                    if best is None or k < best[0]:
                        best = (k, l)
                l = best[1]
            else:
                l = lam([v for v, _ in vd], tuple(d for _, d in vd), body)
        else:
            l = lam([vd[0][0]], (vd[0][1],), body)
        nd = _node('fn', ('Sum', canon_lam0(l)), 'R')
        r = pmul(r, SUMFACTS[nd] if nd in SUMFACTS else patom(nd))
    return r


def matrix_rules(vs, dims, inn, out, ns):
    """defining equations of matrix functions: one rewriting of a monomial under a sum, or None"""
    for q, v in enumerate(vs):
        at = [(a, e) for a, e in inn if v.args[0] in a.fv]
        if not at or not all(a.op == 'fn' for a, _ in at):
            continue

        def done(t):
            rest = [x for x in inn if x not in at]
            m, ex = mmul(tuple(sorted(out, key=lambda z: z[0].id)), tuple(sorted(rest, key=lambda z: z[0].id)))
            bt = mul(to_term(Poly({m: F1})), t)
            ovs, ods = vs[:q] + vs[q + 1:], dims[:q] + dims[q + 1:]
            return sum_poly(ovs, ods, bt) if ovs else norm(bt)
        vec = [a for a, e in at if a.args[0] == 'M:eigvec' and e == 1] + [a for a, e in at if a.args[0] == 'M:eigvec' and e == 2 for _ in (0, 1)]
        val = [a for a, e in at if a.args[0] in ('M:eigval', 'M:eigvalp') and e == 1]
        if len(vec) == 2 and sum(e for a, e in at if a.args[0] == 'M:eigvec') == 2 and vec[0].args[1] is vec[1].args[1]:
            X, a0, b0 = vec[0].args[1], vec[0].args[2:], vec[1].args[2:]
            full = dims[q] is simp(X.args[1][0])
            if full and len(at) == len(set(vec)):
                for s in (0, 1):
                    if a0[s] is v and b0[s] is v and v.args[0] not in a0[1 - s].fv | b0[1 - s].fv:
                        return done(ite(eq(a0[1 - s], b0[1 - s]), ONE, ZERO))
            if full and len(at) == len(set(vec)) + 1 and len(val) == 1 and val[0].args[1] is X and val[0].args[2] is v and \
                    a0[1] is v and b0[1] is v and v.args[0] not in a0[0].fv | b0[0].fv:
                return done(lam_open(X, [a0[0], b0[0]]))
        flat = [a for a, e in at for _ in range(int(e))] if all(e in (1, 2) for _, e in at) else []
        if len(flat) == 2:
            r = square_rules(v, dims[q], *flat)
            if r is not None:
                return done(r)
        if len(at) == 1 and at[0][1] == 1 and at[0][0].args[0] == 'log':
            c = at[0][0].args[1]
            if c.op == 'fn' and c.args[0] == 'M:chol' and c.args[2] is v and c.args[3] is v and dims[q] is simp(c.args[1].args[1][0]):
                return done(mul(C(Fraction(1, 2)), fn('M:logdet', c.args[1])))
    return None


def square_rules(v, dim, a, b):
    """sum over v of a * b: the product of a matrix function with its partner"""
    vn = v.args[0]
    names = {a.args[0], b.args[0]}
    if names <= {'M:chol'} or names <= {'M:sqrtm'} or names <= {'M:sqrtm_s'}:
        X = a.args[1]
        if X is not b.args[1] or dim is not simp(X.args[1][0]):
            return None
        i, j = a.args[2:], b.args[2:]
        if names <= {'M:chol'}:                                  # L L^T
            if i[1] is v and j[1] is v and vn not in i[0].fv | j[0].fv:
                return lam_open(X, [i[0], j[0]])
            return None
        for _ in range(2):                                       # S S
            for p in ((0, 1) if names <= {'M:sqrtm_s'} else (1,)):
                for q in ((0, 1) if names <= {'M:sqrtm_s'} else (0,)):
                    if i[p] is v and j[q] is v and vn not in i[1 - p].fv | j[1 - q].fv:
                        return lam_open(X, [i[1 - p], j[1 - q]])
            i, j = j, i
        return None
    for a, b in ((a, b), (b, a)):                                # A^-1 A and A A^-1, for matrices whose entries are atoms
        if a.args[0] not in ('M:inv', 'M:inv_s') or b.args[0] in ('M:inv', 'M:inv_s') or dim is not simp(a.args[1].args[1][0]):
            continue
        X, i = a.args[1], a.args[2:]
        for p in (0, 1):                                         # the index of the inverse that is summed over
            if i[p] is not v or vn in i[1 - p].fv:
                continue
            for q in (0, 1) if a.args[0] == 'M:inv_s' else (1 - p,):      # the index of A that is summed over
                J = fresh('b')
                e = norm(lam_open(X, [v, J] if q == 0 else [J, v]))
                if len(e.d) != 1:
                    continue
                (m, c), = e.d.items()
                if c != 1 or len(m) != 1 or m[0][1] != 1 or m[0][0].op != 'fn' or m[0][0].args[0] != b.args[0] or len(m[0][0].args) != len(b.args):
                    continue
                for j in b.args[1:]:
                    if not isinstance(j, T) or j.sort != 'I' or vn in j.fv:
                        continue
                    t = norm(lam_open(X, [v, j] if q == 0 else [j, v]))
                    if t.d == {((b, F1),): 1} or t.d == {((b, 1),): F1}:
                        return ite(eq(i[1 - p], j), ONE, ZERO)
    return None


def canon_lam0(l):
    n, dims, body = l.args
    vs = [fresh('b') for _ in range(n)]
    return recanon(lam(vs, dims, simp(lam_open(l, vs))))


_rc = {}


def recanon_in(l):
    n, dims, body = l.args
    b = recanon(body)
    return l if b is body else _mklam(n, dims, b, l.h)


def _mklam(n, dims, body, h):
    vs = [fresh('b') for _ in range(n)]
    return lam(vs, dims, subst(body, {var(f'%{h}_{i}', 'I'): vs[i] for i in range(n)}))


def recanon(t):
    """order the bound variables of nested sums canonically, given the names of the variables bound further out"""
    if t.h < 2 and t.op not in ('eq', 'lam', 'fn', 'add', 'mul', 'pow', 'not', 'and', 'ite'):
        return t
    r = _rc.get(t)
    if r is not None:
        return r
    if t.op == 'lam':
        r = recanon_in(t)
    elif t.op == 'fn' and t.args[0] in ('Sum', 'Max', 'Min') and 1 < t.args[1].args[0] <= 4:
        import itertools
        n, dims, body = t.args[1].args
        best = None
        for perm in itertools.permutations(range(n)):
            vs = [fresh('b') for _ in range(n)]
            b = lam_open(t.args[1], vs)
            l = recanon_in(lam([vs[i] for i in perm], tuple(dims[i] for i in perm), b))
            k = (tuple(d.id for d in l.args[1]), struct_key(l))
            if best is None or k < best[0]:
                best = (k, l)
        r = _node('fn', (t.args[0], best[1]), t.sort)
    elif t.op in ('not', 'and', 'ite', 'mul', 'add', 'pow') or any(isinstance(a, T) and a.h >= 1 for a in t.args) or t.op == 'fn' and t.args[0] == 'I':
        args = tuple(recanon(a) if isinstance(a, T) else a for a in t.args)
        r = t if all(a is b for a, b in zip(args, t.args)) else rebuild(t, args)
    elif t.op == 'eq' and t.args[0] is ZERO and t.args[1].op == 'add':
        q = add(*[mul(C(-1), a) for a in t.args[1].args])
        r = min(t, _node('eq', (ZERO, q), 'B'), key=struct_key)
    else:
        r = t
    _rc[t] = r
    return r


_sk = {}


def struct_key(t):
    """structural ordering key independent of creation order of bound-variable instances"""
    k = _sk.get(t)
    if k is None:
        if t.op in ('v',):
            k = 'v' + t.args[0]
        elif t.op == 'c':
            k = 'c' + str(t.args[0])
        else:
            k = t.op + '(' + ','.join(
                struct_key(a) if isinstance(a, T) else ('[' + ','.join(struct_key(x) for x in a) + ']' if isinstance(a, tuple) and a and isinstance(a[0], T) else str(a))
                for a in t.args) + ')'
        _sk[t] = k
    return k


# ---- booleans --------------------------------------------------------------
_bmemo = {}


def norm_bool(c):
    k = (c, _ctx.CTX.hkey())
    r = _bmemo.get(k)
    if r is None:
        r = _norm_bool(c)
        _bmemo[k] = r
    return r


def ind(c):
    if c is TRUE:
        return pconst(1)
    if c is FALSE:
        return pconst(0)
    return patom(_node('fn', ('I', c), 'I'))


def _norm_bool(c):
    op = c.op
    if c is TRUE:
        return pconst(1)
    if c is FALSE:
        return pconst(0)
    if op == 'v':
        return ind(c)
    if op == 'not':
        return padd(pconst(1), pscale(norm_bool(c.args[0]), -1))
    if op == 'and':
        return pprod(*[norm_bool(a) for a in c.args])
    if op == 'or':
        r = pconst(1)
        for a in c.args:
            r = pmul(r, padd(pconst(1), pscale(norm_bool(a), -1)))
        return padd(pconst(1), pscale(r, -1))
    if op == 'ite':
        a = norm_bool(c.args[0])
        return padd(pmul(a, norm_bool(c.args[1])), pmul(padd(pconst(1), pscale(a, -1)), norm_bool(c.args[2])))
    if op in ('lt', 'le'):
        d = simp(sub(c.args[1], c.args[0]))
        isint = c.args[0].sort == 'I' and c.args[1].sort == 'I'
        return lift((d,), lambda a: cmp_poly(norm(a[0]), op, isint))
    if op == 'eq':
        if c.args[0].sort == 'K':
            return ind(eq(canon_key(c.args[0]), canon_key(c.args[1])))
        d = simp(sub(c.args[1], c.args[0]))
        return lift((d,), lambda a: eq_poly(norm(a[0])))
    if op == 'fn':
        return norm_fn(c)
    raise Unsupported(f'boolean {op}')


def _content(p):
    from math import gcd
    from functools import reduce
    num = reduce(gcd, [c.numerator for c in p.d.values()])
    den = reduce(lambda a, b: a * b // gcd(a, b), [c.denominator for c in p.d.values()])
    return Fraction(abs(num), den)


def strip_pos(p):
    """divide by positive common factors (keeps the sign)"""
    if len(p.d) == 1:
        (m, c), = p.d.items()
        m2 = []
        for a, e in m:
            if atom_pos(a, True):
                continue
            m2.append((a, e))
        return Poly({tuple(m2): F1 if c > 0 else -F1})
    allat = {}
    for m in p.d:
        for a, e in m:
            allat.setdefault(a, None)
    for a in allat:
        es = [dict(m).get(a, F0) for m in p.d]
        lo = min(es)
        if lo != 0 and atom_pos(a, True):
            p = pmul(p, Poly({((a, -lo),): F1}))
    return pscale(p, 1 / _content(p))


def cmp_poly(p, op, isint):
    """indicator of p > 0 ('lt') or p >= 0 ('le')"""
    c = p.const()
    if c is not None:
        return pconst(int(c > 0 if op == 'lt' else c >= 0))
    # clear integer P denominators that are positive
    if isint:
        if op == 'le':
            p = padd(p, pconst(1))       # p >= 0  <=>  p + 1 > 0
        ms = sorted([m for m in p.d if m != ()], key=mono_key)
        k = Poly({m: c for m, c in p.d.items() if m != ()})
        g = _content(k)
        c0 = p.d.get((), F0)
        if g != 1 or c0.denominator != 1:
            # g*q + c0 > 0  <=>  q > -c0/g  <=> q >= floor(-c0/g)+1
            q = pscale(k, 1 / g)
            lowb = (-c0 / g).__floor__() + 1
            p = padd(q, pconst(-lowb + 1))
        if poly_pos(p, True):
            return pconst(1)
        if poly_pos(pscale(p, -1), False):
            return pconst(0)
        if all(a.op == 'v' and '!' not in a.args[0] and e == 1 for m in p.d for a, e in m) and all(len(m) <= 1 for m in p.d):
            d = size_decide(p)
            if d is not None:
                return pconst(d)
        if p.d[ms[0]] < 0:
            q = padd(pconst(1), pscale(p, -1))
            return padd(pconst(1), pscale(ind(_node('lt', (ZERO, to_term(q)), 'B')), -1))
        return ind(_node('lt', (ZERO, to_term(p)), 'B'))
    if op == 'le':
        return padd(pconst(1), pscale(cmp_poly(pscale(p, -1), 'lt', False), -1))
    p = clear_pos(p)
    p = strip_pos(p)
    if p.const() is not None:
        return pconst(int(p.const() > 0))
    if poly_pos(p, True):
        return pconst(1)
    if poly_pos(pscale(p, -1), False):
        return pconst(0)
    # log(x) - log(y) > 0  etc. are left to z3 / monotonicity below
    q = mono_cmp(p)
    if q is not None:
        return q
    return ind(_node('lt', (ZERO, to_term(p)), 'B'))


_sd = {}


def size_decide(p):
    """p > 0, p linear in the sizes: decided by the hypotheses about the sizes alone"""
    hs = [h for h in _ctx.CTX.all_hyps() if h.fv and not any('!' in v or '%' in v for v in h.fv) and h.op in ('lt', 'le', 'eq', 'and')]
    t = lt(ZERO, to_term(p))
    k = (t, frozenset(hs))
    if k not in _sd:
        from . import prover
        _sd[k] = 1 if prover.z3_entails(hs, t) else 0 if prover.z3_entails(hs, not_(t)) else None
    return _sd[k]


def mono_cmp(p):
    """sum_i c_i log(a_i) + c > 0 is a comparison of products (strict monotonicity of exp)."""
    if not any(len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'fn' and m[0][0].args[0] == 'log' and
               not (m[0][0].args[1].op == 'c') for m in p.d):
        return None
    pos = Poly({m: c for m, c in p.d.items() if c > 0})
    ng = Poly({m: -c for m, c in p.d.items() if c < 0})
    d = padd(nexp(pos), pscale(nexp(ng), -1))
    if any(a.op == 'fn' and a.args[0] == 'log' for m in d.d for a, _ in m):
        pass
    return cmp_poly(d, 'lt', False)


def clear_pos(p):
    for _ in range(10):
        tgt = None
        for m in p.d:
            for a, e in m:
                if e < 0 and atom_pos(a, True):
                    tgt = (a, min(dict(mm).get(a, F0) for mm in p.d))
                    break
            if tgt:
                break
        if not tgt:
            return p
        p = pmul(p, Poly({((tgt[0], -tgt[1]),): F1}))
    return p


def eq_poly(p):
    c = p.const()
    if c is not None:
        return pconst(int(c == 0))
    p = strip_pos(p) if len(p.d) > 1 else p
    ms = sorted(p.d.keys(), key=mono_key)
    k = _content(p)
    lead = [m for m in ms if m != ()][0]
    if p.d[lead] < 0:
        k = -k
    p = pscale(p, 1 / k)
    if all(a.sort == 'I' for m in p.d for a, _ in m) and p.d.get((), F0).denominator != 1 and all(
            c.denominator == 1 for m, c in p.d.items() if m != ()):
        return pconst(0)
    return ind(_node('eq', (ZERO, to_term(p)), 'B'))


def canon_bool(c):
    p = norm_bool(c)
    return poly_bool(p)


def poly_bool(p):
    k = p.const()
    if k is not None:
        return TRUE if k == 1 else FALSE
    if len(p.d) == 1:
        (m, c), = p.d.items()
        if c == 1:
            return and_(*[a.args[1] for a, _ in m])
    if len(p.d) == 2 and p.d.get(()) == 1:
        (m, c), = [(m, c) for m, c in p.d.items() if m != ()]
        if c == -1 and len(m) == 1:
            return _node('not', (m[0][0].args[1],), 'B')
        if c == -1:
            return _node('not', (and_(*[a.args[1] for a, _ in m]),), 'B')
    # general 0/1 polynomial
    return _node('eq', (ONE, to_term(p)), 'B')


# ---- back to terms -----------------------------------------------------------
_tt = {}


def to_term(p, sort=None):
    key = frozenset(p.d.items())
    r = _tt.get(key)
    if r is None:
        ms = sorted(p.d.keys(), key=mono_key)
        ts = []
        for m in ms:
            c = p.d[m]
            fs = []
            for a, e in m:
                if e == 1:
                    fs.append(a)
                else:
                    fs.append(_mkpow(a, e))
            ts.append(mul(C(int(c)) if c.denominator == 1 else C(c), *fs) if fs else (C(int(c)) if c.denominator == 1 else C(c)))
        r = add(*ts) if ts else ZERO
        _tt[key] = r
    if sort == 'R' and r.sort != 'R':
        return toreal(r)
    return r


def _mkpow(a, e):
    if e.denominator == 1:
        e = int(e)
        if e > 0 and a.sort == 'I':
            return _node('pow', (a, C(e)), 'I')
    return _node('pow', (toreal(a) if a.sort != 'R' and a.op != 'c' else a, C(e)), 'R')
