"""Hash-consed first-order terms with binders: the logic in which contracts and extracted code meet.

Sorts: 'I' (mathematical integer), 'R' (mathematical real), 'B' (boolean), 'K' (random key), 'L' (lambda).
Constants may be int, Fraction, bool or mpmath.mpf (numeric replay mode).
"""
from fractions import Fraction
import hashlib
import itertools
import mpmath

mpmath.mp.dps = 50
mpf = mpmath.mpf

_table = {}
_ids = itertools.count()


class T:
    __slots__ = ('op', 'args', 'sort', 'fv', 'h', 'id', 'sh', '__weakref__')

    def __repr__(self):
        return pretty(self)

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o

    def __bool__(self):
        raise TypeError('bool() of a term')


EMPTY = frozenset()


def _strh(x):
    r = _strs.get(x)
    if r is None:
        r = _strs[x] = int.from_bytes(hashlib.blake2b(x.encode(), digest_size=8).digest(), 'little') >> 3
    return r


_strs = {}


def _shash(op, args):
    """(hash blind to bound names, hash): order-independent for sums and products"""
    if op == 'v':
        n = args[0]
        return (1 if n.startswith(('b!', '%')) else _strh(n), _strh(n))
    if op == 'c':
        k = _strh(repr(args[0]))
        return (k, k)
    o = _strh(op)
    x, y = [], []
    for a in args:
        if isinstance(a, T):
            x.append(a.sh[0])
            y.append(a.sh[1])
        elif isinstance(a, tuple):
            x.append(hash(tuple(q.sh[0] if isinstance(q, T) else _strh(repr(q)) for q in a)))
            y.append(hash(tuple(q.sh[1] if isinstance(q, T) else _strh(repr(q)) for q in a)))
        else:
            k = _strh(repr(a))
            x.append(k)
            y.append(k)
    if op in ('add', 'mul'):
        x.sort()
        y.sort()
    return (hash((o, *x)), hash((o, *y)))


def _shkey(t):
    return t.sh


def _mk(op, args, sort, fv, h):
    key = (op, args, sort)
    t = _table.get(key)
    if t is None:
        t = T()
        t.op, t.args, t.sort, t.fv, t.h = op, args, sort, fv, h
        t.id = next(_ids)
        t.sh = _shash(op, args)
        _table[key] = t
    return t


class CKey:
    """Wrapper making constants hash by type as well (1 vs True vs Fraction(1) vs mpf)."""


def const(v):
    if isinstance(v, bool):
        return _mk('c', (('b', v),), 'B', EMPTY, 0)
    if isinstance(v, int):
        return _mk('c', (('i', v),), 'I', EMPTY, 0)
    if isinstance(v, Fraction):
        return _mk('c', (('q', v),), 'R', EMPTY, 0)
    if isinstance(v, mpf):
        return _mk('c', (('f', v._mpf_),), 'R', EMPTY, 0)
    if isinstance(v, float):
        if NUMERIC[0] or v != v or v in (float('inf'), float('-inf')):
            return const(mpf(v))
        return const(Fraction(repr(v)))
    raise TypeError(f'const {v!r} {type(v)}')


NUMERIC = [False]


def isc(t):
    return t.op == 'c'


def cval(t):
    k, v = t.args[0]
    if k == 'f':
        return mpmath.mp.make_mpf(v)
    return v


TRUE = const(True)
FALSE = const(False)
ZERO = const(0)
ONE = const(1)


def var(name, sort):
    return _mk('v', (name,), sort, frozenset([name]), 0)


_fresh = itertools.count()


def fresh(prefix='x', sort='I'):
    return var(f'{prefix}!{next(_fresh)}', sort)


def _node(op, args, sort):
    fv = EMPTY
    h = 0
    for a in args:
        if isinstance(a, T):
            if a.fv:
                fv = fv | a.fv if fv else a.fv
            if a.h > h:
                h = a.h
    return _mk(op, args, sort, fv, h)


def _wrapnum(v):
    return const(v)


def to_num(t):
    """Numeric value of a boolean."""
    if t.sort == 'B':
        return ite(t, ONE, ZERO)
    return t


def numsort(*ts):
    return 'R' if any(t.sort == 'R' for t in ts) else 'I'


def add(*ts):
    out = []
    c = 0
    isR = False
    for t in ts:
        t = to_num(t)
        isR = isR or t.sort == 'R'
        if t.op == 'add':
            for s in t.args:
                if isc(s):
                    c = c + cval(s)
                else:
                    out.append(s)
        elif isc(t):
            c = c + cval(t)
        else:
            out.append(t)
    if not out:
        r = const(c)
        if isR and r.sort == 'I':
            r = const(Fraction(c))
        return r
    if len(out) > 1:
        out.sort(key=_shkey)
    if not (isinstance(c, (int, Fraction)) and c == 0):
        out.append(const(c))
    if len(out) == 1:
        if isR and out[0].sort == 'I':
            return toreal(out[0])
        return out[0]
    return _node('add', tuple(out), 'R' if isR else 'I')


def toreal(t):
    t = to_num(t)
    if t.sort == 'R':
        return t
    if isc(t):
        v = cval(t)
        return const(Fraction(v)) if isinstance(v, int) else const(v)
    return _node('toreal', (t,), 'R')


def mul(*ts):
    out = []
    c = 1
    isR = False
    for t in ts:
        t = to_num(t)
        isR = isR or t.sort == 'R'
        if t.op == 'mul':
            for s in t.args:
                if isc(s):
                    c = c * cval(s)
                else:
                    out.append(s)
        elif isc(t):
            c = c * cval(t)
        else:
            out.append(t)
    if isinstance(c, (int, Fraction)) and c == 0:
        return const(Fraction(0)) if isR else ZERO
    if not out:
        r = const(c)
        if isR and r.sort == 'I':
            r = const(Fraction(c))
        return r
    if len(out) > 1:
        out.sort(key=_shkey)
    if not (isinstance(c, (int, Fraction)) and c == 1):
        out.insert(0, const(c))
    if len(out) == 1:
        if isR and out[0].sort == 'I':
            return toreal(out[0])
        return out[0]
    return _node('mul', tuple(out), 'R' if isR else 'I')


def neg(t):
    return mul(const(-1), t)


def sub(a, b):
    if a is b and not NUMERIC[0]:
        return const(Fraction(0)) if a.sort == 'R' else ZERO
    return add(a, neg(b))


def _inf(v):
    return isinstance(v, mpf) and (mpmath.isinf(v) or mpmath.isnan(v))


def div(a, b):
    a, b = to_num(a), to_num(b)
    if isc(a) and isc(b):
        x, y = cval(a), cval(b)
        if y == 0:
            if NUMERIC[0]:
                x = mpf(x.numerator) / x.denominator if isinstance(x, Fraction) else mpf(x)
                if x == 0 or mpmath.isnan(x):
                    return const(mpmath.nan)
                return const(mpmath.inf if x > 0 else -mpmath.inf)
        else:
            if isinstance(x, int):
                x = Fraction(x)
            if isinstance(x, Fraction) and isinstance(y, mpf):
                x = mpf(x.numerator) / x.denominator
            if isinstance(y, Fraction) and isinstance(x, mpf):
                y = mpf(y.numerator) / y.denominator
            return const(x / y)
    if isc(b) and cval(b) == 1:
        return toreal(a)
    if isc(b) and not isinstance(cval(b), mpf) and cval(b) != 0:
        return mul(const(Fraction(1) / cval(b)), toreal(a))
    return _node('div', (toreal(a), toreal(b)), 'R')


def tompf(x):
    if isinstance(x, bool):
        return mpf(int(x))
    if isinstance(x, Fraction):
        return mpf(x.numerator) / x.denominator
    return mpf(x)


def pow_(a, e):
    """a ** e, e a python int/Fraction or a term."""
    if isinstance(e, T) and isc(e):
        e = cval(e)
    if isinstance(e, mpf):
        if e == int(e):
            e = int(e)
        elif not NUMERIC[0]:
            e = Fraction(str(e))
    a = to_num(a)
    if isinstance(e, (int, Fraction)):
        if isinstance(e, Fraction) and e.denominator == 1:
            e = int(e)
        if e == 1:
            return a
        if isc(a):
            x = cval(a)
            if isinstance(e, int):
                if e >= 0:
                    return const(x ** e)
                if x != 0:
                    return div(ONE, const(x ** (-e)))
                if NUMERIC[0]:
                    return const(mpmath.inf)
            elif NUMERIC[0]:
                x = tompf(x)
                if x < 0:
                    return const(mpmath.nan)
                return const(x ** tompf(e))
            elif x == 0 and e > 0:
                return a
            elif x == 1:
                return a
        if e == 0:
            return const(Fraction(1)) if a.sort == 'R' else ONE
        if isinstance(e, int) and e > 0 and a.sort == 'I':
            return _node('pow', (a, const(e)), 'I')
        return _node('pow', (toreal(a), const(e)), 'R')
    if isinstance(e, mpf):
        x = tompf(cval(a)) if isc(a) else None
        if x is not None:
            return const(x ** e)
    # general power a**e = exp(e log a)
    return fn('exp', mul(e, fn('log', a)))


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a.sort == 'B' and b.sort == 'B':
        return or_(and_(c, a), and_(not_(c), b))
    if a.sort == 'K' or b.sort == 'K':
        return _node('ite', (c, a, b), 'K')
    a, b = to_num_noite(a), to_num_noite(b)
    if a.sort != b.sort:
        a, b = toreal(a), toreal(b)
        if a is b:
            return a
    if c.op == 'not':
        return _node('ite', (c.args[0], b, a), a.sort)
    return _node('ite', (c, a, b), a.sort)


def to_num_noite(t):
    if t.sort == 'B':
        if t is TRUE:
            return ONE
        if t is FALSE:
            return ZERO
        return _node('ite', (t, ONE, ZERO), 'I')
    return t


def not_(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == 'not':
        return a.args[0]
    if a.op == 'lt':
        return le(a.args[1], a.args[0])
    if a.op == 'le':
        return lt(a.args[1], a.args[0])
    return _node('not', (a,), 'B')


def and_(*ts):
    out = []
    for t in ts:
        if t is FALSE:
            return FALSE
        if t is TRUE:
            continue
        if t.op == 'and':
            for s in t.args:
                if s not in out:
                    out.append(s)
        elif t not in out:
            out.append(t)
    for t in out:
        if not_(t) in out:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return _node('and', tuple(out), 'B')


def or_(*ts):
    out = []
    for t in ts:
        if t is TRUE:
            return TRUE
        if t is FALSE:
            continue
        if t.op == 'or':
            for s in t.args:
                if s not in out:
                    out.append(s)
        elif t not in out:
            out.append(t)
    for t in out:
        if not_(t) in out:
            return TRUE
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return _node('or', tuple(out), 'B')


def _linkey(a, b):
    """difference of a - b as {atom: coeff}, const; for cheap syntactic comparison."""
    d = {}
    c = 0

    def go(t, k):
        nonlocal c
        if t.op == 'add':
            for s in t.args:
                go(s, k)
        elif t.op == 'toreal':
            go(t.args[0], k)
        elif isc(t):
            c = c + k * cval(t)
        elif t.op == 'mul' and isc(t.args[0]) and not isinstance(cval(t.args[0]), mpf):
            rest = t.args[1:]
            s = rest[0] if len(rest) == 1 else _node('mul', rest, t.sort)
            if s.op in ('add', 'toreal'):
                go(s, k * cval(t.args[0]))
            else:
                d[s] = d.get(s, 0) + k * cval(t.args[0])
        else:
            d[t] = d.get(t, 0) + k

    go(a, 1)
    go(b, -1)
    return {k: v for k, v in d.items() if v != 0}, c


def lt(a, b):
    a, b = to_num(a), to_num(b)
    if isc(a) and isc(b):
        return const(bool(cval(a) < cval(b)))
    d, c = _linkey(a, b)
    if not d:
        return const(bool(c < 0))
    return _node('lt', (a, b), 'B')


def le(a, b):
    a, b = to_num(a), to_num(b)
    if isc(a) and isc(b):
        return const(bool(cval(a) <= cval(b)))
    d, c = _linkey(a, b)
    if not d:
        return const(bool(c <= 0))
    return _node('le', (a, b), 'B')


def eq(a, b):
    if a is b:
        if isc(a) and isinstance(cval(a), mpf) and mpmath.isnan(cval(a)):
            return FALSE
        return TRUE
    if a.sort == 'B' and b.sort == 'B':
        if a is TRUE:
            return b
        if b is TRUE:
            return a
        if a is FALSE:
            return not_(b)
        if b is FALSE:
            return not_(a)
        return or_(and_(a, b), and_(not_(a), not_(b)))
    if a.sort == 'K' or b.sort == 'K':
        return _node('eq', (a, b), 'B')
    a, b = to_num(a), to_num(b)
    if isc(a) and isc(b):
        return const(bool(cval(a) == cval(b)))
    d, c = _linkey(a, b)
    if not d:
        return const(bool(c == 0))
    if a.id > b.id:
        a, b = b, a
    return _node('eq', (a, b), 'B')


def ne(a, b):
    return not_(eq(a, b))


def idiv(a, b):
    if isc(a) and isc(b) and cval(b) != 0:
        v = cval(a) // cval(b)
        if isinstance(v, mpf) or a.sort == 'R' or b.sort == 'R':
            return const(tompf(v)) if NUMERIC[0] else const(Fraction(v))
        return const(int(v))
    if isc(b) and cval(b) == 1:
        return a
    if a.sort == 'R' or b.sort == 'R':
        return toreal(fn('floor', div(a, b), sort='I'))
    return _node('idiv', (a, b), 'I')


def mod(a, b):
    if isc(a) and isc(b) and cval(b) != 0:
        return const(cval(a) % cval(b))
    if a.sort == 'R' or b.sort == 'R':
        return sub(a, mul(b, idiv(a, b)))
    return _node('mod', (a, b), 'I')


def max_(a, b):
    return ite(le(b, a), a, b)


def min_(a, b):
    return ite(le(a, b), a, b)


_numfn = {
    'exp': lambda x: mpmath.exp(x),
    'log': lambda x: mpmath.log(x) if x > 0 else (mpmath.mpf('-inf') if x == 0 else mpmath.nan),
    'sin': mpmath.sin, 'cos': mpmath.cos, 'tanh': mpmath.tanh, 'tan': mpmath.tan,
    'erf': mpmath.erf,
    'atan': mpmath.atan,
    'sigmoid': lambda x: 1 / (1 + mpmath.exp(-x)),
}


SYMMETRIC = {'M:inv_s', 'M:sqrtm_s'}      # functions symmetric in their last two arguments


def fn(name, *args, sort='R'):
    args = tuple(args)
    if name in SYMMETRIC and args[-1].id < args[-2].id:
        args = args[:-2] + (args[-1], args[-2])
    if name == 'floor':
        a = to_num(args[0])
        if a.sort == 'I':
            return a
        if isc(a):
            return const(int(mpmath.floor(tompf(cval(a))))) if isinstance(cval(a), mpf) else const(
                cval(a).__floor__())
        return _node('fn', ('floor', a), 'I')
    if name == 'trunc':
        a = to_num(args[0])
        if a.sort == 'I':
            return a
        if isc(a):
            v = cval(a)
            return const(int(v))
        return ite(le(ZERO, a), fn('floor', a), neg(fn('floor', neg(a))))
    if len(args) == 1 and name in _numfn:
        a = to_num(args[0])
        if isc(a):
            v = cval(a)
            if NUMERIC[0] or isinstance(v, mpf):
                return const(_numfn[name](tompf(v)))
            if v == 0:
                if name in ('sin', 'tanh', 'tan', 'erf', 'atan'):
                    return const(Fraction(0))
                if name in ('exp', 'cos'):
                    return const(Fraction(1))
            if v == 1 and name == 'log':
                return const(Fraction(0))
        args = (toreal(a),)
    return _node('fn', (name,) + args, sort)


def lam(vs, dims, body):
    """Binder over the symbols vs (fresh 'I' symbols), ranging over [0, dims)."""
    h = body.h + 1
    for d in dims:
        h = max(h, d.h + 1)
    new = tuple(var(f'%{h}_{i}', 'I') for i in range(len(vs)))
    body = subst(body, dict(zip(vs, new)))
    names = frozenset(v.args[0] for v in new)
    fv = body.fv - names
    for d in dims:
        fv = fv | d.fv
    return _mk('lam', (len(vs), tuple(dims), body), 'L', fv, h)


def lam_open(l, vs):
    n, dims, body = l.args
    h = l.h
    m = {var(f'%{h}_{i}', 'I'): vs[i] for i in range(n)}
    return subst(body, m)


def lam_apply(l, args):
    return lam_open(l, args)


_sub_memo = {}


def rebuild(t, args):
    op = t.op
    if op == 'add':
        return add(*args)
    if op == 'mul':
        return mul(*args)
    if op == 'div':
        return div(*args)
    if op == 'pow':
        return pow_(args[0], args[1])
    if op == 'ite':
        return ite(*args)
    if op == 'lt':
        return lt(*args)
    if op == 'le':
        return le(*args)
    if op == 'eq':
        return eq(*args)
    if op == 'and':
        return and_(*args)
    if op == 'or':
        return or_(*args)
    if op == 'not':
        return not_(*args)
    if op == 'idiv':
        return idiv(*args)
    if op == 'mod':
        return mod(*args)
    if op == 'toreal':
        return toreal(args[0])
    if op == 'fn':
        return fn(*args, sort=t.sort)
    if op == 'child':
        return child(*args)
    if op == 'chain':
        return chain(*args)
    raise ValueError(op)


def subst(t, m):
    """Simultaneous substitution of variables (T 'v' nodes)."""
    if not m:
        return t
    names = frozenset(v.args[0] for v in m)
    memo = {}

    def go(t):
        if not (t.fv & names):
            return t
        r = memo.get(t)
        if r is not None:
            return r
        if t.op == 'v':
            r = m.get(t, t)
        elif t.op == 'lam':
            n, dims, body = t.args
            vs = [fresh('b') for _ in range(n)]
            # open, substitute, close
            b = lam_open(t, vs)
            b = go2(b)
            r = lam(vs, tuple(go(d) for d in dims), b)
        else:
            args = tuple(go(a) if isinstance(a, T) else a for a in t.args)
            r = rebuild(t, args)
        memo[t] = r
        return r

    def go2(b):
        return go(b)

    return go(t)


def replace(t, f, memo=None):
    """Bottom-up rewriting: f(node) -> replacement or None, applied after children (not under changed binders' vars)."""
    if memo is None:
        memo = {}

    def go(t):
        r = memo.get(t)
        if r is not None:
            return r
        if t.op in ('c', 'v'):
            r = t
        elif t.op == 'lam':
            n, dims, body = t.args
            vs = [fresh('b') for _ in range(n)]
            b0 = lam_open(t, vs)
            b = go(b0)
            nd = tuple(go(d) for d in dims)
            r = t if (b is b0 and nd == dims) else lam(vs, nd, b)
        else:
            args = tuple(go(a) if isinstance(a, T) else a for a in t.args)
            r = t if args == t.args else rebuild(t, args)
        s = f(r)
        if s is not None:
            r = s
        memo[t] = r
        return r

    return go(t)


def subterms(t, under_binders=True, seen=None):
    if seen is None:
        seen = set()
    stack = [t]
    while stack:
        t = stack.pop()
        if t in seen:
            continue
        seen.add(t)
        yield t
        if t.op == 'lam' and not under_binders:
            stack.extend(t.args[1])
            continue
        for a in t.args:
            if isinstance(a, T):
                stack.append(a)
            elif isinstance(a, tuple):
                stack.extend(x for x in a if isinstance(x, T))


# ---- keys -----------------------------------------------------------------
def rootkey(name):
    return var(name, 'K')


def child(k, n, i):
    if k.op == 'ite':
        return ite(k.args[0], child(k.args[1], n, i), child(k.args[2], n, i))
    return _node('child', (k, n, i), 'K')


def chain(k, n, c, m):
    """m-fold descent k -> child(k, n, c)."""
    if isc(m):
        for _ in range(int(cval(m))):
            k = child(k, n, c)
        return k
    return _node('chain', (k, n, c, m), 'K')


def skey(name, *ctx):
    """A fresh, named key of a specification, indexed by ctx."""
    k = rootkey('spec:' + name)
    for c in ctx:
        k = child(k, const(0), c)
    return k


# ---- printing ---------------------------------------------------------------
def pretty(t, depth=12):
    if depth <= 0:
        return '…'
    p = lambda x: pretty(x, depth - 1) if isinstance(x, T) else str(x)
    op = t.op
    if op == 'c':
        v = cval(t)
        if isinstance(v, mpf):
            return mpmath.nstr(v, 10)
        return str(v)
    if op == 'v':
        return t.args[0]
    if op == 'add':
        return '(' + ' + '.join(p(a) for a in t.args) + ')'
    if op == 'mul':
        return '*'.join(p(a) for a in t.args)
    if op == 'div':
        return f'({p(t.args[0])}/{p(t.args[1])})'
    if op == 'pow':
        return f'{p(t.args[0])}^{p(t.args[1])}'
    if op == 'toreal':
        return p(t.args[0])
    if op in ('lt', 'le', 'eq', 'idiv', 'mod'):
        s = {'lt': '<', 'le': '<=', 'eq': '==', 'idiv': '//', 'mod': '%'}[op]
        return f'({p(t.args[0])} {s} {p(t.args[1])})'
    if op == 'ite':
        return f'ite({p(t.args[0])}, {p(t.args[1])}, {p(t.args[2])})'
    if op in ('and', 'or', 'not'):
        return f'{op}({", ".join(p(a) for a in t.args)})'
    if op == 'fn':
        return f'{t.args[0]}({", ".join(p(a) for a in t.args[1:])})'
    if op == 'lam':
        n, dims, body = t.args
        return f'(\\{",".join(f"%{t.h}_{i}<{p(dims[i])}" for i in range(n))}. {p(body)})'
    if op == 'child':
        return f'{p(t.args[0])}/{p(t.args[2])}:{p(t.args[1])}'
    if op == 'chain':
        return f'{p(t.args[0])}/({p(t.args[2])}:{p(t.args[1])})^{p(t.args[3])}'
    return f'{op}{t.args}'
