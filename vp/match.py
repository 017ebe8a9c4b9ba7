"""Correspondence between the random draws and loops of the code and those of its contract.

Code draws are grouped into families by the derivation path of their key; contract draws are named.  A candidate
correspondence is chosen with the floating-point evaluator, then *assumed* (it is an injective renaming of independent
draws) and every remaining equality is proved.
"""
import itertools
import time
from .terms import *
from .terms import const as C, _node
from .ctx import CTX, Unsupported, entails
from . import norm as N
from . import fakejax as fj

IID = ('normal', 'uniform', 'cat', 'randint')


def key_path(k):
    els = []
    while True:
        if k.op == 'child':
            els.append(('c', k.args[1], k.args[2]))
            k = k.args[0]
        elif k.op == 'chain':
            els.append(('h', (k.args[1], k.args[2]), k.args[3]))
            k = k.args[0]
        else:
            break
    els.reverse()
    # fold single descents into a preceding chain
    out = []
    for e in els:
        if out and e[0] == 'c' and out[-1][0] == 'h' and out[-1][1] == (e[1], e[2]):
            out[-1] = ('h', out[-1][1], add(out[-1][2], ONE))
        else:
            out.append(e)
    return k, out


class Family:
    def __init__(self, name, kind, np_, sig, pattern, tid):
        self.name, self.kind, self.np, self.sig, self.pattern, self.tid = name, kind, np_, sig, pattern, tid
        self.nc = len(pattern)
        self.ranks = None

    def __repr__(self):
        return f'{self.name}<{self.kind}>{[None if p is None else pretty(p) for p in self.pattern]}'


class Fams:
    """Canonicalises the draws of one side."""

    def __init__(self, side):
        self.side = side           # 'code' | 'spec'
        self.by = {}
        self.list = {}
        self.memo = {}
        self.bases = {}

    def canon(self, t):
        return replace(t, self._f, self.memo)

    def _f(self, t):
        if t.op == 'fn' and isinstance(t.args[0], str) and t.args[0].startswith('D:'):
            return self.draw(t)
        return None

    def draw(self, t):
        _, kind, rank = t.args[0].split(':')
        rank = int(rank)
        args = t.args[1:]
        key = args[0]
        if key.op == 'ite':
            a = _node('fn', (t.args[0], key.args[1]) + args[1:], t.sort)
            b = _node('fn', (t.args[0], key.args[2]) + args[1:], t.sort)
            return ite(key.args[0], self.draw(a), self.draw(b))
        rest = args[1:]
        idx = rest[len(rest) - rank:] if rank else ()
        dims = rest[len(rest) - 2 * rank:len(rest) - rank] if rank else ()
        params = rest[:len(rest) - 2 * rank]
        if kind == 'perm':
            params = (dims[0],)
        root, els = key_path(key)
        holes, skel = [], []
        if root.op == 'fn' and root.args[0] == 'L':
            lid, c, ctx, k, _ = fj.loop_parts(root)
            holes += list(ctx) + [k]
            skel.append(('L', lid, c))
        elif root.op == 'v':
            skel.append(root.args[0])
        else:
            raise Unsupported(f'key {root}')
        spec = root.op == 'v' and root.args[0].startswith('spec:')
        for e in els:
            if e[0] == 'h':
                holes.append(e[2])
                skel.append(('h',) + e[1])
            elif spec or not isc(e[1]):
                holes.append(e[2])
                skel.append(('c', None if spec else N.simp(e[1])))
            elif not isc(N.simp(e[2])):
                holes.append(e[2])
                skel.append(('c', e[1]))
            else:
                skel.append(('k', e[1], N.simp(e[2])))
        nh = len(holes)
        coords = tuple(holes) + tuple(idx)
        sig = (kind, tuple(skel), len(params), rank)
        pattern = []
        for j, h in enumerate(coords):
            closed = j < nh and not spec and not any('!' in v or v.startswith('%') for v in h.fv)
            pattern.append(N.simp(h) if closed else None)
        pattern = tuple(pattern)
        base = self.bases.setdefault(sig, f'{self.side[0]}{len(self.bases)}' if not spec else root.args[0][5:] + '~' + str(rank))
        fam = self.by.get((sig, pattern))
        if fam is None:
            nm = base if spec else f'{base}.{sum(1 for s, _ in self.by if s == sig)}'
            fam = Family(nm, kind, len(params), sig, pattern, t.id)
            self.by[(sig, pattern)] = fam
            self.list[nm] = fam
            fam.nh = nh
        fam.tid = min(fam.tid, t.id)
        return fn(f'W:{kind}:{fam.name}:{len(params)}', *params, *coords, sort=t.sort)


# ---- renaming ---------------------------------------------------------------
def tau_apply(tau, t, n):
    if tau == 'id':
        return t
    if tau == 'rev':
        return sub(sub(n, ONE), t)
    return add(t, C(tau))


class Rename:
    """code family -> (contract family, picks); picks[j] = (code coordinate, tau, size)"""

    def __init__(self, m):
        self.m = m
        self.memo = {}

    def __call__(self, t):
        return replace(t, self._f, self.memo)

    def _f(self, t):
        if t.op == 'fn' and isinstance(t.args[0], str) and t.args[0].startswith('W:'):
            _, kind, fam, np_ = t.args[0].split(':')
            np_ = int(np_)
            if fam in self.m:
                sf, picks = self.m[fam]
                co = t.args[1 + np_:]
                return fn(f'W:{kind}:{sf}:{np_}', *t.args[1:1 + np_], *[tau_apply(tau, co[j], n) for j, tau, n in picks], sort=t.sort)
        return None


def hole_size(fam, j):
    """range of the j-th hole of a code family when it is a child index"""
    q = 0
    for e in fam.sig[1]:
        if isinstance(e, tuple) and e[0] == 'L':
            q += 0
            continue
        if isinstance(e, tuple) and e[0] in ('h', 'c'):
            if q == j:
                return e[1] if e[0] == 'c' and isinstance(e[1], T) else None
            q += 1
    return None


def candidates(cf, sf):
    """ways of mapping the coordinates of code family cf to those of contract family sf"""
    out = []
    if cf.kind != sf.kind or cf.np != sf.np:
        return out
    opts = [tuple(range(cf.nc))]
    const = [j for j in range(cf.nc) if cf.pattern[j] is not None]
    if const:
        opts.append(tuple(j for j in range(cf.nc) if j not in const))
        for r in range(1, len(const)):
            for d in itertools.combinations(const, r):
                opts.append(tuple(j for j in range(cf.nc) if j not in d))
    for keep in opts:
        if len(keep) != sf.nc:
            continue
        perms = [tuple(range(len(keep)))]
        if cf.kind in IID and len(keep) <= 3:
            perms = list(itertools.permutations(range(len(keep))))
        elif cf.kind == 'perm':
            perms = [p + (len(keep) - 1,) for p in itertools.permutations(range(len(keep) - 1))]
        for p in perms:
            co = [keep[q] for q in p]
            taus = []
            for j in co:
                ts = [('id', None)]
                n = hole_size(cf, j)
                if n is not None:
                    ts.append(('rev', n))
                if j < cf.nh:
                    ts += [(1, None), (-1, None)]
                taus.append(ts)
            for tt in itertools.product(*taus):
                if sum(1 for a, _ in tt if a != 'id') > 1:
                    continue
                cost = sum(1 for a, _ in tt if a != 'id') + (0 if p == tuple(range(len(p))) else 1)
                out.append((cost, (sf.name, tuple((j, a, n) for j, (a, n) in zip(co, tt)))))
    out.sort(key=lambda x: x[0])
    return out


def compatible(cf1, m1, cf2, m2):
    """may two code families share a contract family?  Only as the same map on one key skeleton."""
    if m1[0] != m2[0]:
        return True
    if cf1.sig != cf2.sig:
        return False
    return m1[1] == m2[1] and len(m1[1]) == cf1.nc


def assignments(cfs, sfs, cap=400):
    """candidate maps in order of increasing distance from the identity"""
    cfs = sorted(cfs, key=lambda f: f.tid)
    sfs = sorted(sfs, key=lambda f: f.tid)
    opts = []
    for f in cfs:
        same = [g for g in sfs if g.kind == f.kind]
        rank = sum(1 for g in cfs if g.kind == f.kind and g.tid < f.tid)
        o = []
        for pos, g in enumerate(same):
            for cost, m in candidates(f, g):
                o.append((cost * 2 + abs(pos - rank), m))
        o.sort(key=lambda x: x[0])
        opts.append(o[:12])
        if not o:
            return
    # best-first over total cost
    import heapq
    if not cfs:
        yield {}
        return
    start = tuple(0 for _ in cfs)

    def cost(ix):
        return sum(o[i][0] for o, i in zip(opts, ix))
    heap = [(cost(start), start)]
    seen = {start}
    n = 0
    while heap and n < cap:
        c, ix = heapq.heappop(heap)
        for q in range(len(ix)):
            if ix[q] + 1 < len(opts[q]):
                nx = ix[:q] + (ix[q] + 1,) + ix[q + 1:]
                if nx not in seen:
                    seen.add(nx)
                    heapq.heappush(heap, (cost(nx), nx))
        ms = [opts[q][i][1] for q, i in enumerate(ix)]
        if all(compatible(cfs[a], ms[a], cfs[b], ms[b]) for a in range(len(ms)) for b in range(a)):
            n += 1
            yield {f.name: m for f, m in zip(cfs, ms)}


# ---- loops ---------------------------------------------------------------------
def loop_closure(ts, lookup):
    """all (lid, comp) reachable from the terms"""
    seen, todo = [], list(ts)
    done = set()
    vis = set()
    while todo:
        t = todo.pop()
        for s in subterms(t, seen=vis):
            if fj.is_L(s):
                lid, c, *_ = fj.loop_parts(s)
                if (lid, c) not in done:
                    done.add((lid, c))
                    seen.append((lid, c))
                    init, step = lookup(lid, c)
                    todo += [init, step]
    return sorted(seen)
