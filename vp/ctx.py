"""Symbolic-execution context: hypotheses, path decisions, entailment."""
from .terms import *


class Unsupported(Exception):
    """The code uses something the verifier has no contract for: undecided, never a violation."""


class UnsupportedAttr(Unsupported, AttributeError):
    pass


class ShapeError(TypeError):
    """The real library would reject these shapes."""


class Infeasible(Exception):
    pass


class Ctx:
    _hk = None
    _table = {}

    @property
    def hyps(self):
        return self._hyps

    @hyps.setter
    def hyps(self, v):
        self._hyps = v
        self._hk = None

    @property
    def pc(self):
        return self._pc

    @pc.setter
    def pc(self, v):
        self._pc = v
        self._hk = None

    def hkey(self):
        k = self._hk
        if k is None:
            s = frozenset(self._hyps + self._pc)
            k = self._hk = self._table.setdefault(s, len(self._table))
        return k

    def __init__(self):
        self._pc = []
        self.hyps = []
        self.pc = []          # path condition of the current path
        self.decisions = []   # forced decisions
        self.taken = []
        self.active = False
        self.draw_hook = None

    def all_hyps(self):
        return self.hyps + self.pc


CTX = Ctx()
_entail_cache = {}


def entails(c, extra=()):
    if c is TRUE:
        return True
    if c is FALSE and not extra:
        return False
    if NUMERIC[0] and not c.fv:
        return None if c.op != 'c' else cval(c)
    from . import prover
    key = (c, CTX.hkey(), tuple(extra))
    r = _entail_cache.get(key)
    if r is None:
        hs = CTX.all_hyps() + list(extra)
        from . import bounds
        quot = not NUMERIC[0] and any(x.op in ('idiv', 'mod') for x in subterms(c, under_binders=False))
        r = quot and bounds.entails(hs, c) or prover.z3_entails(hs, c)
        if not r and not quot and not NUMERIC[0]:
            r = bounds.entails(hs, c)
        _entail_cache[key] = r
    return r


def decide(c):
    """Python-level branch on a symbolic condition."""
    if c is TRUE:
        return True
    if c is FALSE:
        return False
    if entails(c):
        return True
    if entails(not_(c)):
        return False
    if not CTX.active:
        raise Unsupported(f'branch on symbolic condition outside path exploration: {c}')
    n = len(CTX.taken)
    v = CTX.decisions[n] if n < len(CTX.decisions) else True
    CTX.taken.append(v)
    CTX.pc = CTX.pc + [c if v else not_(c)]
    return v


class Path:
    def __init__(self, pc, result, exc):
        self.pc, self.result, self.exc = pc, result, exc


def explore(f, max_paths=64):
    """Run f under every feasible sequence of branch decisions."""
    import traceback
    paths = []
    work = [[]]
    while work:
        d = work.pop()
        old = CTX.pc, CTX.decisions, CTX.taken, CTX.active
        CTX.pc, CTX.decisions, CTX.taken, CTX.active = list(old[0]), d, [], True
        try:
            res, exc = None, None
            try:
                res = f()
            except Unsupported:
                raise
            except Exception as e:
                exc = e
                exc.vp_tb = traceback.format_exc()
            taken = CTX.taken
            for i in range(len(d), len(taken)):
                if taken[i]:
                    work.append(taken[:i] + [False])
            paths.append(Path(list(CTX.pc), res, exc))
        finally:
            CTX.pc, CTX.decisions, CTX.taken, CTX.active = old
        if len(paths) > max_paths:
            raise Unsupported('too many paths')
    return paths
