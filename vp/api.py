"""Registry of contract cases.  Case files under contracts/ use only this module and the objects S, L, X they are given,
so the same text runs symbolically (proof) and on the real library (replay / bounded stand-in)."""
import importlib.util
import os

CASES = []


class Case:
    def __init__(self, prop, name, f, targets, kw):
        self.prop, self.name, self.f, self.targets, self.kw = prop, name, f, targets, kw

    @property
    def id(self):
        return f'{self.prop}:{self.name}'


def case(prop, name, targets=(), **kw):
    def deco(f):
        CASES.append(Case(prop, name, f, list(targets), kw))
        return f
    return deco


def load_cases(root, prop=None):
    d = os.path.join(root, 'contracts')
    for fn in sorted(os.listdir(d)):
        if fn.endswith('.py') and (prop is None or fn.lower().startswith(prop.lower() + '_') or fn.lower() == prop.lower() + '.py'):
            spec = importlib.util.spec_from_file_location('contracts_' + fn[:-3], os.path.join(d, fn))
            m = importlib.util.module_from_spec(spec)
            spec.loader.exec_module(m)
    return CASES
