# shared by both worlds (Python 2 under Jython: the real code; Python 3: the prover)
UNITS = []

class Unit(object):
    def __init__(self, prop, name, fn, mode, funs, bounded, runs, weight, bases=()):
        self.prop = prop          # property id or a tuple of them
        self.name = name
        self.fn = fn
        self.mode = mode          # 'both', 'sym' or 'conc'
        self.funs = funs          # functions whose contract this unit is
        self.bounded = bounded    # None, or the stated bound
        self.runs = runs          # concrete runs in the quick tier
        self.weight = weight
        self.bases = bases        # (name, fn(W)): concrete state made once

def unit(prop, name, mode='both', funs=(), bounded=None, runs=200, weight=1, bases=()):
    def d(fn):
        UNITS.append(Unit(prop, name, fn, mode, funs, bounded, runs, weight, bases))
        return fn
    return d

def of(prop):
    return [u for u in UNITS if u.prop == prop or (isinstance(u.prop, tuple) and prop in u.prop)]
