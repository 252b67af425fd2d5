"""Path exploration, the path condition, and the proof obligations."""
import time, subprocess, tempfile, os
import z3
from values import *
import values
from ropes import *

class Obligation(object):
    def __init__(self, name, ok, how, detail='', model=None, secs=0.0):
        self.name = name; self.ok = ok; self.how = how; self.detail = detail; self.model = model; self.secs = secs

class Budget(Exception):
    pass

class Engine(object):
    def __init__(self, timeout_ms=20000, feas_ms=2000, max_paths=4000, deadline=None):
        self.timeout_ms = timeout_ms
        self.feas_ms = feas_ms
        self.max_paths = max_paths
        self.deadline = deadline
        self.solver_secs = 0.0
        self.queries = 0
        self.obligations = []
        self.paths = 0
        self.interp = None
        self.backends = {}
        self.reached = {}
        self.cross = False
        self.nofork = 0
        set_engine(self)

    # ------------------------------------------------------------ one path

    def reset(self, base_heap, base_id):
        self.solver = z3.Solver()
        self.solver.set('timeout', self.feas_ms)
        self.pc = []
        self.pcset = set()
        self.heap = dict(base_heap)
        self.next_id = base_id
        self.counters = {}
        self.scope = ''
        self.loopstack = []
        self.turns = []             # the turns of the loops being run, the last ones included
        self.inputs = {}
        self.keep = []
        self.memo = {}
        self.log = []
        self.wstack = []
        self.dectrace = []
        self.invs = []
        self.folds = []
        self.depth = 0
        self.written = None
        self.last_model = None
        self.ghost = {}

    def explore(self, fn, base_heap, base_id):
        """run fn on every feasible path"""
        work = [()]
        self.loopcache = {}
        seen, failed = 0, None
        while work:
            if failed is None:
                if any(not o.ok for o in self.obligations[seen:]): failed = time.time()
                seen = len(self.obligations)
            elif time.time() - failed > 30:
                return              # an obligation failed; the rest of the paths cannot mend that
            prefix = work.pop()
            self.paths += 1
            if self.paths > self.max_paths:
                raise Budget('more than %d paths' % self.max_paths)
            self.prefix = prefix
            self.pos = 0
            self.decisions = []
            self.work = work
            self.reset(base_heap, base_id)
            try:
                fn()
            except PathEnd:
                pass

    def snapshot(self):
        return (dict(self.heap), self.next_id, dict(self.counters), len(self.pc), set(self.pcset), len(self.log),
                dict(self.ghost), list(self.invs), list(self.folds), len(self.dectrace), dict(self.memo))

    def restore(self, s):
        self.heap = dict(s[0]); self.next_id = s[1]; self.counters = dict(s[2])
        del self.pc[s[3]:]
        self.pcset = set(s[4])
        del self.log[s[5]:]
        self.ghost = dict(s[6]); self.invs = list(s[7]); self.folds = list(s[8])
        del self.dectrace[s[9]:]
        self.memo = dict(s[10])

    def subexplore(self, fn, scope=None, limit=600):
        """run fn on every path from the current state, then come back to it"""
        saved = (self.prefix, self.pos, self.decisions, self.work, self.scope)
        cache, self.loopcache = self.loopcache, {}
        snap = self.snapshot()
        work = [()]
        n = 0
        try:
            while work:
                prefix = work.pop()
                n += 1
                self.paths += 1
                if n > limit or self.paths > self.max_paths:
                    raise Budget('too many paths')
                self.prefix = prefix; self.pos = 0; self.decisions = []; self.work = work
                if scope is not None:
                    self.scope = saved[4] + scope
                self.restore(snap)
                self.solver.push()
                try:
                    fn()
                except PathEnd:
                    pass
                finally:
                    self.solver.pop()
        finally:
            self.prefix, self.pos, self.decisions, self.work, self.scope = saved
            self.loopcache = cache
            self.restore(snap)

    # ------------------------------------------------------------ path condition

    def add(self, t):
        i = t.get_id()
        if i in self.pcset:
            return
        self.pcset.add(i)
        self.pc.append(t)
        self.solver.add(t)

    def assume(self, t):
        t = bv(t)
        if z3.is_true(t):
            return
        self.add(t)

    fact = assume

    def assume_feasible(self, t):
        t = z3.simplify(bv(t))
        if z3.is_false(t):
            raise PathEnd()
        self.assume(t)
        if self.query(None) == 'unsat':
            raise PathEnd()

    def query(self, t, ms=None):
        if self.deadline and time.time() > self.deadline:
            raise Budget('out of time')
        t0 = time.time()
        self.queries += 1
        self.solver.set('timeout', ms or self.feas_ms)
        if t is None:
            r = self.solver.check()
        else:
            self.solver.push()
            self.solver.add(t)
            r = self.solver.check()
            self.last_model = self.solver.model() if r == z3.sat else None
            self.solver.pop()
        self.solver_secs += time.time() - t0
        return str(r)

    def decide(self, t):
        t = z3.simplify(bv(t))
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        if self.nofork:
            raise NoFork()
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos]
            self.pos += 1
            self.decisions.append(v)
            self.dec(t if v else z3.Not(t))
            return v
        if t.get_id() in self.pcset:
            v = True
        else:
            nt = z3.simplify(z3.Not(t))
            if nt.get_id() in self.pcset:
                v = False
            else:
                yes = self.query(t) != 'unsat'
                no = (not yes) or self.query(nt) != 'unsat'
                if yes and no:
                    self.work.append(tuple(self.decisions) + (False,))
                    v = True
                else:
                    v = yes
        self.pos += 1
        self.prefix = tuple(self.decisions) + (v,)
        self.decisions.append(v)
        self.dec(t if v else z3.Not(t))
        return v

    def dec(self, t):
        self.dectrace.append(t)
        self.add(t)

    def choose(self, name, n=2):
        """unconstrained choice among n alternatives"""
        for k in range(n - 1):
            if self.decide(self.fresh(name, B)):
                return k
        return n - 1

    # ------------------------------------------------------------ symbols

    def fresh(self, name, sort):
        k = self.scope + name
        c = self.counters.get(k, 0)
        self.counters[k] = c + 1
        full = '%s!%d' % (k, c)
        if self.loopstack:
            return fun(full, *([I] * len(self.loopstack) + [sort]))(*self.loopstack)
        return z3.Const(full, sort)

    def uid(self, name):
        k = self.scope + '#' + name
        c = self.counters.get(k, 0)
        self.counters[k] = c + 1
        return '%s!%d' % (k, c)

    def fresh_atom(self, name, length=None):
        return Atom(self.uid('atom_' + name), tuple(self.loopstack), length)

    def fresh_str(self, name, length=None):
        a = self.fresh_atom(name, length)
        n = a.length()
        return norm([AT(a, 0, n)])

    # ------------------------------------------------------------ heap

    def alloc(self, kind, cls, content):
        r = Ref(self.next_id, kind, cls)
        self.next_id += 1
        self.heap[r.id] = content
        return r

    def get(self, ref):
        return self.heap[ref.id]

    def put(self, ref, content):
        if ref.frozen:
            raise Unsupported('a copied loop object is modified')
        self.heap[ref.id] = content

    def new_list(self, items=()):
        if not isinstance(items, LRope):
            items = lrope(tuple(items))
        return self.alloc('list', self.interp.LIST, items)

    def new_dict(self, entries=()):
        return self.alloc('dict', self.interp.DICT, DRep(entries))

    # ------------------------------------------------------------ equality

    def eq_term(self, a, b):
        """equality of identities (opaque values, names, constants)"""
        return self.ident(a) == self.ident(b)

    def ident(self, v):
        """identity term of a value used where only equality matters"""
        if isinstance(v, (SVal, SName, OStr, SUni)):
            return v.t
        if isinstance(v, SRef):
            return fun('ref_' + v.schema.name, *([I] * (len(v.args) + 1)))(*v.args)
        if isinstance(v, (bytes, str, type(None), bool)):
            return z3.IntVal(intern_id(v))
        if isinstance(v, Ref):
            return z3.IntVal(-10 ** 9 - v.id)
        if isinstance(v, int):
            return fun('int_id', I, I)(z3.IntVal(v))
        if isinstance(v, SInt):
            return fun('int_id', I, I)(v.t)
        if isinstance(v, (ClassV, FuncV, Builtin)):
            return z3.IntVal(intern_id(v))
        raise Unsupported('identity of %r' % (v,))

    def eq(self, a, b):
        """py2 == as bool or SBool (no user __eq__ here)"""
        if isinstance(a, Poison) or isinstance(b, Poison):
            raise PoisonRead((a if isinstance(a, Poison) else b).loc)
        if a is b:
            return True
        ni = lambda v: isinstance(v, (int, SInt, SBool, Flt))
        if ni(a) and ni(b):
            return mkbool(iv(a) == iv(b)) if not (isinstance(a, Flt) or isinstance(b, Flt)) else Flt.of(a) == Flt.of(b)
        if isinstance(a, (bytes, str)) and isinstance(b, (bytes, str)):
            if type(a) is type(b):
                return a == b
            x, y = (a, b) if isinstance(a, str) else (b, a)
            try:
                return x.encode('ascii') == y
            except UnicodeError:
                return False
        if isinstance(a, (SVal, OStr)) or isinstance(b, (SVal, OStr)):
            for x, y in ((a, b), (b, a)):
                if y is None and isinstance(x, SVal) and x.notnone:
                    return False
                if isinstance(y, bool) and isinstance(x, SVal) and x.notfalse:
                    return False
            if any(isinstance(v, (tuple, Rope, Flt)) or (isinstance(v, Ref) and v.kind != 'inst') for v in (a, b)):
                t = self.fresh('eqv', B)
                return SBool(t)
            return mkbool(self.eq_term(a, b))
        if isinstance(a, SName) or isinstance(b, SName):
            if isinstance(a, SName):
                r = a == b
            else:
                r = b == a
            return r
        if isinstance(a, Rope) or isinstance(b, Rope):
            if not (is_bytes(a) and is_bytes(b)):
                if isinstance(a, str) or isinstance(b, str):
                    x, y = (a, b) if isinstance(a, str) else (b, a)
                    try:
                        return self.eq(x.encode('ascii'), y)
                    except UnicodeError:
                        return False
                return False
            return self.rope_eq(a, b)
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            ts = [bv(self.interp.py_eq(x, y)) for x, y in zip(a, b)]
            return mkbool(z3.And(ts)) if ts else True
        for x, y in ((a, b), (b, a)):
            if isinstance(x, tuple) and isinstance(y, Ref) and y.cls is self.interp.TUPLE:
                c = self.get(y)
                if not self.decide(iv(c.length()) == len(x)):
                    return False
                ts = [bv(self.interp.py_eq(x[k], c.at(k))) for k in range(len(x))]
                return mkbool(z3.And(ts)) if ts else True
        if isinstance(a, Ref) and isinstance(b, Ref):
            if a.id == b.id:
                return True
            if a.kind == 'list' and b.kind == 'list':
                if (a.cls is self.interp.TUPLE) != (b.cls is self.interp.TUPLE):
                    return False
                x, y = self.get(a).concrete(), self.get(b).concrete()
                if x is not None and y is not None:
                    return self.eq(x, y)
                if x == () or y == ():
                    return mkbool(iv(self.get(a).length()) == iv(self.get(b).length()))
                raise Unsupported('comparison of unknown lists')
            if a.kind == 'dict' and b.kind == 'dict':
                x, y = self.get(a), self.get(b)
                if x.base is None and y.base is None:
                    if len(x.entries) != len(y.entries):
                        return False
                    ts = []
                    for k, v in x.entries:
                        f, w = self.interp.dict_lookup(y, k)
                        if not f:
                            return False
                        r = self.interp.py_eq(v, w)
                        ts.append(bv(r if isinstance(r, (bool, SBool)) else self.interp.truth(r)))
                    return mkbool(z3.And(ts)) if ts else True
                raise Unsupported('comparison of unknown dicts')
            return False
        if isinstance(a, SRef) and isinstance(b, SRef) and a.schema is b.schema:
            return mkbool(z3.And([x == y for x, y in zip(a.args, b.args)]))
        if isinstance(a, BoundV) and isinstance(b, BoundV):
            return a.f is b.f and a.self_ is b.self_
        return False

    def rope_eq(self, a, b):
        la, lb = str_len(a), str_len(b)
        if isinstance(la, int) and isinstance(lb, int):
            if la != lb:
                return False
            if la > 4096:
                raise Unsupported('comparison of long strings')
            ts = [index_str(a, i) == index_str(b, i) for i in range(la)]
            return mkbool(z3.And(ts)) if ts else True
        if len(segs_of(a)) == 1 and len(segs_of(b)) == 1:
            x, y = segs_of(a)[0], segs_of(b)[0]
            if isinstance(x, AT) and isinstance(y, AT) and x.atom.key() == y.atom.key():
                e = z3.simplify(z3.And(iv(x.off) == iv(y.off), iv(x.ln) == iv(y.ln)))
                if z3.is_true(e):
                    return True
        if isinstance(la, int) or isinstance(lb, int):
            n = la if isinstance(la, int) else lb
            if n > 256:
                raise Unsupported('comparison of long strings')
            if not (la == lb):
                return False
            x, y = (a, b)
            ts = [index_str(x, i) == index_str(y, i) for i in range(n)]
            return mkbool(z3.And(ts)) if ts else True
        raise Unsupported('comparison of unknown strings')

    # ------------------------------------------------------------ proof

    def valid(self, t, full=True):
        """is t implied by the path condition: 'unsat' (yes), 'sat', 'unknown'"""
        t = z3.simplify(bv(t))
        if z3.is_true(t):
            return 'unsat', 'simplifier'
        nt = z3.Not(t)
        r = self.query(nt, 1500 if full else self.feas_ms)
        if r != 'unknown' or not full:
            return r, 'z3'
        # a fresh solver is stronger than the incremental one
        s = z3.Solver()
        s.set('timeout', self.timeout_ms)
        s.add(self.pc)
        s.add(nt)
        t0 = time.time()
        r = str(s.check())
        if r == 'sat':
            self.last_model = s.model()
        self.solver_secs += time.time() - t0
        if r != 'unknown':
            return r, 'z3'
        r = self.cvc5(s)
        return r, 'cvc5'

    def cvc5(self, s):
        t0 = time.time()
        txt = '(set-logic ALL)\n' + s.to_smt2()
        with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
            f.write(txt)
        try:
            p = subprocess.run(['cvc5', '--tlimit=%d' % self.timeout_ms, f.name], capture_output=True, text=True,
                               timeout=self.timeout_ms / 1000.0 + 10)
            out = p.stdout.strip().splitlines()
            r = out[-1] if out else 'unknown'
        except Exception:
            r = 'unknown'
        finally:
            os.unlink(f.name)
        self.solver_secs += time.time() - t0
        return r if r == 'unsat' else 'unknown'

    def check(self, name, cond, detail=''):
        """a proof obligation"""
        t0 = time.time()
        if isinstance(cond, bool):
            cond = z3.BoolVal(cond)
        r, how = self.valid(cond)
        if r == 'unsat':
            self.obligations.append(Obligation(name, True, how, secs=time.time() - t0))
            self.backends[how] = self.backends.get(how, 0) + 1
            if self.cross and how == 'z3':
                s = z3.Solver(); s.add(self.pc); s.add(z3.Not(bv(cond)))
                c = self.cvc5(s)
                self.backends['cvc5 agrees' if c == 'unsat' else 'cvc5 no answer'] = \
                    self.backends.get('cvc5 agrees' if c == 'unsat' else 'cvc5 no answer', 0) + 1
        else:
            if r == 'sat' and self.last_model is None:
                self.query(z3.Not(bv(cond)), self.timeout_ms)
            m = None
            if r == 'sat':
                m = self.model_inputs(self.last_model)
            else:
                # any feasible point of the path is worth a try on the real code
                if self.query(None, self.timeout_ms) == 'sat':
                    m = self.model_inputs(self.solver.model())
            d = detail or str(z3.simplify(bv(cond)))[:1500]
            self.obligations.append(Obligation(name, False, how + ':' + r, d, m, time.time() - t0))
            # go on as if it held; other obligations of the path stay meaningful
            if z3.is_false(z3.simplify(bv(cond))):
                raise PathEnd()
            self.assume(cond)
            if self.query(None) == 'unsat':
                raise PathEnd()
        return r == 'unsat'

    def fail(self, name, detail):
        m = None
        if self.query(None, self.timeout_ms) == 'sat':
            m = self.model_inputs(self.solver.model())
        self.obligations.append(Obligation(name, False, 'structure', detail[:1500], m))

    def model_inputs(self, m):
        out = {}
        if m is None:
            return out
        for k, f in self.inputs.items():
            try:
                out[k] = f(m)
            except Exception:
                pass
        return out

    # structural equality of values, as obligations -------------------------------------------------

    def same(self, name, a, b, depth=0):
        """obligation: the two values are equal, all the way down"""
        try:
            ok, why = self.prove_same(a, b)
        except PyExc as e:
            ok, why = False, 'exception %r while comparing' % (self.interp.exc_name(e.value),)
        if ok:
            self.obligations.append(Obligation(name, True, 'z3'))
            self.backends['z3'] = self.backends.get('z3', 0) + 1
            return True
        m = self.model_inputs(self.fail_model) if self.fail_model is not None else None
        if m is None and self.query(None, self.timeout_ms) == 'sat':
            m = self.model_inputs(self.solver.model())
        self.obligations.append(Obligation(name, False, 'z3', 'got %s, expected %s: %s' % (
            self.show(a), self.show(b), why), m))
        return False

    fail_model = None

    def show(self, v, d=0):
        if d > 4:
            return '...'
        if isinstance(v, Ref):
            c = self.heap.get(v.id)
            if v.kind == 'inst':
                return '%s{%s}' % (v.cls.name, ', '.join('%s=%s' % (k, self.show(x, d + 1)) for k, x in c.items()))
            if v.kind == 'list' and c.concrete() is not None:
                return '[%s]' % ', '.join(self.show(x, d + 1) for x in c.concrete())
            return repr(c)[:300]
        if isinstance(v, (list, tuple)):
            return '[%s]' % ', '.join(self.show(x, d + 1) for x in v)
        return repr(v)[:600]

    def prove(self, t):
        r, how = self.valid(t)
        if r == 'unsat':
            return True, ''
        self.fail_model = self.last_model if r == 'sat' else None
        return False, '%s: %s' % (r, str(z3.simplify(bv(t)))[:400])

    def prove_same(self, a, b):
        self.fail_model = None
        return self._ps(a, b)

    def _ps(self, a, b):
        if a is b:
            return True, ''
        if isinstance(a, Poison) or isinstance(b, Poison):
            return False, 'value unknown after a loop'
        num = lambda v: isinstance(v, (int, SInt, SBool, Flt)) and not isinstance(v, bool)
        isb = lambda v: isinstance(v, (bool, SBool))
        if isb(a) and isb(b):
            return self.prove(bv(a) == bv(b))
        if (num(a) or isb(a)) and (num(b) or isb(b)):
            r = self.eq(a, b)
            return self.prove(r)
        if is_bytes(a) and is_bytes(b):
            return self.rope_same(a, b)
        if isinstance(b, (list, LRope)) or isinstance(a, (list, LRope)) or \
                (isinstance(a, Ref) and a.kind == 'list' and isinstance(b, Ref) and b.kind == 'list'):
            la, lb = self.as_lrope(a), self.as_lrope(b)
            if la is None or lb is None:
                return False, 'not both lists: %s / %s' % (self.show(a), self.show(b))
            return self.list_same(la, lb)
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False, 'tuples of different length'
            for x, y in zip(a, b):
                r = self._ps(x, y)
                if not r[0]:
                    return r
            return True, ''
        if isinstance(b, SpecObj):
            return b.match(self, a)
        if isinstance(a, SpecObj):
            return a.match(self, b)
        if isinstance(b, dict) or isinstance(a, dict):
            if isinstance(a, dict) and not isinstance(b, dict):
                a, b = b, a
            if isinstance(a, dict):
                ea = list(a.items())
            elif isinstance(a, Ref) and a.kind == 'dict' and isinstance(self.get(a), DRep) and self.get(a).base is None:
                ea = list(self.get(a).entries)
            else:
                return False, 'not a known dict: %s' % self.show(a)
            if len(ea) != len(b):
                return False, 'dicts of different size: %s / %s' % (self.show(a), b)
            for k, v in b.items():
                for k2, v2 in ea:
                    if self.truth(self.eq(k2, k)):
                        r = self._ps(v2, v)
                        if not r[0]:
                            return r
                        break
                else:
                    return False, 'key %r is missing' % (k,)
            return True, ''
        if isinstance(a, Ref) and isinstance(b, Ref) and a.kind == 'dict' and b.kind == 'dict':
            x, y = self.get(a), self.get(b)
            if isinstance(x, DRep) and isinstance(y, DRep) and x.base is None and y.base is None:
                if len(x.entries) != len(y.entries):
                    return False, 'dicts of different size'
                for k, v in x.entries:
                    f, w = self.interp.dict_lookup(y, k)
                    if not f:
                        return False, 'key %r is missing' % (k,)
                    r = self._ps(v, w)
                    if not r[0]:
                        return r
                return True, ''
        if a is None or b is None:
            if isinstance(a, SVal) or isinstance(b, SVal):
                return self.prove(self.eq(a, b))
            return False, '%s is not %s' % (self.show(a), self.show(b))
        r = self.eq(a, b)
        return self.prove(r)

    def truth(self, v):
        if isinstance(v, bool):
            return v
        return bool(v)

    def as_lrope(self, v):
        if isinstance(v, LRope):
            return v
        if isinstance(v, list):
            return lrope(tuple(v))
        if isinstance(v, Ref) and v.kind == 'list':
            return self.get(v)
        return None

    def provably(self, t):
        r, how = self.valid(t, full=False)
        return r == 'unsat'

    def forall(self, n, fn):
        """fn(i) -> (ok, why) on every path, for a fresh 0 <= i < n"""
        res = [True, '']
        def run():
            if not res[0]:
                return
            i = z3.Const(self.uid('sk'), I)
            self.assume(z3.And(i >= 0, i < iv(n)))
            if self.query(None) == 'unsat':
                return
            self.loop_index(i)
            r = fn(SInt(i))
            if not r[0]:
                res[0], res[1] = r
        self.subexplore(run, scope=self.uid('all') + '.')
        return tuple(res)

    def enter_turn(self, ts, i):
        """turn i of a loop that is run turn by turn"""
        self.turns = ts + [z3.IntVal(i)]
        for f in self.folds:
            if hasattr(f, 'unfold_at'): f.unfold(self.turns[-1])

    def loop_index(self, i):
        for f in self.folds:
            f.unfold(i)

    def paths_of(self, fn):
        """fn() -> (ok, why) on every path from here"""
        res = [True, '']
        def run():
            if not res[0]:
                return
            r = fn()
            if not r[0]:
                res[0], res[1] = r
        self.subexplore(run, scope=self.uid('p') + '.')
        return tuple(res)

    def rope_same(self, a, b):
        x, y = list(segs_of(a)), list(segs_of(b))
        while x and y:
            s, t = x[0], y[0]
            ls, lt = s.length() if not isinstance(s, FS) else None, t.length() if not isinstance(t, FS) else None
            if isinstance(s, FS) or isinstance(t, FS):
                # a fold against a fold; a constant repetition counts as one
                if ls is not None and self.provably(iv(ls) == 0):
                    x.pop(0); continue
                if lt is not None and self.provably(iv(lt) == 0):
                    y.pop(0); continue
                if isinstance(s, FS) and self.provably(iv(s.n) <= 0):
                    x.pop(0); continue
                if isinstance(t, FS) and self.provably(iv(t.n) <= 0):
                    y.pop(0); continue
                if isinstance(s, RS):
                    s = FS(Gen(lambda i, s=s: norm([BT(s.t)])), s.n)
                if isinstance(t, RS):
                    t = FS(Gen(lambda i, t=t: norm([BT(t.t)])), t.n)
                if isinstance(s, FS) and isinstance(t, FS):
                    r = self.prove(iv(s.n) == iv(t.n))
                    if not r[0]:
                        return False, 'different number of repetitions: ' + r[1]
                    if not s.gen.same(t.gen):
                        r = self.forall(s.n, lambda i: self._ps(s.gen(i), t.gen(i)))
                        if not r[0]:
                            return False, 'in a repetition: ' + r[1]
                    x.pop(0); y.pop(0)
                    continue
                if any(isinstance(u, FS) and not u.width() for u in (s, t)):
                    return False, 'a repetition against %r / %r' % (s, t)
                ls, lt = s.length(), t.length()
            if isinstance(ls, int) and ls == 0:
                x.pop(0); continue
            if isinstance(lt, int) and lt == 0:
                y.pop(0); continue
            e = z3.simplify(iv(ls) == iv(lt))
            if z3.is_true(e) or self.provably(e):
                r = self.seg_same(s, t, ls)
                if not r[0]:
                    return r
                x.pop(0); y.pop(0)
            elif self.provably(iv(ls) == 0):
                x.pop(0)
            elif self.provably(iv(lt) == 0):
                y.pop(0)
            elif self.provably(iv(ls) < iv(lt)):
                r = self.seg_same(s, t.slice(0, ls), ls)
                if not r[0]:
                    return r
                x.pop(0); y[0] = t.slice(ls, lt)
            elif self.provably(iv(lt) < iv(ls)):
                r = self.seg_same(s.slice(0, lt), t, lt)
                if not r[0]:
                    return r
                y.pop(0); x[0] = s.slice(lt, ls)
            else:
                # which one is longer differs from point to point
                rest = (list(x), list(y))
                c = iv(ls) < iv(lt)
                def both(x=norm(x), y=norm(y)):
                    if SBool(iv(ls) == iv(lt)):
                        return self.rope_same(x, y)
                    bool(SBool(c))
                    return self.rope_same(x, y)
                return self.paths_of(both)
        for s in x + y:
            r = self.prove(iv(s.length() if not isinstance(s, FS) else s.n) <= 0)
            if not r[0]:
                if isinstance(s, FS):
                    r = self.forall(s.n, lambda i: self._ps(s.gen(i), b''))
                    if r[0]:
                        continue
                return False, 'one string is longer: %r %s' % (s, r[1])
        return True, ''

    def seg_same(self, s, t, n):
        if isinstance(s, CB) and isinstance(t, CB):
            return (True, '') if s.b == t.b else (False, '%r is not %r' % (s.b, t.b))
        if isinstance(n, int) and n <= 512:
            ts = []
            for i in range(n):
                e = z3.simplify(s.at(i) == t.at(i))
                if not z3.is_true(e):
                    ts.append(e)
            return self.prove(z3.And(ts)) if ts else (True, '')
        if isinstance(s, AT) and isinstance(t, AT) and s.atom.same(t.atom):
            es = [x == y for x, y in zip(s.atom.args, t.atom.args)] + [iv(s.off) == iv(t.off)]
            e = z3.simplify(z3.And(es))
            if z3.is_true(e) or self.provably(e):
                return True, ''
        if isinstance(s, RS) and isinstance(t, RS):
            return self.prove(z3.Implies(iv(n) > 0, s.t == t.t))
        return self.forall(n, lambda i: self.prove(s.at(i) == t.at(i)))

    def list_same(self, a, b):
        x, y = list(a.segs), list(b.segs)
        while x and y:
            s, t = x[0], y[0]
            if isinstance(s, ES) and isinstance(t, ES):
                m = min(len(s.items), len(t.items))
                for i in range(m):
                    r = self._ps(s.items[i], t.items[i])
                    if not r[0]:
                        return False, 'item %d: %s' % (i, r[1])
                x.pop(0); y.pop(0)
                if len(s.items) > m: x.insert(0, ES(s.items[m:]))
                if len(t.items) > m: y.insert(0, ES(t.items[m:]))
                continue
            # lengths that are provably zero vanish
            z = False
            for l in (x, y):
                h = l[0]
                n = h.n if isinstance(h, FL) else h.length()
                if not isinstance(h, ES) and self.provably(iv(n) <= 0):
                    l.pop(0); z = True
                    break
            if z:
                continue
            if isinstance(s, FL) or isinstance(t, FL):
                if isinstance(s, GS):
                    s = FL(Gen(lambda i, s=s: lrope((s.at(i),))), s.ln)
                if isinstance(t, GS):
                    t = FL(Gen(lambda i, t=t: lrope((t.at(i),))), t.ln)
                if isinstance(s, ES) or isinstance(t, ES):
                    u, v, flip = (s, t, False) if isinstance(s, FL) else (t, s, True)
                    k = next((k for k in (1, 2, 3) if self.provably(iv(u.n) == k)), None)
                    if k is not None:
                        l = y if flip else x
                        l[0:1] = [g for i in range(k) for g in u.gen(mkint(z3.IntVal(i))).segs]
                        continue
                    return False, 'a repetition against explicit items %r / %r' % (s, t)
                r = self.prove(iv(s.n) == iv(t.n))
                if not r[0]:
                    return False, 'different number of repetitions: ' + r[1]
                if not s.gen.same(t.gen):
                    r = self.forall(s.n, lambda i: self.list_same(self.as_lrope(s.gen(i)), self.as_lrope(t.gen(i))))
                    if not r[0]:
                        return False, 'in a repetition: ' + r[1]
                x.pop(0); y.pop(0)
                continue
            ls, lt = s.length(), t.length()
            if isinstance(ls, SInt) and isinstance(t, ES) or isinstance(lt, SInt) and isinstance(s, ES):
                # explicit items against an unknown number
                q, l, m = (0, x, lt) if isinstance(ls, SInt) else (1, y, ls)
                g = l[0]
                for j in range(m + 1):
                    c = iv(g.length()) == j if j < m else iv(g.length()) >= m
                    if not self.provably(c): continue
                    l[0:1] = [LRope((g.slice(0, j),)).segs[0]] if j else []
                    if j: l[0] = GS(l[0].gen, l[0].off, j)
                    if j == m: l.insert(1, g.slice(m, g.length()))
                    break
                else:
                    def both(x=LRope(x), y=LRope(y), g=g, m=m):
                        for j in range(m):
                            if SBool(iv(g.length()) == j): break
                        return self.list_same(x, y)
                    return self.paths_of(both)
                continue
            if self.provably(iv(ls) == iv(lt)):
                cs, ct, n, k = s, t, ls if isinstance(ls, int) else lt, 'eq'
            elif self.provably(iv(ls) < iv(lt)):
                cs, ct, n, k = s, t.slice(0, ls), ls, 'lt'
            elif self.provably(iv(lt) < iv(ls)):
                cs, ct, n, k = s.slice(0, lt), t, lt, 'gt'
            else:
                def both(x=LRope(x), y=LRope(y)):
                    if SBool(iv(ls) == iv(lt)):
                        return self.list_same(x, y)
                    bool(SBool(iv(ls) < iv(lt)))
                    return self.list_same(x, y)
                return self.paths_of(both)
            if isinstance(n, int) and n <= 64:
                for i in range(n):
                    r = self._ps(cs.at(i), ct.at(i))
                    if not r[0]:
                        return False, 'item %d: %s' % (i, r[1])
            else:
                syn = isinstance(cs, GS) and isinstance(ct, GS) and cs.gen.same(ct.gen) and self.provably(iv(cs.off) == iv(ct.off))
                if not syn:
                    r = self.forall(n, lambda i: self._ps(cs.at(i), ct.at(i)))
                    if not r[0]:
                        return False, 'at some index: ' + r[1]
            x.pop(0); y.pop(0)
            if k == 'lt': y.insert(0, t.slice(ls, lt))
            if k == 'gt': x.insert(0, s.slice(lt, ls))
        for s in x + y:
            n = s.n if isinstance(s, FL) else s.length()
            r = self.prove(iv(n) <= 0)
            if not r[0]:
                if isinstance(s, FL):
                    r = self.forall(s.n, lambda i: self.list_same(self.as_lrope(s.gen(i)), LRope()))
                    if r[0]:
                        continue
                return False, 'one list is longer: %r' % (s,)
        return True, ''

class SpecObj(object):
    """expected fields of an object (given fields only)"""
    def __init__(self, fields, cls=None):
        self.fields = fields
        self.cls = cls
    def subst(self, S):
        return SpecObj(dict((k, S.val(v)) for k, v in self.fields.items()), self.cls)
    def match(self, E, a):
        if self.cls is not None:
            c = E.interp.type_of(a)
            if not any(k.name == self.cls for k in c.mro):
                return False, '%s is not a %s' % (E.show(a), self.cls)
        for k, v in self.fields.items():
            try:
                x = E.interp.getattr(a, k)
            except PyExc:
                return False, '%s has no %s' % (E.show(a), k)
            r = E._ps(x, v)
            if not r[0]:
                return False, '%s: %s' % (k, r[1])
        return True, ''
    def __repr__(self): return 'SpecObj(%r)' % (self.fields,)
