"""Run the contract units of a property symbolically."""
import sys, os, json, time, traceback, importlib
HERE = os.path.dirname(os.path.abspath(__file__))
CON = os.path.join(os.path.dirname(HERE), 'contracts')
for p in (HERE, CON):
    if p not in sys.path:
        sys.path.insert(0, p)
sys.setrecursionlimit(30000)
import z3
from values import *
import engine, interp, models, symworld, loops
from engine import Budget

ROOTS = ['pyogp.lib.base.message.message_handler', 'pyogp.lib.base.message.udpdispatcher', 'pyogp.lib.base.message_manager',
         'pyogp.lib.base.event_queue', 'pyogp.lib.base.caps', 'pyogp.lib.base.helpers', 'pyogp.lib.base.datatypes',
         'pyogp.lib.base.events', 'pyogp.lib.base.settings', 'pyogp.lib.base.exc', 'pyogp.lib.base.message.llsd_builder',
         'pyogp.lib.base.message.template_parser', 'pyogp.lib.base.network.net', 'pyogp.lib.base.network.stdlib_client',
         'pyogp.lib.base.message.udpserializer', 'pyogp.lib.base.message.udpdeserializer', 'pyogp.lib.base.message.template_dict',
         'pyogp.lib.base.message.factory', 'pyogp.lib.base.message.data', 'pyogp.lib.base.message.llsd_sender',
         'pyogp.lib.base.message.message_dot_xml']

def roomy(f, *a):
    """f(*a), with room for the frames of all it calls (CPython maps and unmaps memory at each crossing of a small chunk else)"""
    return f(*a)
roomy.__code__ = roomy.__code__.replace(co_stacksize=(1 << 21) + 1)

class Prover(object):
    def __init__(self, trees, root, tier='quick', deadline=None):
        thorough = tier == 'thorough'
        self.E = engine.Engine(timeout_ms=60000 if thorough else 15000, feas_ms=4000 if thorough else 2000,
                               max_paths=200000 if thorough else 40000, deadline=deadline)
        self.E.cross = thorough
        self.E.covers = set()
        self.E.count = 0
        self.I = interp.Interp(self.E, trees, root)
        for m in ROOTS:
            self.I.import_module(m)
        self.base = {}
        self.cap()

    def cap(self):
        self.base_heap = dict(self.E.heap)
        self.base_id = self.E.next_id

    def need(self, name, fn):
        """base state shared by the units, computed once on concrete values"""
        if name not in self.base:
            self.E.reset(self.base_heap, self.base_id)
            self.E.prefix = (); self.E.pos = 0; self.E.decisions = []; self.E.work = []
            self.base[name] = fn(symworld.SymWorld(self.E, self.I, self.base))
            if self.E.work:
                raise Unsupported('the base state is not concrete')
            self.cap()
        return self.base[name]

    def run(self, u, debug=False):
        E, I_ = self.E, self.I
        E.obligations = []; E.covers = set(); E.count = 0; E.paths = 0; E.queries = 0; E.solver_secs = 0.0
        E.backends = {}
        I_.touched = {}
        t0 = time.time()
        err = None
        live = [0]
        I_.contracts = {}
        try:
            for nm, fn in getattr(u, 'bases', ()):
                self.need(nm, fn)
            def path():
                I_.contracts = {}
                I_.nocut = False
                I_.exc_stack = []
                del I_.stack[:]
                self.undo()
                W = symworld.SymWorld(E, I_, self.base)
                u.fn(W)
                if not live[0] and E.query(None) != 'unsat':
                    live[0] = 1
            roomy(E.explore, path, self.base_heap, self.base_id)
        except Unsupported as e:
            err = 'unsupported: %s' % e
            if debug: traceback.print_exc()
        except PoisonRead as e:
            err = 'unsupported: value unknown after a loop %r' % (e.loc,)
        except Budget as e:
            err = 'budget: %s' % e
        except PyExc as e:
            v = e.value
            err = 'unexpected exception %s%r in the code under contract' % (v.cls.name if isinstance(v, Ref) else v, E.heap[v.id].get('args') if isinstance(v, Ref) else '')
            if debug: traceback.print_exc()
            m = None
            if E.query(None, E.timeout_ms) == 'sat':
                m = E.model_inputs(E.solver.model())
            E.obligations.append(engine.Obligation(u.name + ': no unexpected exception', False, 'structure', err, m))
        except RecursionError:
            err = 'unsupported: recursion'
        except (AttributeError, TypeError, KeyError, IndexError, ValueError, AssertionError, z3.Z3Exception) as e:
            err = 'engine error: %s: %s' % (type(e).__name__, e)
            err += ' ' + ' < '.join('%s:%d' % (os.path.basename(f.filename), f.lineno) for f in traceback.extract_tb(e.__traceback__)[-3:])
            if debug: traceback.print_exc()
        self.undo()
        if err is None and not live[0]:
            err = 'vacuous: no path of the contract is feasible'
        if err is None and not E.obligations:
            err = 'vacuous: no obligation'
        fails = []
        for o in E.obligations:
            if not o.ok:
                fails.append({'name': o.name, 'how': o.how, 'detail': o.detail, 'model': o.model})
        names = {}
        for o in E.obligations:
            names.setdefault(o.name, [0, 0])
            names[o.name][0 if o.ok else 1] += 1
        return {'unit': u.name, 'error': err, 'obligations': len(E.obligations),
                'discharged': sum(1 for o in E.obligations if o.ok), 'failed': fails, 'names': names,
                'paths': E.paths, 'queries': E.queries, 'solver_secs': round(E.solver_secs, 2), 'secs': round(time.time() - t0, 2),
                'backends': E.backends, 'touched': sorted(k for k in I_.touched if k.startswith('pyogp.')),
                'covers': sorted(E.covers), 'assumed': sorted(I_.contracts), 'bounded': u.bounded}

    def undo(self):
        for f in reversed(self.I.undo):
            f()
        del self.I.undo[:]

def load_contracts(prop=None):
    import vc
    for f in sorted(os.listdir(CON)):
        if f.endswith('.py') and f != 'vc.py' and f[0] in 'cx':
            if prop is None or f[:-3].lower().startswith(prop.lower()) or f[0] == 'x':
                importlib.import_module(f[:-3])
    return vc

def enc(v):
    if isinstance(v, bytes): return {'b': v.decode('latin-1')}
    if isinstance(v, dict): return dict((k, enc(x)) for k, x in v.items())
    if isinstance(v, (list, tuple)): return [enc(x) for x in v]
    return v

if __name__ == '__main__':
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('prop'); ap.add_argument('unit', nargs='?'); ap.add_argument('--ast', default='/tmp/w/ast.json')
    ap.add_argument('--loops', action='store_true');     ap.add_argument('--root', default='/repo'); ap.add_argument('--tier', default='quick'); ap.add_argument('-d', action='store_true')
    a = ap.parse_args()
    vc = load_contracts(a.prop)
    loops.DBG = a.loops
    P = Prover(json.load(open(a.ast)), a.root, a.tier)
    for u in vc.of(a.prop):
        if u.mode == 'conc' or (a.unit and a.unit not in u.name): continue
        r = P.run(u, a.d)
        print('%-50s ob %d/%d paths %d q %d %.1fs (%.1fs)%s' % (u.name, r['discharged'], r['obligations'], r['paths'], r['queries'], r['secs'], r['solver_secs'], ' ERROR ' + r['error'] if r['error'] else ''))
        seen = set()
        for f in r['failed']:
            if f['name'] in seen: continue
            seen.add(f['name'])
            print('   FAILED', f['name'], f['how'], str(f['detail'])[:600]); print('      ', str(enc(f['model']))[:500])
        if a.d: print('   ', r['touched'])
