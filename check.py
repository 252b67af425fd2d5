#!/opt/veriftools/pyvenv/bin/python3
"""check.py PROPERTY [--tier quick|thorough]: decide one property on /repo's working tree."""
import sys, os, json, time, subprocess, threading, queue, argparse, multiprocessing, tempfile, shutil, glob, hashlib
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'pyvc'))
sys.path.insert(0, os.path.join(HERE, 'contracts'))
ROOT = os.environ.get('VC_ROOT', '/repo')
SITE = '/opt/vp/pyogp/site'
EVIDENCE = os.environ.get('VC_EVIDENCE') or os.path.join(HERE, 'evidence')

def java():
    return os.environ.get('VC_JAVA') or shutil.which('java') or '/usr/bin/java'

class Jython(object):
    """the real code: contract units evaluated under Jython"""
    def __init__(self):
        self.start()
    def start(self):
        env = dict(os.environ, LC_ALL='C.UTF-8', PYTHONDONTWRITEBYTECODE='1', VC_ROOT=ROOT)
        cp = '/usr/share/java/jython.jar:/usr/share/java/xercesImpl.jar'
        cmd = [java(), '-Xss8m', '-XX:+UseSerialGC', '-XX:TieredStopAtLevel=1', '-cp', cp, '-Dpython.home=/usr/share/jython',
               '-Dpython.cachedir.skip=true', '-Dpython.path=%s:%s:%s' % (os.path.join(HERE, 'jython', 'stub'), ROOT, SITE),
               'org.python.util.jython', '-B', os.path.join(HERE, 'jython', 'server.py')]
        self.err = tempfile.TemporaryFile()
        self.p = subprocess.Popen(cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, env=env)
        self.q = queue.Queue()
        threading.Thread(target=self._read, args=(self.p, self.q), daemon=True).start()
        self.at = None
    def _read(self, p, q):
        for l in p.stdout:
            try: q.put(json.loads(l))
            except ValueError: pass
        q.put(None)
    def send(self, **c):
        try:
            self.p.stdin.write((json.dumps(c) + '\n').encode()); self.p.stdin.flush()
        except (BrokenPipeError, OSError):
            pass
    def get(self, timeout=60):
        """the next answer; {'hang': ..} if nothing comes for the time, {'dead': ..} if the process ended"""
        while True:
            try:
                m = self.q.get(timeout=timeout)
            except queue.Empty:
                return {'hang': self.at}
            if m is None:
                self.err.seek(0)
                return {'dead': self.err.read()[-2000:].decode('latin-1'), 'at': self.at}
            if 'at' in m:
                self.at = (m['unit'], m['at'])
                continue
            return m
    def kill(self):
        try: self.p.kill(); self.p.wait()
        except OSError: pass
    def restart(self, to, mods, prop):
        self.kill()
        self.start()
        self.send(cmd='ast', to=to); self.get(120)
        self.send(cmd='load', modules=mods, prop=prop); return self.get(120)

def modules_of(prop):
    out = []
    for f in sorted(os.listdir(os.path.join(HERE, 'contracts'))):
        if f.endswith('.py') and f.startswith('c') and f[:3].lower() == prop.lower():
            out.append(f[:-3])
    return out

_P = {}
def prove_one(args):
    prop, name, tree_file, tier, deadline = args
    try:
        import prove
        key = (tree_file, tier)
        vc = prove.load_contracts(prop)
        if key not in _P:
            try:
                _P[key] = prove.Prover(json.load(open(tree_file)), ROOT, tier, deadline)
            except Exception as e:
                return {'unit': name, 'error': 'the prover cannot load the repository: %s: %s' % (type(e).__name__, e), 'obligations': 0, 'discharged': 0,
                        'failed': [], 'names': {}, 'paths': 0, 'queries': 0, 'solver_secs': 0, 'secs': 0, 'backends': {}, 'touched': [], 'covers': [], 'assumed': [], 'bounded': None}
        P = _P[key]
        u = [u for u in vc.of(prop) if u.name == name][0]
        r = P.run(u)
        for f in r['failed']:
            f['model'] = prove.enc(f['model']) if f['model'] else None
        return r
    except MemoryError:
        return {'unit': name, 'error': 'out of memory', 'obligations': 0, 'discharged': 0, 'failed': [], 'names': {}, 'paths': 0, 'queries': 0,
                'solver_secs': 0, 'secs': 0, 'backends': {}, 'touched': [], 'covers': [], 'assumed': [], 'bounded': None}

def flatten(model):
    """choices for the real code out of a counterexample"""
    out = {}
    for k, v in (model or {}).items():
        if isinstance(v, dict) and not ({'b', 'u', 'i', 'f', 'name', 'opaque', 'uni'} & set(v)):
            out.update(v)
        else:
            out[k] = v
    def big(v):
        if isinstance(v, int) and not isinstance(v, bool) and abs(v) >= 2 ** 53: return {'i': str(v)}
        if isinstance(v, float): return {'f': repr(v)}
        return v
    return dict((k, big(v)) for k, v in out.items())

def known_findings():
    out = []
    try:
        for l in open(os.path.join(HERE, 'known-findings.txt')):
            l = l.rstrip('\n')
            if l.startswith('known: '):
                d = {}
                for part in l[7:].split(' | '):
                    k, _, v = part.partition('=')
                    d[k.strip()] = v.strip()
                out.append(d)
    except IOError:
        pass
    return out

TRUSTED = [
    'pyvc: this symbolic interpreter for the Python 2 subset of the repository, its models of builtins, struct, re, uuid and llsd (pyvc/models.py), and its loop rule (pyvc/loops.py)',
    'z3 and, where z3 gives no answer, cvc5',
    'the parse trees Jython 2.7 gives for /repo (jython/dumpast.py)',
]

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    a = ap.parse_args()
    prop, tier = a.prop, a.tier if a.tier in ('quick', 'thorough') else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    quick = tier == 'quick'
    prove_until = t0 + (600 if quick else 700)
    tmp = tempfile.mkdtemp(prefix='vc-')
    rdir = os.path.join(EVIDENCE, 'replays')
    os.makedirs(rdir, exist_ok=True)
    for f in glob.glob(os.path.join(rdir, prop + '-*')):
        os.unlink(f)
    violations = []
    known = [k for k in known_findings() if k.get('property') == prop]
    def violation(kind, unit, name, data, nfif):
        for k in known:
            if k.get('unit') == unit and k.get('obligation') == name and k.get('input', '') in json.dumps(data.get('choices', data.get('detail', ''))):
                print('KNOWN-FINDING: property=%s %s' % (prop, k.get('what', name)))
                return
        if any(v[0] == unit and (v[1] == name or (nfif and not v[2])) for v in violations): return
        path = os.path.join(rdir, '%s-%d.json' % (prop, len(violations) + 1))
        data = dict(data, property=prop, unit=unit, obligation=name, kind=kind,
                    how_to_replay=('python3-vt %s/replay.py %s' % (HERE, path)) if not nfif else 'no failing input found; the failed obligation and the output of the verifier are below')
        json.dump(data, open(path, 'w'), indent=1)
        violations.append((unit, name, nfif, path))
        print('VIOLATION property=%s replay=%s%s' % (prop, path, ' no-failing-input-found' if nfif else ''), flush=True)
        print('  %s: %s %s' % (unit, name, str(data.get('detail', ''))[:400]), flush=True)
    try:
        mods = modules_of(prop)
        J = Jython()
        tree = os.path.join(tmp, 'ast.json')
        J.send(cmd='ast', to=tree)
        syntax = []
        while True:
            m = J.get(120)
            if 'syntax' in m: syntax.append(m); continue
            break
        if 'ast' not in m:
            violation('error', '', 'the repository can be read', {'detail': str(m)}, True)
            return finish(prop, tier, seed, t0, [], {}, violations, mods, J, tmp)
        for s in syntax:
            violation('error', '', 'the repository can be parsed', {'detail': s['detail']}, True)
        J.send(cmd='load', modules=mods, prop=prop)
        loaded = J.get(180)
        import prove
        vc = prove.load_contracts(prop)
        units = vc.of(prop)
        sym = [u for u in units if u.mode != 'conc']
        conc = [u for u in units if u.mode != 'sym']
        pool = multiprocessing.Pool(min(7, max(1, len(sym))), maxtasksperchild=None)
        order = sorted(sym, key=lambda u: -u.weight)
        pend = [(u, pool.apply_async(prove_one, ((prop, u.name, tree, tier, prove_until),))) for u in order]
        conc_res = {}
        if 'loaded' not in loaded:
            violation('error', '', 'the contracts can be loaded with the real code', {'detail': str(loaded)[:3000]}, True)
            conc = []
        found = set()
        def concrete(u, frm, runs, secs, name=None):
            J.send(cmd='run', prop=prop, unit=u.name, runs=runs, secs=secs, **{'from': frm})
            m = J.get(secs + 60)
            c = conc_res.setdefault(u.name, {'runs': 0, 'checks': 0, 'skipped': 0})
            if 'hang' in m or 'dead' in m:
                at = J.at
                if 'hang' in m and at:
                    violation('hang', u.name, u.name + ': terminates', {'seed': at[1], 'choices': None, 'detail': 'the real code does not end for the input drawn with this seed'}, False)
                else:
                    violation('crash', u.name, u.name + ': runs', {'seed': at and at[1], 'detail': str(m)[:2000]}, True)
                found.add(u.name)
                J.restart(tree, mods, prop)
                return
            if 'done' not in m:
                violation('error', u.name, u.name + ': runs', {'detail': str(m)[:2000]}, True)
                return
            c['runs'] += m['runs']; c['checks'] += m['checks']; c['skipped'] += m['skipped']
            b = m['bad']
            if b:
                found.add(u.name)
                violation('concrete', u.name, b['name'], {'choices': b.get('choices'), 'seed': b['seed'], 'detail': b.get('detail', ''), 'traceback': b.get('tb', '')}, bool(b.get('harness')))
        budget = 40.0 if quick else 150.0
        share = budget / max(1, len(conc))
        for u in conc:
            concrete(u, seed * 100000, u.runs * (1 if quick else 8), max(2.0, share))
        results = {}
        for u, r in pend:
            left = max(5, prove_until + 60 - time.time())
            try:
                results[u.name] = r.get(left)
            except multiprocessing.TimeoutError:
                results[u.name] = {'unit': u.name, 'error': 'budget: out of time', 'obligations': 0, 'discharged': 0, 'failed': [], 'names': {}, 'paths': 0, 'queries': 0,
                                   'solver_secs': 0, 'secs': 0, 'backends': {}, 'touched': [], 'covers': [], 'assumed': [], 'bounded': u.bounded}
        pool.terminate()
        # replay counterexamples of failed obligations on the real code
        for u in sym:
            r = results[u.name]
            if not r['failed'] and not r['error']:
                continue
            done = False
            if u.mode == 'both' and 'loaded' in loaded:
                tried = 0
                for f in r['failed']:
                    if not f['model'] or tried >= 12: continue
                    tried += 1
                    ch = flatten(f['model'])
                    J.send(cmd='replay', prop=prop, unit=u.name, choices=ch, seed=seed)
                    m = J.get(60)
                    if 'hang' in m:
                        violation('hang', u.name, u.name + ': terminates', {'choices': ch, 'detail': 'the real code does not end'}, False)
                        J.restart(tree, mods, prop); done = True; break
                    if 'dead' in m: J.restart(tree, mods, prop); continue
                    b = m.get('result')
                    if b and not b['ok']:
                        violation('counterexample', u.name, b['name'], {'choices': b.get('choices', ch), 'detail': b.get('detail', ''), 'traceback': b.get('tb', ''),
                                                                       'verifier': f}, bool(b.get('harness')))
                        done = True
                        break
                if not done and u.name not in found:
                    n = len(violations)
                    concrete(u, seed * 100000 + 50000, 3000, 25.0 if quick else 60.0)
                    done = len(violations) > n
            if u.name in found: done = True
            if not done:
                f = r['failed'][0] if r['failed'] else {'name': u.name + ': verified', 'detail': r['error']}
                violation('obligation', u.name, f['name'], {'detail': f.get('detail') or r['error'], 'error': r['error'], 'failed_obligations': r['failed'][:20]}, True)
        finish(prop, tier, seed, t0, units, results, violations, mods, J, tmp, conc_res)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return 1 if violations else 0

def finish(prop, tier, seed, t0, units, results, violations, mods, J, tmp, conc_res=None):
    J.send(cmd='quit')
    J.kill()
    conc_res = conc_res or {}
    ob = sum(r['obligations'] for r in results.values())
    di = sum(r['discharged'] for r in results.values())
    full = [u for u in units if u.mode != 'conc' and not u.bounded]
    bounded = [u for u in units if u.bounded]
    be = {}
    for r in results.values():
        for k, v in r['backends'].items(): be[k] = be.get(k, 0) + v
    touched = sorted(set(t for r in results.values() for t in r['touched']))
    contracts = sorted(set(f for u in units for f in u.funs))
    obf = sum(results[u.name]['obligations'] for u in full if u.name in results)
    dif = sum(results[u.name]['discharged'] for u in full if u.name in results)
    assumptions = []
    for m in mods:
        mm = sys.modules.get(m)
        assumptions += list(getattr(mm, 'ASSUMPTIONS', []))
    level = 'proof' if obf else 'exploration'
    cov = {
        'obligations': obf, 'discharged': dif,
        'checker_cmd': 'cd %s && ./check.py %s --tier %s' % (HERE, prop, tier),
        'trusted_base': TRUSTED,
        'explanation': 'obligations generated by symbolic execution of the parse trees of the current source, for unbounded inputs; bounded units are counted apart',
        'backends': be,
        'solver_s': round(sum(r['solver_secs'] for r in results.values()), 2),
        'paths': sum(r['paths'] for r in results.values()),
        'solver_queries': sum(r['queries'] for r in results.values()),
        'functions_under_contract': contracts,
        'functions_executed_symbolically': touched,
        'units': [dict(unit=u.name, kind='bounded: ' + u.bounded if u.bounded else ('conc' if u.mode == 'conc' else 'proof'),
                       **dict((k, results[u.name][k]) for k in ('obligations', 'discharged', 'paths', 'secs', 'error') if u.name in results)) for u in units],
        'obligation_names': sorted(set(n for r in results.values() for n in r['names']))[:400],
        'bounded_obligations': ob - obf, 'bounded_discharged': di - dif,
        'evaluations': sum(c['runs'] for c in conc_res.values()),
        'distinct_nontrivial': sum(c['runs'] - c['skipped'] for c in conc_res.values()),
        'rule': 'the same contract units evaluated on the real code under Jython with drawn inputs (each run another seed; runs whose precondition fails are not counted)',
        'concrete_checks': sum(c['checks'] for c in conc_res.values()),
        'samples': [{'unit': u, 'runs': c['runs'], 'checks': c['checks']} for u, c in list(conc_res.items())[:10]],
    }
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov, 'assumptions': sorted(set(assumptions + GENERAL)),
          'wall_s': round(time.time() - t0, 2), 'violations': len(violations)}
    json.dump(ev, open(os.path.join(EVIDENCE, prop + '.json'), 'w'), indent=1)
    print('%s %s: %d/%d obligations proved (%d units), %d/%d bounded, %d concrete runs, %d violations, %.1fs' % (
        prop, tier, dif, obf, len(full), di - dif, ob - obf, cov['evaluations'], len(violations), time.time() - t0))
    return 1 if violations else 0

GENERAL = [
    'Python integers are mathematical integers and floats are treated as reals; packing a float rounds it by an uninterpreted function of its width (idempotent, exact on values read from the wire); NaN and infinities are not modelled',
    'struct.pack of an out-of-range integer may raise struct.error or give any bytes (CPython and Jython differ)',
    'a dict iterates in insertion order; the logging calls, sleep and the scheduler have no effect on the state',
    'one thread: no other greenlet runs between two statements',
]

if __name__ == '__main__':
    sys.exit(main())
