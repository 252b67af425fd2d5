# Runs in Jython: gives the parse trees and evaluates contract units on the real code.
# One JSON command per line on stdin, JSON lines on the protocol stream.
import sys, os, json, time, traceback, random
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.environ.get('VC_ROOT', '/repo')
sys.path.insert(0, os.path.join(os.path.dirname(HERE), 'contracts'))
sys.path.insert(0, HERE)
out = os.fdopen(os.dup(1), 'wb', 0) if False else sys.__stdout__

class Null(object):
    def write(self, s): pass
    def flush(self): pass
sys.stdout = Null()

def send(o):
    out.write(json.dumps(o) + '\n')
    out.flush()

def enc(v):
    if isinstance(v, str): return {'b': ''.join([unichr(ord(c)) for c in v])}
    if isinstance(v, unicode): return {'u': v}
    if isinstance(v, bool) or v is None: return v
    if isinstance(v, (int, long)): return v if abs(v) < 2 ** 53 else {'i': str(v)}
    if isinstance(v, float): return {'f': repr(v)}
    if isinstance(v, dict): return v
    if hasattr(v, 'k'): return {'opaque': v.k}
    return {'?': repr(v)}

def dec(v):
    if isinstance(v, dict):
        if 'b' in v: return ''.join([chr(ord(c)) for c in v['b']])
        if 'u' in v: return v['u']
        if 'i' in v: return int(v['i'])
        if 'f' in v: return float(v['f'])
        return v
    return v

import dumpast
MINED = ([], [])

def mine(trees):
    """integer and string constants of the source"""
    ints, strs = set(), set()
    def rec(j):
        if not isinstance(j, list) or not j: return
        if j[0] == 'i' and len(j) == 2:
            try:
                v = int(j[1])
                if abs(v) < 2 ** 64: ints.add(v)
            except ValueError: pass
        elif j[0] == 's' and len(j) == 2:
            s = j[1]
            if s and len(s) <= 40:
                try: strs.add(str(s))
                except UnicodeError: pass
        for x in j:
            if isinstance(x, list): rec(x)
            elif isinstance(x, dict):
                for y in x.values(): rec(y)
    for t in trees.values(): rec(t)
    return sorted(ints), sorted(strs)

def run_unit(u, seed, choices, base):
    import concworld
    W = concworld.ConcWorld(seed, choices, MINED, base)
    r = {'unit': u.name, 'seed': seed}
    try:
        for nm, fn in u.bases:
            if nm not in base: base[nm] = fn(concworld.ConcWorld(0, None, MINED, base))
        u.fn(W)
        r['ok'] = True
    except concworld.Skip:
        r['ok'] = True; r['skip'] = True
    except concworld.CheckFailed, e:
        r['ok'] = False; r['name'] = e.name; r['detail'] = concworld.short(e.detail, 1500) if not isinstance(e.detail, str) else e.detail[:1500]
    except AttributeError, e:
        # the contract itself reaches for something that is not there: a harness problem or a defect
        tb = traceback.extract_tb(sys.exc_info()[2])
        inside = any([ROOT + '/pyogp' in t[0] for t in tb])
        r['ok'] = False; r['name'] = u.name + ': no unexpected exception'; r['detail'] = 'AttributeError %s' % (e,)
        r['harness'] = not inside
        r['tb'] = traceback.format_exc()[-1500:]
    except KeyboardInterrupt:
        raise
    except:
        t, e = sys.exc_info()[:2]
        r['ok'] = False; r['name'] = u.name + ': no unexpected exception'; r['detail'] = '%s: %s' % (getattr(t, '__name__', t), concworld.short(e))
        tb = traceback.extract_tb(sys.exc_info()[2])
        r['harness'] = not any([ROOT + '/pyogp' in x[0] for x in tb])
        r['tb'] = traceback.format_exc()[-1500:]
    for f in reversed(W.undo): f()
    r['checks'] = W.nchecks
    if not r['ok']:
        r['choices'] = dict([(k, enc(v)) for k, v in W.used.items()])
        for k in ('detail', 'tb', 'name'):
            if k in r: r[k] = ''.join([unichr(ord(c)) if ord(c) < 128 else u'?' for c in r[k]])
    return r

def main():
    global MINED
    import logging
    logging.disable(100)
    bases = {}
    vc = None
    trees = None
    while True:
        line = sys.stdin.readline()
        if not line: return
        c = json.loads(line)
        if c['cmd'] == 'ast':
            trees = {}
            for d, ds, fs in os.walk(os.path.join(ROOT, 'pyogp')):
                ds.sort()
                if 'tests' in ds: ds.remove('tests')
                for f in sorted(fs):
                    if f.endswith('.py'):
                        p = os.path.join(d, f)
                        try: trees[p] = dumpast.dump(p)
                        except SyntaxError, e: send({'syntax': p, 'detail': str(e)}); trees[p] = None
            f = open(c['to'], 'w'); json.dump(trees, f); f.close()
            MINED = mine(trees)
            send({'ast': c['to'], 'files': len(trees)})
        elif c['cmd'] == 'load':
            import importlib
            vc = __import__('vc')
            try:
                for m in c['modules']: importlib.import_module(m)
                send({'loaded': [u.name for u in vc.of(c['prop'])]})
            except Exception, e:
                send({'error': '%s' % traceback.format_exc()[-2000:]})
        elif c['cmd'] == 'run':
            us = [u for u in vc.of(c['prop']) if u.name == c['unit']]
            u = us[0]
            n = ok = skip = checks = 0
            t0 = time.time()
            bad = None
            for s in range(c['from'], c['from'] + c['runs']):
                if time.time() - t0 > c['secs'] and n >= 1: break
                send({'at': s, 'unit': u.name})
                r = run_unit(u, s, None, bases)
                n += 1; checks += r['checks']
                if r.get('skip'): skip += 1
                if not r['ok']:
                    bad = r
                    break
            send({'done': u.name, 'runs': n, 'skipped': skip, 'checks': checks, 'bad': bad, 'secs': round(time.time() - t0, 2)})
        elif c['cmd'] == 'replay':
            us = [u for u in vc.of(c['prop']) if u.name == c['unit']]
            ch = dict([(k, dec(v)) for k, v in c['choices'].items()])
            send({'at': c.get('seed', 0), 'unit': us[0].name})
            r = run_unit(us[0], c.get('seed', 0), ch, bases)
            send({'replayed': us[0].name, 'result': r})
        elif c['cmd'] == 'quit':
            return

main()
