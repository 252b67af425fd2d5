"""runs the check of its property against every seeded bug (in scratch copies) and says which are caught. Arguments: ids or property ids"""
import sys, os, subprocess, shutil, json, concurrent.futures
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.makedirs('/tmp/rs', exist_ok=True)
def one(i):
    d = H + '/seeded/' + i
    p = json.load(open(d + '/meta.json'))['property']
    r = '/tmp/rs/' + i
    if os.path.exists(r): shutil.rmtree(r)
    subprocess.check_call(['cp', '-a', '/repo', r])
    try:
        a = subprocess.run(['git', 'apply', d + '/patch.diff'], cwd=r, capture_output=True, text=True)
        if a.returncode: return i, p, 'patch does not apply', ''
        if not os.path.exists(H + '/contracts') or not [f for f in os.listdir(H + '/contracts') if f.startswith(p.lower())]: return i, p, 'no check', ''
        ev = '/tmp/rs/ev-' + i
        a = subprocess.run([H + '/check.py', p], env=dict(os.environ, VC_ROOT=r, VC_EVIDENCE=ev), capture_output=True, text=True)
        shutil.rmtree(ev, ignore_errors=True)
        v = [l for l in a.stdout.splitlines() if 'VIOLATION' in l]
        s = [l for l in a.stdout.splitlines() if l.startswith('  ')]
        return i, p, ('caught' if a.returncode == 1 and v else 'MISSED' if a.returncode == 0 else 'ERROR %s' % a.stderr[-300:]) + (' (nfif)' if v and all('no-failing' in l for l in v) else ''), (s or [''])[0][:150]
    finally:
        shutil.rmtree(r)
ids = sorted(os.listdir(H + '/seeded'))
sel = sys.argv[1:]
if sel: ids = [i for i in ids if i in sel or json.load(open(H + '/seeded/' + i + '/meta.json'))['property'] in sel]
with concurrent.futures.ThreadPoolExecutor(3) as ex:
    for r in ex.map(one, ids): print('%-22s %s %s %s' % r, flush=True)
