"""mkseed.py FILE: makes the seeded bugs described in FILE (a python list of dicts id, property, file, edits, demo, needs, breaks),
confirms each in a scratch copy and writes /verif/seeded/<id>/. Options: --only ID ..."""
import sys, os, subprocess, shutil, json
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BL = json.load(open('/opt/vp/BASELINE.json'))
def run(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), capture_output=True, text=True, **k)
def make(b):
    tmp = '/tmp/seed%d' % os.getpid()
    r = tmp + '/repo'
    if os.path.exists(tmp): shutil.rmtree(tmp)
    os.makedirs(tmp)
    subprocess.check_call(['cp', '-a', '/repo', r])
    try:
        d = tmp + '/demo'
        shutil.copytree(H + '/tools/seedlib', d)
        open(d + '/demo.py', 'w').write(b['demo'])
        os.chmod(d + '/demo.sh', 0o755)
        a = run([d + '/demo.sh'], r)
        if a.returncode != 0: return 'demo fails on the unchanged tree: ' + a.stdout[-500:] + a.stderr[-700:]
        orig = {}
        root = run('git rev-list --max-parents=0 HEAD', r).stdout.split()
        for f, old, new in b['edits']:
            p = r + '/pyogp/lib/base/' + f
            s = open(p, 'rb').read()
            nl = b'\r\n' if b'\r\n' in s else b'\n'
            o = old.encode().replace(b'\n', nl); n = new.encode().replace(b'\n', nl)
            if s.count(o) != 1: return 'text occurs %d times: %s' % (s.count(o), old)
            open(p, 'wb').write(s.replace(o, n))
        a = run([d + '/demo.sh'], r)
        if a.returncode == 0: return 'demo passes with the bug'
        msg = (a.stdout + a.stderr).strip().splitlines()
        diff = subprocess.run(['git', 'diff'], cwd=r, capture_output=True).stdout
        # the changed lines have to be original ones
        base = run('git log --format=%H --reverse', r).stdout.split()
        fixes = [l.split()[0] for l in run('git log --format="%H %s"', r).stdout.splitlines() if l.split(' ', 1)[1].startswith('fix:')]
        for l in run('git diff -U0', r).stdout.splitlines():
            if l.startswith('--- a/'): cur = l[6:].strip()
            if l.startswith('@@'):
                h = l.split()[1][1:].split(',')
                st = int(h[0]); cnt = int(h[1]) if len(h) > 1 else 1
                if cnt:
                    bl = run('git blame -s -l -L %d,+%d HEAD -- %s' % (st, cnt, cur), r).stdout
                    for x in bl.splitlines():
                        if any(x.lstrip('^').startswith(q[:38]) for q in fixes): print('   WARNING: changes a line of a fix: ' + x[40:])
        out = tmp + '/out.json'
        # test in place of /repo
        patch = tmp + '/p.diff'
        open(patch, 'wb').write(diff)
        if subprocess.run(['git', '-C', '/repo', 'apply', patch]).returncode: return 'patch does not apply'
        try:
            a = run('bash /opt/vp/build.sh', '/repo')
            t = run('bash /opt/vp/test.sh ' + out, '/repo')
            res = json.load(open(out))
        finally:
            run('git checkout -- .', '/repo')
        passed = res['passed']
        stable = BL['stable']
        missing = [x for x in stable if x not in passed]
        if missing: return 'breaks stable tests: %s' % missing[:3]
        t = H + '/seeded/' + b['id']
        if os.path.exists(t): shutil.rmtree(t)
        shutil.copytree(d, t)
        open(t + '/patch.diff', 'wb').write(diff)
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(t + '/meta.json', 'w'), indent=1)
        return 'ok  (%s)' % msg[-1][:150]
    finally:
        shutil.rmtree(tmp)
ns = {}
exec(open(sys.argv[1]).read(), ns)
for b in ns['BUGS']:
    if len(sys.argv) > 2 and b['id'] not in sys.argv[2:]: continue
    print(b['id'], make(b), flush=True)
run('bash /opt/vp/build.sh', '/repo')
