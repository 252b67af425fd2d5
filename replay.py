#!/opt/veriftools/pyvenv/bin/python3
"""replay.py FILE: evaluate a reported failing input again on the real code"""
import sys, json, tempfile, os
import check
d = json.load(open(sys.argv[1]))
J = check.Jython()
t = tempfile.mkdtemp()
J.send(cmd='ast', to=os.path.join(t, 'a')); J.get(120)
J.send(cmd='load', modules=check.modules_of(d['property']), prop=d['property']); J.get(120)
if d.get('choices') is not None:
    J.send(cmd='replay', prop=d['property'], unit=d['unit'], choices=d['choices'], seed=d.get('seed', 1))
else:
    J.send(cmd='run', prop=d['property'], unit=d['unit'], runs=1, secs=30, **{'from': d.get('seed', 1)})
print(json.dumps(J.get(60), indent=1))
J.kill()
