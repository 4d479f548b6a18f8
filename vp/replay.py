"""Replay of a counterexample: rebuild the harness with /repo's current sources and run it on the recorded inputs.
Exit 1 if the property is violated again, 0 if not."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import driver

d = sys.argv[1]
j = json.load(open(os.path.join(d, 'job.json')))
ctx = driver.Ctx()
try:
    ins = []
    for l in open(os.path.join(d, 'inputs.txt')):
        if l.strip() and not l.startswith('#'):
            a, b = l.split()
            ins.append((b, '', int(a, 16)))
    rc, txt, so = ctx.replay(j['job'], ins, j['mode'], timeout=60)
    print(txt, so, 'exit', rc)
    sys.exit(0 if rc == 0 else 1)
finally:
    ctx.close()
