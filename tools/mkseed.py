#!/usr/bin/env python3
"""mkseed.py FILE.py [ID...]: makes /verif/seeded/<id> from a table of edits and confirms each in a scratch copy of
/repo that is bind-mounted over /repo in a private mount namespace (build, demo before, patch, build, demo after, tests)."""
import json, os, subprocess, sys, shutil, re
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_SH = '''#!/bin/sh
# builds demo.c together with the library's own sources and runs it
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d)
gcc -O1 -w -std=gnu99 %s-I/repo -I/repo/_build -I/repo/fastapprox -I/usr/include/json-c $(pkg-config --cflags glib-2.0 gobject-2.0) -o "$T/demo" "$D/demo.c" /repo/*.c -ljson-c $(pkg-config --libs glib-2.0 gobject-2.0) -lm || { rm -f "$T/demo"; rmdir "$T"; exit 99; }
"$T/demo"; R=$?
rm -f "$T/demo"; rmdir "$T"; exit $R
'''
CONFIRM = r'''
set -e
mount --bind "$1" /repo
cd /repo
bash /opt/vp/build.sh >/dev/null 2>&1 || { echo BUILD0; exit 3; }
timeout 300 sh "$2/demo.sh" >"$1.d0" 2>&1 || { echo "DEMO-BEFORE $(tail -3 "$1.d0")"; exit 3; }
git apply "$2/patch.diff" || { echo APPLY; exit 3; }
bash /opt/vp/build.sh >"$1.b" 2>&1 || { echo "BUILD1 $(tail -5 "$1.b")"; exit 3; }
if timeout 300 sh "$2/demo.sh" >"$1.d1" 2>&1; then echo DEMO-AFTER-PASSES; exit 3; else r=$?; fi
[ $r -ne 99 ] || { echo DEMO-NOCOMPILE; exit 3; }
bash /opt/vp/test.sh "$1.t" >/dev/null 2>&1
echo "OK demo=$r $(tail -1 "$1.d1")"
'''


def one(s):
    sid = s['id']
    d = os.path.join(V, 'seeded', sid)
    w = '/tmp/sd/' + sid
    os.makedirs('/tmp/sd', exist_ok=True)
    os.makedirs(d, exist_ok=True)
    subprocess.run(['rm', '-rf', w])
    subprocess.check_call(['cp', '-a', '/repo', w])
    for f, a, b in s['edits']:
        p = os.path.join(w, f)
        t = open(p).read()
        n = t.count(a)
        if n != 1:
            return sid, 'EDIT matches %d times in %s: %s' % (n, f, a[:60])
        open(p, 'w').write(t.replace(a, b))
    diff = subprocess.check_output(['git', '-C', w, 'diff']).decode()
    open(d + '/patch.diff', 'w').write(diff)
    subprocess.check_call(['git', '-C', w, 'checkout', '-q', '--', '.'])
    open(d + '/demo.c', 'w').write(s['demo'])
    open(d + '/demo.sh', 'w').write(DEMO_SH % (s.get('cflags', '') and s['cflags'] + ' '))
    os.chmod(d + '/demo.sh', 0o755)
    json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']), open(d + '/meta.json', 'w'), indent=1)
    r = subprocess.run(['unshare', '-rm', 'bash', '-c', CONFIRM, 'x', w, d], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    out = r.stdout.decode().strip()
    if out.startswith('OK'):
        t = json.load(open(w + '.t'))
        base = json.load(open('/opt/vp/BASELINE.json'))['stable']
        miss = [x for x in base if x not in t['passed']]
        if miss:
            out = 'TESTS FAIL %s' % miss[:5]
    subprocess.run(['rm', '-rf', w, w + '.t', w + '.d0', w + '.d1', w + '.b'])
    if not out.startswith('OK'):
        out = 'REJECTED ' + out
    return sid, out


if __name__ == '__main__':
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    S = [s for s in ns['SEEDS'] if not sys.argv[2:] or s['id'] in sys.argv[2:]]
    with ThreadPoolExecutor(6) as ex:
        for sid, out in ex.map(one, S):
            print(sid, out[:400], flush=True)
            if not out.startswith('OK'):
                subprocess.run(['mkdir', '-p', '/tmp/rejected'])
                subprocess.run(['rm', '-rf', '/tmp/rejected/' + sid])
                shutil.move(os.path.join(V, 'seeded', sid), '/tmp/rejected/' + sid)
