#!/usr/bin/env python3
# plant.py ID PROP NEEDS BREAKS FILE OLD NEW [OLD NEW ... | @FILE2 OLD NEW ...]
# Records a planted bug under /verif/seeded/ID (demo.cpp must be there already) and confirms it in a scratch copy:
# the repository's stable tests pass with it, the demonstration passes without it and fails with it.
import subprocess, shutil, os, sys, json
i, prop, needs, breaks, file = sys.argv[1:6]
a = sys.argv[6:]
out = '/verif/seeded/' + i
d = '/tmp/w/plant%d' % os.getpid()
shutil.copytree('/repo', d, symlinks=True, ignore=shutil.ignore_patterns('_build'))
k = 0
while k < len(a):
    if a[k].startswith('@') and a[k].endswith('.hpp'):
        file = a[k][1:]; k += 1; continue
    f = d + '/include/dd/' + file
    t = open(f).read(); o, n = a[k], a[k + 1]; k += 2
    assert t.count(o) == 1, ('occurrences', t.count(o), o)
    open(f, 'w').write(t.replace(o, n))
diff = subprocess.run(['git', '-C', d, 'diff'], capture_output=True, text=True).stdout
open(out + '/patch.diff', 'w').write(diff)
json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(out + '/meta.json', 'w'), indent=1)
open(out + '/demo.sh', 'w').write('''#!/bin/bash
# exit 0: the property holds for this history; nonzero: it does not
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
g++ -std=c++17 -O1 -DNDEBUG -w -Iinclude "$(dirname "$0")/demo.cpp" -o "$d/demo" -pthread || exit 2
cd "$d" && timeout 200 ./demo
''')
os.chmod(out + '/demo.sh', 0o755)
def demo(cwd): return subprocess.run(['bash', out + '/demo.sh'], cwd=cwd, capture_output=True, text=True)
r = demo('/repo'); print('demo clean', r.returncode, (r.stdout + r.stderr)[-300:])
r = demo(d); print('demo with bug', r.returncode, (r.stdout + r.stderr)[-300:])
shutil.rmtree(d)
assert subprocess.run(['git', '-C', '/repo', 'status', '--porcelain'], capture_output=True, text=True).stdout == ''
subprocess.run(['git', '-C', '/repo', 'apply', out + '/patch.diff'], check=True)
try:
    b = subprocess.run(['bash', '/opt/vp/build.sh'], capture_output=True, text=True)
    print('build', b.returncode, b.stdout[-500:] if b.returncode else '')
    t = subprocess.run(['bash', '/verif/tools/repotests.sh'], capture_output=True, text=True); print(t.stdout[-400:])
    r = subprocess.run(['/verif/run.sh', prop], capture_output=True, text=True)
    print('check', prop, r.returncode, [l[:200] for l in (r.stdout + r.stderr).splitlines() if 'VIOL' in l][:2])
finally:
    subprocess.run(['git', '-C', '/repo', 'checkout', '--', '.'], check=True)
subprocess.run(['bash', '/opt/vp/build.sh'], capture_output=True)
