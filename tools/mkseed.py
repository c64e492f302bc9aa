#!/usr/bin/env python3
"""Development aid: make and confirm planted bugs.  usage: mkseed.py SPEC.py [filter]
SPEC.py defines SEEDS, a list of dicts: id, property, needs, breaks, edits [(file, old, new)...], pkg, test (Go test file)."""
import json, os, re, shutil, subprocess, sys, tempfile
ns = {}
exec(open(sys.argv[1]).read(), ns)
flt = sys.argv[2] if len(sys.argv) > 2 else ''
DEMO = '''#!/bin/bash
# exit 0 when the property holds for what demo_test.go does
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
echo "{\\"Replace\\": {\\"$PWD/src/%(pkg)s/zz_demo_test.go\\": \\"$here/demo_test.go.txt\\"}}" > "$tmp/o.json"
cd src || exit 2
HOME=$tmp timeout 250 go test -vet=off -count=1 -overlay "$tmp/o.json" -run TestDemo ./%(pkg)s
'''
# with 'etc', key files are below a scratch directory
ETC = '''#!/bin/bash
# exit 0 when the property holds for what demo_test.go does; key files go to a scratch directory
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
sed "s|\\"/etc/poodle\\"|\\"$tmp/etc\\"|" src/util/const_util.go > "$tmp/const.go"
grep -q "$tmp/etc" "$tmp/const.go" || exit 2
echo "{\\"Replace\\": {\\"$PWD/src/%(pkg)s/zz_demo_test.go\\": \\"$here/demo_test.go.txt\\", \\"$PWD/src/util/const_util.go\\": \\"$tmp/const.go\\"}}" > "$tmp/o.json"
cd src || exit 2
HOME=$tmp timeout 250 go test -vet=off -count=1 -overlay "$tmp/o.json" -run TestDemo ./%(pkg)s
'''
def sh(cmd, cwd):
    return subprocess.run(['bash', '-c', cmd], cwd=cwd, capture_output=True, text=True)
for s in ns['SEEDS']:
    if flt and flt not in s['id']: continue
    d = tempfile.mkdtemp(prefix='seed')
    try:
        sh('cp -a /repo/. %s/' % d, '/')
        out = '/verif/seeded/' + s['id']
        os.makedirs(out, exist_ok=True)
        open(out + '/demo.sh', 'w').write(s['demo'] if 'demo' in s else (ETC if s.get('etc') else DEMO) % s)
        os.chmod(out + '/demo.sh', 0o755)
        if 'test' in s: open(out + '/demo_test.go.txt', 'w').write(s['test'].lstrip())
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(out + '/meta.json', 'w'), indent=1)
        r0 = sh('bash %s/demo.sh' % out, d)
        bad = False
        for f, old, new in s['edits']:
            p = d + '/src/' + f
            t = open(p).read()
            if t.count(old) != 1:
                print(s['id'], 'OLD FOUND', t.count(old)); bad = True
            t = t.replace(old, new, 1)
            open(p, 'w').write(t)
        if bad: continue
        open(out + '/patch.diff', 'w').write(sh('git diff', d).stdout)
        # only original lines are changed
        base = sh("git show 9a8aeba:src/%s" % s['edits'][0][0], d).stdout
        removed = [l[1:] for l in open(out + '/patch.diff').read().splitlines() if l.startswith('-') and not l.startswith('---')]
        orig = [l for l in removed if l.strip() and l in base.splitlines()]
        b = sh('. /opt/vp/env.sh; cd src; go build ./util ./collection && go build -o /dev/null main/pkeygen.go', d)
        t = sh('. /opt/vp/env.sh; cd src; go test -json -vet=off -count=1 ./util ./collection', d)
        passed = set()
        for l in t.stdout.splitlines():
            try: j = json.loads(l)
            except ValueError: continue
            if j.get('Action') == 'pass' and j.get('Test'): passed.add(j['Package'].split('/')[-1] + '/' + j['Test'])
        lost = [x for x in json.load(open('/opt/vp/BASELINE.json'))['stable'] if '/'.join(x.split('/')[-2:]) not in passed]
        r1 = sh('bash %s/demo.sh' % out, d)
        print(s['id'], 'demo clean', r0.returncode, 'build', b.returncode, 'tests lost', lost, 'demo patched', r1.returncode, 'original lines removed', len(orig), '/', len(removed))
        if r0.returncode: print(r0.stdout[-1500:] + r0.stderr[-500:])
        if b.returncode or lost: print(b.stderr[-800:], t.stdout[-1500:])
        if not r1.returncode: print('   NOT SHOWN', r1.stdout[-500:])
        vd = tempfile.mkdtemp(prefix='mutv')
        shutil.copy('/verif/known_findings.txt', vd)
        e = dict(os.environ, VERIF_REPO=d, VERIF_DIR=vd)
        for pr in [s['property']] + s.get('also', []):
            r = subprocess.run(['/verif/.build/an', pr], env=e, capture_output=True, text=True)
            print('   check', pr, 'rc', r.returncode, '' if r.returncode == 1 else (r.stdout + r.stderr)[-300:])
        shutil.rmtree(vd)
    finally:
        shutil.rmtree(d)
