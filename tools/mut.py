#!/usr/bin/env python3
"""Development aid: apply textual mutants to a scratch copy of /repo/src and
run checks on them.  usage: mut.py FILE.txt [filter]
FILE.txt holds blocks:   @ name | property[,property] | file\n<<<\nold\n===\nnew\n>>>
A property written !X must stay quiet (behaviour-preserving edit)."""
import os, re, shutil, subprocess, sys, tempfile, concurrent.futures as cf
src = open(sys.argv[1]).read()
flt = sys.argv[2] if len(sys.argv) > 2 else ''
blocks = re.findall(r'^@ (.*?) \| (.*?) \| (.*?)\n((?:<<<\n.*?\n===\n.*?>>>\n)+)', src, re.S | re.M)
def one(b):
    name, props, f, body = b
    d = tempfile.mkdtemp(prefix='mut')
    try:
        shutil.copytree('/repo/src', d + '/src')
        if os.path.exists('/repo/go.mod'): shutil.copy('/repo/go.mod', d)
        for old, new in re.findall(r'<<<\n(.*?)\n===\n(.*?)>>>\n', body, re.S):
            new = new[:-1] if new.endswith('\n') else new
            p = d + '/src/' + f
            s = open(p).read()
            if s.count(old) < 1: return name, 'OLD NOT FOUND', ''
            s = s.replace(old, new, 1)
            open(p, 'w').write(s)
        out = []
        for pr in props.split(','):
            neg = pr.startswith('!')
            pr = pr.lstrip('!')
            vd = tempfile.mkdtemp(prefix='mutv')
            shutil.copy('/verif/known_findings.txt', vd) if os.path.exists('/verif/known_findings.txt') else None
            e = dict(os.environ, VERIF_REPO=d, VERIF_DIR=vd)
            r = subprocess.run(['/verif/.build/an', pr], env=e, capture_output=True, text=True)
            shutil.rmtree(vd)
            good = (r.returncode == 0) if neg else (r.returncode == 1)
            out.append((pr, good, r.returncode, (r.stdout+r.stderr)[:700] if (not good or os.environ.get('V')) else ''))
        return name, out, ''
    finally:
        shutil.rmtree(d)
with cf.ThreadPoolExecutor(6) as ex:
    for name, out, _ in ex.map(one, [b for b in blocks if flt in b[0] or flt in b[1]]):
        if isinstance(out, str): print('??', name, out); continue
        for pr, good, rc, txt in out:
            print('ok  ' if good else 'MISS', name, pr, 'rc=%d' % rc)
            if txt: print(txt)
