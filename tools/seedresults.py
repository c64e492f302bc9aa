#!/usr/bin/env python3
"""Development aid: run every check (-own: the check of its property) on every planted bug, in scratch copies; writes seed_results.json."""
import json, os, shutil, subprocess, sys, tempfile, concurrent.futures as cf
AN = '/tmp/an.seeds'
shutil.copy('/verif/.build/an', AN)
ids = [json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
ids = [i for i in ids if i[0] != 'N']
res = '/verif/tools/seed_results.json'
done = json.load(open(res)) if os.path.exists(res) and '-c' in sys.argv else {}
def one(s):
    d, vd = tempfile.mkdtemp(prefix='sr'), tempfile.mkdtemp(prefix='srv')
    try:
        shutil.copytree('/repo/src', d + '/src')
        shutil.copy('/verif/known_findings.txt', vd)
        subprocess.run(['git', 'apply', '--unsafe-paths', '--directory=' + d, f'/verif/seeded/{s}/patch.diff'], cwd='/', check=True)
        hit, odd = [], []
        own = json.load(open(f'/verif/seeded/{s}/meta.json'))['property']
        for i in ([own] if '-own' in sys.argv else ids):
            e = dict(os.environ, VERIF_REPO=d, VERIF_DIR=vd)
            try: r = subprocess.run([AN, i], env=e, capture_output=True, text=True, timeout=800)
            except subprocess.TimeoutExpired: odd.append(i); continue
            if r.returncode == 1: hit.append(i)
            elif r.returncode: odd.append(i)
        return s, hit, odd
    finally:
        shutil.rmtree(d); shutil.rmtree(vd)
todo = [s for s in sorted(os.listdir('/verif/seeded')) if s not in done]
with cf.ThreadPoolExecutor(int(os.environ.get('W', 5))) as ex:
    for s, hit, odd in ex.map(one, todo):
        done[s] = hit
        own = json.load(open(f'/verif/seeded/{s}/meta.json'))['property']
        print(s, own, 'caught' if own in hit else 'MISSED', hit, odd, flush=True)
        json.dump(done, open(res, 'w'), indent=0, sort_keys=True)
