#!/usr/bin/env python3
"""Authoring-time: mkseed.py ID PROP FILE <<< json {old,new,needs,breaks,demo[,edits]}  -> seeded/ID/
then tryseed to confirm it (build, tests, demo on both trees, the property's check)."""
import json, os, subprocess, sys, shutil, tempfile
V = os.environ.get('SEED_V', '/verif')
R = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('SEED_BUILD', '/opt/vp/build.sh')
TEST = os.environ.get('SEED_TEST', '/opt/vp/test.sh')
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def make(id, prop, edits, needs, breaks, demo):
    d = os.path.join(V, 'seeded', id); os.makedirs(d, exist_ok=True)
    assert sh(f'git -C {R} status --porcelain').stdout == ''
    try:
        for f, old, new in edits:
            p = R + '/' + f; s = open(p, encoding='latin-1').read()
            assert s.count(old) == 1, (f, s.count(old), old)
            open(p, 'w', encoding='latin-1').write(s.replace(old, new))
        diff = subprocess.run(f'git -C {R} diff', shell=True, capture_output=True).stdout
        open(os.path.join(d, 'patch.diff'), 'wb').write(diff)
    finally:
        sh(f'git -C {R} checkout -- .')
    open(os.path.join(d, 'demo.sh'), 'w').write(demo)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
def tryit(id, checks=None, seed='1'):
    d = os.path.join(V, 'seeded', id); meta = json.load(open(d + '/meta.json'))
    res = {}
    base = set(json.load(open('/opt/vp/BASELINE.json'))['passed']) if False else None
    tmp = tempfile.mkdtemp()
    try:
        sh('bash ' + BUILD)
        t = tempfile.mkdtemp(); sh(f'cp -r {d}/. {t}')
        r = sh(f'bash {t}/demo.sh', cwd=R); res['demo_clean'] = r.returncode
        a = sh(f'git -C {R} apply {d}/patch.diff'); assert a.returncode == 0, a.stderr
        b = sh('bash ' + BUILD); res['build'] = b.returncode
        if b.returncode == 0:
            sh(f'bash {TEST} {tmp}/o.json')
            o = json.load(open(f'{tmp}/o.json')); res['passed'] = len(o['passed'])
            bl = json.load(open('/opt/vp/BASELINE.json'))
            names = bl if isinstance(bl, list) else bl.get('passed') or bl.get('stable') or list(bl.values())[0]
            res['lost'] = sorted(set(names) - set(o['passed']))[:5]
            r = sh(f'bash {t}/demo.sh', cwd=R); res['demo_patched'] = r.returncode
            for c in checks or [meta['property']]:
                env = dict(os.environ, VERIF_SEED=seed, VERIF_TIER='quick')
                r = subprocess.run(['python3', V + '/harness/check.py', c], capture_output=True, text=True, env=env, cwd=V)
                res['check ' + c] = (r.returncode, [l for l in r.stdout.split('\n') if l][-1:], [l[:400] for l in r.stderr.split('\n') if l.startswith('violation')][:1])
                if r.returncode == 2: res['err'] = r.stderr[-500:]
    finally:
        sh(f'git -C {R} checkout -- .'); sh('bash ' + BUILD); shutil.rmtree(tmp)
    print(id, json.dumps(res, indent=0)); return res
if __name__ == '__main__':
    for i in sys.argv[1:]: tryit(i)
