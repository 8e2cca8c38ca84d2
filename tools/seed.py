#!/usr/bin/env python3
"""Confirm planted bugs: seed.py ID... [--check]: applies, builds, runs the stable tests, runs the demo both ways (and the property's check with --check)."""
import sys, os, subprocess, json
V='/verif/seeded'
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,**k)
def stable():
    sh('bash /opt/vp/test.sh /tmp/seed_o.json'); r=json.load(open('/tmp/seed_o.json')); return sorted(set(json.load(open('/opt/vp/BASELINE.json'))['stable'])-set(r['passed']))
def one(i,check):
    d=V+'/'+i; m=json.load(open(d+'/meta.json')); out=[]
    assert not sh('git -C /repo status --porcelain').stdout.strip(), "repo dirty"
    sh('bash /opt/vp/build.sh'); r=sh('bash %s/demo.sh'%d,cwd='/repo',timeout=300); out.append('clean demo rc=%d %s'%(r.returncode,(r.stdout+r.stderr)[-200:] if r.returncode else ''))
    r=sh('git -C /repo apply %s/patch.diff'%d)
    if r.returncode: print(i,'PATCH FAILS',r.stderr); return
    try:
        r=sh('bash /opt/vp/build.sh'); out.append('build rc=%d'%r.returncode); out.append('missing tests %s'%stable())
        r=sh('bash %s/demo.sh'%d,cwd='/repo',timeout=300); out.append('patched demo rc=%d %s'%(r.returncode,(r.stdout+r.stderr)[-300:]))
        if check:
            r=sh('VERIF_SEED=1 VERIF_TIER=quick python3-vt /verif/check.py %s'%m['property'],timeout=1000); v=[l for l in r.stdout.splitlines() if l.startswith('VIOL')]
            out.append('check rc=%d %s | %s'%(r.returncode,v[:2],r.stdout.strip().splitlines()[-1][:200] if r.stdout.strip() else r.stderr[-300:]))
    finally:
        sh('git -C /repo checkout -- .'); sh('bash /opt/vp/build.sh')
    print(i,m['property']); [print('   ',o) for o in out]; sys.stdout.flush()
for i in [a for a in sys.argv[1:] if not a.startswith('--')] or sorted(os.listdir(V)): one(i,'--check' in sys.argv)
