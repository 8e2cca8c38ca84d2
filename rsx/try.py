import sys, tempfile, json, time
sys.path.insert(0,'/verif/rsx')
import run
h=sys.argv[1]; defs=[a for a in sys.argv[3:] if not a.startswith('--')]
opts={}
for a in sys.argv[3:]:
    if a.startswith('--'):
        k,v=a[2:].split('='); opts[k]=eval(v)
w=tempfile.mkdtemp(dir='/tmp')
b=run.Build(w); irs=b.get(sys.argv[2].split(','))
job=dict(id='t',harness=h,defs=defs,irs=irs,opts=opts,work=w)
r=run.run_job(job)
r.pop('funcs',None)
print(json.dumps(r,indent=1,default=str))
if r.get('violations'):
    exe=run.native_build(job,w,'t')
    for v in r['violations']: print(run.replay(exe,v['inputs'],w+'/vals'))
import shutil; shutil.rmtree(w)
