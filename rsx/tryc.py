import sys, tempfile, json, time, shutil
sys.path.insert(0,'/verif/rsx')
import run, cb
h=sys.argv[1]; defs=[a for a in sys.argv[3:] if not a.startswith('--')]
opts={}
for a in sys.argv[3:]:
    if a.startswith('--'):
        k,v=a[2:].split('=',1); opts[k]=eval(v)
w=tempfile.mkdtemp(dir='/tmp')
g=cb.GB(w); gbs=g.get(sys.argv[2].split(','))
job=dict(id='t',harness=h,defs=defs,gbs=gbs,work=w,groups=sys.argv[2].split(',')); job.update(opts)
r=cb.run_cbmc(job)
for a,e in r['asserts'].items(): print(a,e)
r.pop('asserts')
print(json.dumps({k:v for k,v in r.items() if k!='repo_funcs'},indent=1,default=str)[:4000])
if r.get('violations'):
    job['irs']=[(s,None) for s in run.sources(job['groups'])]
    exe=run.native_build(job,w,'t',sanitize=opts.get('san',False))
    for v in r['violations']: print(v['msg'], run.replay(exe,v['inputs'],w+'/vals')); print(v['inputs'])
shutil.rmtree(w)
