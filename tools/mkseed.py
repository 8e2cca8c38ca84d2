"""mk(id, property, edits=[(file, old, new)], demo_c, needs, breaks): write a planted bug"""
import os, subprocess, json, shutil
DEMO='''#!/bin/bash
# builds demo.c together with the sources in the current directory (the repository) and runs it
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
gcc -O1 -g -w -DCTRLC=1 -DLDL_LONG -DDLONG -Iinclude -Iexternal/SuiteSparse_config -Iexternal/amd/include -Iexternal/ldl/include "$D/demo.c" src/cone.c src/ctrlc.c src/ecos.c src/equil.c src/expcone.c src/kkt.c src/preproc.c src/spla.c src/splamm.c src/timer.c src/wright_omega.c ecos_bb/*.c external/amd/src/*.c external/ldl/src/*.c -lm -lpthread -o "$T/demo" %s || exit 99
cd "$T" && timeout 120 ./demo
'''
def mk(id, prop, edits, demo, needs, breaks, flags=""):
    d='/verif/seeded/'+id; os.makedirs(d,exist_ok=True)
    w='/tmp/mkseed'; shutil.rmtree(w,ignore_errors=True); subprocess.check_call(['git','clone','-q','/repo',w])
    for f,o,n in edits:
        b=open(w+'/'+f,'rb').read(); crlf=b'\r\n' in b; o=o.encode(); n=n.encode()
        if crlf: o=o.replace(b'\n',b'\r\n'); n=n.replace(b'\n',b'\r\n')
        assert b.count(o)==1,(id,f,o,b.count(o)); open(w+'/'+f,'wb').write(b.replace(o,n))
    p=subprocess.run(['git','-C',w,'diff','--binary'],capture_output=True).stdout; open(d+'/patch.diff','wb').write(p); shutil.rmtree(w)
    open(d+'/demo.c','w').write(demo); open(d+'/demo.sh','w').write(DEMO%flags); os.chmod(d+'/demo.sh',0o755)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+'/meta.json','w'),indent=1)
