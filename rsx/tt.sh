#!/bin/bash
# short summary of one rsx job: tt.sh harness.c groups DEFS... [--opt=..]
cd /verif; timeout ${TMO:-300} python3-vt rsx/try.py h/"$@" 2>&1 | python3 -c "
import sys,json;t=sys.stdin.read()
try:
  d=json.JSONDecoder(); r,e=d.raw_decode(t); 
  if r.get('error'): print('ERROR',r['error'][-1500:])
  for k,v in r.get('asserts',{}).items(): print('  ',k,v)
  print('paths',r.get('paths'),'expl',r.get('explored'),'reach',r.get('covered'),'wall %.1f'%r['wall'],r.get('stats'),r.get('assumed'))
  print('undecided',r.get('undecided'))
  for v in r.get('violations',[]): print('VIOL',v['kind'],v['msg'],v['where'],str(v['inputs'])[:int(__import__('os').environ.get('VL','200'))])
  print(t[e:][:1500])
except Exception as x: print(x,t[-2000:])"
