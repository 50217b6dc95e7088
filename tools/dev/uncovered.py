"""Functions no specific check has among the functions it analysed."""
import json,glob,ast,os
seen=set()
for f in glob.glob('/verif/evidence/*.json'):
  e=json.load(open(f))
  fs=e.get('coverage',{}).get('functions_analysed',[]) if isinstance(e,dict) else []
  if len(fs)<300: seen|=set(fs)
  else: print('generic',f,len(fs))
tot=0;miss=[]
def walk(n,pre):
  global tot
  for c in getattr(n,'body',[]):
    if isinstance(c,ast.ClassDef): walk(c,pre+'.'+c.name)
    elif isinstance(c,(ast.FunctionDef,ast.AsyncFunctionDef)):
      tot+=1
      if pre+'.'+c.name not in seen: miss.append((c.end_lineno-c.lineno,pre+'.'+c.name))
for r,d,fs in os.walk('/repo/t5x'):
  if 'examples' in r: continue
  for f in fs:
    if not f.endswith('.py') or f.endswith('_test.py') or 'test_utils' in f: continue
    p=os.path.join(r,f); mod=p[len('/repo/'):-3].replace('/','.')
    if mod.endswith('.__init__'): mod=mod[:-9]
    walk(ast.parse(open(p).read()),mod)
print(tot,len(miss))
for m in sorted(miss,reverse=True): print(*m)
