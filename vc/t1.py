import sys,importlib,time
import build,llir,core
m=importlib.import_module('props.'+sys.argv[1])
P=llir.Program([build.ir(u if not u.startswith('probe/') else build.HERE+'/vc/'+u) for u in m.UNITS])
t=time.time(); bad=0
for f in m.FUNCS:
    if len(sys.argv)>2 and sys.argv[2] not in f.label: continue
    if len(sys.argv)>3: f.opts['debug']=1
    r=core.verify(P,f,getattr(m,'CONTRACTS',None))
    s='%-70s %-11s obl=%d paths=%d loops=%d t=%.2f %s'%(f.label[-90:],r.status,len(r.obls),r.paths,r.loops,r.time,r.note)
    if r.status!='ok':
        bad+=1; print(s)
        for o in r.obls:
            if o['status']!='valid': print('   ',o['name'],o['status'],o['goal'][:120],'\n      ',(o['model'] or '')[:160].replace('\n',' '))
    elif len(sys.argv)>2: print(s); 
print(len(m.FUNCS),'bad',bad,time.time()-t)
