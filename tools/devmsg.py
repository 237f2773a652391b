import sys,json; sys.path.insert(0,'/verif/tools')
import vlib, msgscn as M
from concurrent.futures import ThreadPoolExecutor
n=int(sys.argv[1]); seed=int(sys.argv[2]) if len(sys.argv)>2 else 1
exe=M.driver(); sc=M.scenarios(n,seed)
with ThreadPoolExecutor(8) as ex: ev=list(ex.map(lambda s:M.run(exe,s),sc))
v=vlib.validate('Trace_Messages',[vlib.Trace(f'm{i}',e,[s]) for i,(s,e) in enumerate(zip(sc,ev))],tag='devmsg')
print(len(v.rejected),'rejected')
for t,k,why,out in v.rejected[:int(sys.argv[3]) if len(sys.argv)>3 else 4]:
    print('====',t.name,k,why[:1500]); open('/tmp/h.txt','w').write('\n'.join(t.meta[0])+'\n')
    for e in t.events[max(0,k-3) if 'par' not in str(t.events[k].get('e')) else k:k+1]: print('   ',json.dumps(e)[:500])

    e=t.events[k]
    if e['e']=='par':
        for n,g in e['got'].items():
            seq={}
            for d in g: seq.setdefault(tuple(d[3]) if isinstance(d[3],list) else d[3],0); seq[tuple(d[3]) if isinstance(d[3],list) else d[3]]+=1
            print(n,len(g),{q for q in set((d[0],str(d[1]),d[2],d[4]) for d in g)},'dups',[q for q,c in seq.items() if c>1][:4])
