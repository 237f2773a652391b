import sys; sys.path.insert(0,'/verif/tools')
import vlib, execscn as X, json, time
from collections import Counter
focus=sys.argv[1]; n=int(sys.argv[2]); seed=sys.argv[3] if len(sys.argv)>3 else '1'
d,exe=vlib.build_sim('SIM_verif')
S=X.scenarios(focus,n,seed)
t=time.time()
res=X.run_all(d,exe,'dev_'+focus,[(f's{i}',s.text(),s.input_py()) for i,s in enumerate(S)])
print('ran',time.time()-t); t=time.time()
tr=[vlib.Trace(f's{i}',X.normalise(s,*res[f's{i}']),s) for i,s in enumerate(S)]
v=vlib.validate('Trace_Sched',tr,tag='dev_'+focus)
print('tlc',time.time()-t,v.validated,v.events,'rej',len(v.rejected), Counter(t.events[-1]['ret'] for t in tr))
for t,k,why,out in v.rejected[:int(sys.argv[4]) if len(sys.argv)>4 else 6]:
    print('==',t.name,k,why); 
    for e in t.events[max(1,k-6):k+3]: print('   ',json.dumps(e))
