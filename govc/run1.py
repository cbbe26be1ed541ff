import sys, time
sys.path.insert(0,'/verif/govc')
from govc.ir import IR
from govc.spec import Specs
from govc import verify
ir=IR(sys.argv[1]); sp=Specs()
labels=set(sys.argv[3].split(','))|{'base'}
for p in sys.argv[2].split(','): sp.load(p)
def log(*a): print(*a,flush=True)
names=sys.argv[4:]
keep=[]
import pickle, os, json
HF='/verif/contracts/hints.json'; lab=sys.argv[3].split(',')[0]
hints=json.load(open(HF)) if os.path.exists(HF) else {}
if os.environ.get('NOHINT'): hints={}
cache='/tmp/summ_%s.pkl'%'_'.join(sorted(labels))
sums=pickle.load(open(cache,'rb')) if os.path.exists(cache) else {}
if names:
    for n in names:
        full=[f.name for f in ir.funcs.values() if f.short==n][0]
        r=verify.verify_fn(ir,sp,labels,full,set(),log=log,keep=keep,summaries=sums, hint=set(verify.tup(h) for h in verify.load_hints(HF,lab).get(n,())) if hints else set())
        if not r.error and not r.failed:
            hints=json.load(open(HF)) if os.path.exists(HF) else {}
            hints.setdefault(lab,{})[n]=sorted(r.dropped); json.dump(hints,open(HF,'w'),indent=0,sort_keys=True)
        if not r.error: sums[full]=r.summary; pickle.dump(sums,open(cache,'wb'))
        print(r.error or '', r.counts, r.backends, 'vacuous', r.vacuous, 'inlined', sorted(r.inlined))
        if r.error: print(r.trace)
        for f in r.failed: print('FAILED',f['name'],f['kind'],f['trail'],f['src'], '%.1f'%f['secs'])
else:
    t=time.time()
    rs,roots,missing=verify.run_property(ir,sp,labels,log)
    print('missing',missing)
    for r in rs.values():
        print(r.name.split('/')[-1], r.error or '', r.counts, r.backends,'vacuous',r.vacuous, 'rounds',r.rounds,'exec %.1f solver %.1f'%(r.exec_s,r.solver_s))
        if r.error: print(r.trace)
        for f in r.failed: print('   FAILED',f['name'],f['kind'],f['trail'][-12:],f['src'], '%.1f'%f['secs'])
    print('total %.1f'%(time.time()-t))
