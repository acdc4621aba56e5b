import sys,re,time
from t1 import *
from collections import Counter
def one(name):
    fn=ex.byname[name]; st=State(); t=time.time()
    ex.deadline=time.time()+40; ex.steps=0
    try:
        args=setup_args(ex,fn,st,Contract(name,'')); ex.panics=[]; ex.auto_ufs=set()
        outs=ex.run_fn(fn,args,st)
        return 'ok', '%d paths %d panics %.1fs UF=%s'%(len(outs),len(ex.panics),time.time()-t,sorted(ex.auto_ufs))
    except Unsupported as e: return 'UNSUP', str(e)[:250]
    except Exception as e:
        return 'ERR', type(e).__name__+str(e)[:150]+' | '.join(traceback.format_exc().split('\n')[-6:-2])[:400]
import fnmatch
pats=sys.argv[1:]
cnt=Counter()
for f in sorted(ex.byname):
    if '{closure' in f or 'b' not in ex.byname[f]: continue
    if any(f.startswith(p) or f.startswith('<'+p) for p in pats):
        k,m=one(f); cnt[k]+=1
        print(k,f,m,flush=True)
print(cnt)
