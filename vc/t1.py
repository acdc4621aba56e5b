import json,sys,time
sys.path.insert(0,'/verif/vc')
t=time.time()
d=json.load(open('/tmp/mir/orchard.json'))
from prove import *
load_types(d)
ex=Ex(d,M)
print('load',time.time()-t)
def show(name):
    fn=ex.byname.get(name)
    if fn is None:
        print('MISSING',name); return
    st=State()
    try:
        t=time.time()
        args=setup_args(ex,fn,st,Contract(name,''))
        ex.panics=[]
        ex.auto_ufs=set()
        outs=ex.run_fn(fn,args,st)
        print('==',name,len(outs),'panics',[(m,w) for _,m,w in ex.panics],'%.2fs'%(time.time()-t), 'UF:',sorted(ex.auto_ufs))
        for s,v in outs[:4]: print('   ',[clip(c,200) for c in s.pc],'->',clip(ex.deep(v,s),900))
    except Unsupported as e:
        print('==',name,'UNSUPPORTED',e)
    except Exception as e:
        print('==',name,'ERR',type(e).__name__,e); traceback.print_exc(limit=-6)
if __name__=='__main__':
    for n in sys.argv[1:]:
        for f in sorted(ex.byname):
            if f==n or (n.endswith('*') and f.startswith(n[:-1])) and '{closure' not in f: show(f)
