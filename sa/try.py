import sys, time, traceback
sys.path.insert(0,'/verif')
from sa import term as t, ir, ev
import threading
TL=20
def show(x):
    return t.show_dag(x)
def main():
    c=ir.Crate('/verif/.cache/dump.json')
    pats=[x for x in sys.argv[1:] if x[0]!='-']
    ops=[x[1:] for x in sys.argv[1:] if x[0]=='-']
    opq=[f['upath'] for f in c.fns if any(f['path'].endswith(o) for o in ops)]
    for f in c.fns:
        if f['derived'] or 'grammar::__' in f['path'] or f['kind']=='Closure': continue
        if pats and not any(p in f['path'] for p in pats): continue
        e=ev.Ev(c,opq)
        mem={ev.P:t.FALSE}; args=[]
        for i in range(f['argc']):
            ty=c.types[f['locals'][i+1]]
            s=t.mk('sym','a%d'%i)
            if ty['k']=='ref' and ty.get('mut'):
                mem[('R',i)]=s; args.append(t.mk('ref',('R',i),()))
            else: args.append(s)
        t0=time.time(); t.DEADLINE[0]=t0+TL
        try:
            v=e.run_fn(f['upath'],args,mem)
            out={'ret':v}
            for k,x in mem.items():
                if k[0]=='R': out['a%d'%k[1]]=x
            out['P']=mem[ev.P]
            tot=len(t.collect(t.mk('struct','@o',tuple(x for x in out.values() if x is not None)),lambda y:True))
            print('OK  ',f['path'],'%.2fs'%(time.time()-t0),'size',tot,'ext',list(e.exts) or '')
            if pats:
                for k,x in out.items():
                    if x is not None: print('   ',k,'=',show(x)[:9000])
        except (ev.Unsupported,t.TooBig,ev.Budget) as x:
            print('UNS ',f['path'],repr(x)[:200],'%.2fs'%(time.time()-t0))
            if pats: traceback.print_exc()
        except Exception as x:
            print('ERR ',f['path'],repr(x)[:200],'%.2fs'%(time.time()-t0))
            if pats: traceback.print_exc()
        sys.stdout.flush()
sys.setrecursionlimit(100000); threading.stack_size(1<<29)
th=threading.Thread(target=main); th.start(); th.join()
