import ir,sys,time
from interp import *; import models
M=ir.load()
def go(fn, mk=None, ring=True, lists=True):
    ip=Interp(M, models.default_models(M,ring,lists))
    st=State()
    F=M.funcs[fn]; args=[]
    for i,a in enumerate(F.args):
        k,sn=F.argtype(i)
        if a['ty']=='p': args.append(V(64,S(ptr_sym(a['name'],True,sn if sn in M.structs else None))))
        else:
            b=int(a['ty'][1:]); args.append(ip.new_val(a['name'],b,k=='s'))
    t=time.time()
    try: outs=ip.run_fn(fn,args,st)
    except Budget: outs=None
    print(fn, 'time %.2f'%(time.time()-t), 'outs',None if outs is None else len(outs), 'steps',ip.steps, 'fm',lin.STATS['fm'])
    return ip,outs
if __name__=='__main__':
    for fn in sys.argv[1:]:
        ip,outs=go(fn)
        for o in (outs or [])[:60]:
            print('  ',o[0], o[2] if o[0]!='back' else 'L%d'%o[2].line)
            for e in o[1].events(): print('       ',e)
