import smoke, ir, time, sys, signal
M=smoke.M
class TO(Exception): pass
def h(*a): raise TO()
signal.signal(signal.SIGALRM,h)
names=[n for n,f in M.funcs.items() if not f.decl and '_list_' not in n and not n.startswith(('rmc_log','llvm'))]
if len(sys.argv)>1: names=[n for n in names if n.startswith(sys.argv[1])]
for n in names:
    signal.alarm(60)
    try:
        ip,o=smoke.go(n, ring=not n.startswith('circ_buf'))
        un=set()
        fl=[]
        for x in o or []:
            un|=set(x[1].uninit)
            if x[0]=='fault': fl.append((x[2],x[1].fn,x[1].line))
        if un: print('    uninit',un)
        if fl: print('    fault',fl[:5])
    except TO: print(n,'TIMEOUT',M.funcs[n].file)
    except Exception as e:
        print(n,'EXC',type(e).__name__,str(e)[:200])
        import traceback; tb=traceback.extract_tb(sys.exc_info()[2])[-3:]; print('     ',[(t.name,t.lineno) for t in tb])
    signal.alarm(0)
