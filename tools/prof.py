import sys,time
sys.path[:0]=['/verif','/repo']; sys.setrecursionlimit(5000)
from vfw import core
import tempfile,shutil
prop=sys.argv[1]
mod=core.load(prop); sc=tempfile.mkdtemp()
for ck in mod.CHECKS:
    if len(sys.argv)>2 and ck.name!=sys.argv[2]: continue
    ctx=core.Ctx(sc)
    if ck.cases:
        t=time.time(); n=0
        for i,c in enumerate(ck.cases('quick')):
            n+=1
            if i%8==0:
                e=core.run_case(ck,c,ctx)
                if e: print(core.describe(e)); print(c); break
        print(ck.name,'cases',n,'shard s',time.time()-t)
    if ck.strategy:
        t=time.time()
        n=int(sys.argv[3]) if len(sys.argv)>3 else 200
        v,c=core.run_generated(ck,n,1,ctx,10,time.time()+200)
        if v: print(v["exc"][-3000:]); print(v['case'])
        print(ck.name,n,'examples',time.time()-t,'quick est',(time.time()-t)*ck.quick/n, 'nontriv',len(ctx.nontriv), dict(ctx.labels.most_common(12)))
shutil.rmtree(sc)
