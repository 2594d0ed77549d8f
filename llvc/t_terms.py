import random
from terms import *
import terms
random.seed(1)
# differential test of constructors against python ints
class Raw: pass
def rnd(depth, w, vs):
    """return (term, fn env->int)"""
    m=(1<<w)-1
    if depth==0 or random.random()<.1:
        if random.random()<.3:
            c=random.choice([0,1,m,random.getrandbits(w),1<<random.randrange(w)]); return const(c,w),(lambda e:c&m)
        n='x%d_%d'%(w,random.randrange(3)); return var(n,w),(lambda e:e[n])
    k=random.randrange(16)
    if k==0: (a,f),(b,g)=rnd(depth-1,w,vs),rnd(depth-1,w,vs); return add(a,b),lambda e:(f(e)+g(e))&m
    if k==1: (a,f),(b,g)=rnd(depth-1,w,vs),rnd(depth-1,w,vs); return sub(a,b),lambda e:(f(e)-g(e))&m
    if k==2: (a,f),(b,g)=rnd(depth-1,w,vs),rnd(depth-1,w,vs); return bxor(a,b),lambda e:f(e)^g(e)
    if k==3: (a,f),(b,g)=rnd(depth-1,w,vs),rnd(depth-1,w,vs); return band(a,b),lambda e:f(e)&g(e)
    if k==4: (a,f),(b,g)=rnd(depth-1,w,vs),rnd(depth-1,w,vs); return bor(a,b),lambda e:f(e)|g(e)
    if k==5:
        (a,f)=rnd(depth-1,w,vs); s=random.randrange(w); return shl(a,const(s,w)),lambda e:(f(e)<<s)&m
    if k==6:
        (a,f)=rnd(depth-1,w,vs); s=random.randrange(w); return lshr(a,const(s,w)),lambda e:f(e)>>s
    if k==7 and w>1:
        j=random.randrange(1,w); (a,f),(b,g)=rnd(depth-1,j,vs),rnd(depth-1,w-j,vs); return cat([a,b]),lambda e:(f(e)<<(w-j))|g(e)
    if k==8:
        W=w+random.randrange(1,9); lo=random.randrange(W-w+1); (a,f)=rnd(depth-1,W,vs); return ext(a,lo,w),lambda e:(f(e)>>lo)&m
    if k==9:
        (c,h),(a,f),(b,g)=rnd(depth-1,1,vs),rnd(depth-1,w,vs),rnd(depth-1,w,vs); return ite(c,a,b),lambda e:f(e) if h(e) else g(e)
    if k==10 and w==1:
        W=random.choice([1,4,8]); (a,f),(b,g)=rnd(depth-1,W,vs),rnd(depth-1,W,vs); return eq(a,b),lambda e:int(f(e)==g(e))
    if k==11 and w==1:
        W=random.choice([1,4,8]); (a,f),(b,g)=rnd(depth-1,W,vs),rnd(depth-1,W,vs); return ult(a,b),lambda e:int(f(e)<g(e))
    if k==12 and w==1:
        W=random.choice([2,4,8]); (a,f),(b,g)=rnd(depth-1,W,vs),rnd(depth-1,W,vs); s=1<<(W-1); return slt(a,b),lambda e:int((f(e)^s)<(g(e)^s))
    if k==13:
        c=random.getrandbits(w); (a,f)=rnd(depth-1,w,vs); return mul(a,const(c,w)),lambda e:(f(e)*c)&m
    if k==14:
        (a,f)=rnd(depth-1,w,vs); s=random.randrange(w); M=1<<w
        return ashr(a,const(s,w)),lambda e:((f(e)-(M if f(e)>>(w-1) else 0))>>s)&m
    if k==15:
        (a,f)=rnd(depth-1,w,vs); s=random.randrange(w)
        return rotl(a,s),lambda e:((f(e)<<s)|(f(e)>>(w-s)))&m
    return rnd(depth-1,w,vs)
n=0
for it in range(30000):
    w=random.choice([1,4,8,13]); t,f=rnd(random.randrange(1,6),w,None)
    for _ in range(4):
        class E(dict):
            def __missing__(s,k):
                W=int(k[1:].split('_')[0]); s[k]=random.choice([0,(1<<W)-1,random.getrandbits(W)]); return s[k]
        e=E(); want=f(e)
        for v in variables([t]): e[v.a]
        got=evaluate([t],e)[t]
        assert got==want,(show(t),dict(e),got,want)
        lo,hi=rng(t); assert lo<=want<=hi,(show(t),lo,hi,want)
    u=[rebuild(x,kids(x)) for x in topo([t])]
print('ok')
