"""C07: inversion is x^(p-2); the square roots are roots."""
import random,time,ctypes
import build,ex as exm,terms as tm,api,nat,kern,solve,fe,kcheck
from ex import Ptr
from fields import REPS
from c_ladder import merge
RN={'_1w_full':'1f','_1w_red':'1r','_4w_red':'4r'}
def slots(mod):
    e=exm.Ex(mod); o=[]
    for f in ('25519','448'):
        for pre in RN:
            for m in ('inv','srt'):
                if pre=='_4w_red' and m=='inv': continue
                if api.irfn(e,f'Fp{f}.{pre}.arith.{m}'): o.append((f,pre,m))
    return o
def full(rep): return kcheck.full(rep)
def start(rep):
    """digit ranges of a freshly decoded or reduced element: what every other kernel leaves"""
    if rep.full: return kcheck.full(rep)
    d=lambda w:(0,(1<<w)+(1<<w-5)-1)
    exps=sorted({e for _,e in rep.digs[0]}); wd={e:(exps[i+1] if i+1<len(exps) else (255 if rep.field=='25519' else 448))-e for i,e in enumerate(exps)}
    return [[d(wd[e]) for _,e in rep.digs[l]] for l in range(rep.lanes)]
def inv_job(item):
    f,pre,al=item; mod=build.module(); pv=fe.Prover(mod); rep=REPS[f,RN[pre]]; t=time.time(); r={'ok':False,'why':None}; st0=dict(solve.STAT)
    try: pv.inv(f'Fp{f}.{pre}.arith.inv',RN[pre],start(rep)[0],al); r['ok']=True
    except (exm.Unsupported,exm.Fault,fe.TooBig,KeyError,AttributeError) as x: r['why']=f'{type(x).__name__}: {x}'
    return done(r,pv,t,st0)
def done(r,pv,t,st0):
    r.update(fns=sorted(pv.fns),steps=pv.steps,asm=pv.asm,kernels=pv.n,sec=time.time()-t,stat={k:v-st0.get(k,0) for k,v in solve.STAT.items()}); return r
def root_job(item):
    """item: field, representation, function name (None: the slot) , outcomes of the comparisons per lane"""
    f,pre,fn,outc=item; mod=build.module(); pv=fe.Prover(mod); rep=REPS[f,RN[pre]]; p=fe.PR[f]; t=time.time(); r={'ok':False,'why':None}; st0=dict(solve.STAT)
    try:
        S=fe.Power(p); F=fe.FE(mod,f,S,pv); hk=F.hooks(inv=False); e=exm.Ex(mod,hooks=hk); e.max_steps=200_000_000
        name=fn or api.irfn(e,f'Fp{f}.{pre}.arith.srt'); hk.pop(name,None); rec=[]
        cf=api.irfn(e,f'Fp{f}.{pre}.arith.cmp')
        def cmp(ee,a,b):
            L=[F.lift(F.lane(ee,a,rep,l)[0]) for l in range(rep.lanes)]; R=[F.lift(F.lane(ee,b,rep,l)[0]) for l in range(rep.lanes)]
            rec.append((L,R))
            if len(rec)>1: raise exm.Unsupported('more than one comparison')
            return outc[0] if rep.lanes==1 else tuple(outc)
        if cf: hk[cf]=cmp
        rg=start(rep); us=[S.var(f'u{l}') for l in range(rep.lanes)]; vs=[S.var(f'v{l}') for l in range(rep.lanes)]
        a=e.alloc('a',rep.size,32); c=e.alloc('c',rep.size,32); u=e.alloc('u',rep.size,32) if fn else c
        for o in range(0,rep.size,8): e.wr_(c.o,o,8,tm.var(f'junk.{o}',64)); e.wr_(a.o,o,8,0)
        for l in range(rep.lanes): F.put(e,a,'%s'%RN[pre],l,vs[l],rg[l]); F.put(e,u,RN[pre],l,us[l],rg[l])
        if f=='448': e.call(name,c,a)
        elif fn: e.call(name,c,u,a)
        else: e.call(name,c,a)
        pv.fns|=e.fnset; pv.steps+=e.steps; pv.asm+=e.inlineasm
        X=[F.lift(F.lane(e,c,rep,l)[0]) for l in range(rep.lanes)]
        ex=lambda m:{S.names[i]:q for i,q in m[1]}
        r['X']=[(x[0],ex(x)) for x in X]; r['cmp']=[[(x[0],ex(x)) for x in s] for s in rec[0]] if rec else None; r['ok']=True
    except (exm.Unsupported,exm.Fault,fe.TooBig,KeyError,AttributeError) as x: r['why']=f'{type(x).__name__}: {x}'
    return done(r,pv,t,st0)
def mono(p,*fs):
    """product of (coefficient,{name:exp})**k, exponents modulo p-1"""
    c=1;d={}
    for (cc,ee),k in fs:
        c=c*pow(cc,k,p)%p
        for n,e in ee.items(): d[n]=(d.get(n,0)+k*e)%(p-1)
    return c,{n:e for n,e in d.items() if e}
def judge(f,lanes,R):
    """R: outcome vector -> result of root_job; None when every lane returns a root of u/v whenever there is one"""
    p=fe.PR[f]
    for l in range(lanes):
        u=(1,{f'u{l}':1}); v=(1,{f'v{l}':1}); E0=None
        for pas in (1,0):
            for outc,r in R.items():
                o=outc[l]
                if bool(o)!=bool(pas): continue
                X=r['X'][l]
                if set(X[1])-{f'u{l}',f'v{l}'}: return f'lane {l}: the result depends on other lanes or on the output\'s old contents'
                if X[1].get(f'u{l}',0)<=0: return f'lane {l}: u=0 does not give 0'
                E=mono(p,(v,1),(X,2),(u,-1))
                if pas:
                    if E0 is not None and E!=E0: return f'lane {l}: the result depends on the other lanes'
                    E0=E; i=E[1].get(f'u{l}',0); j=E[1].get(f'v{l}',0)
                    if E[0]!=1 or (i+j)%(p-1) or 4*i%(p-1): return f'lane {l}: v*x^2/u is not +-1 for the squares u/v'
                    L,Rr=r['cmp'][0][l],r['cmp'][1][l]; q=mono(p,(L,1),(Rr,-1))
                    if q!=(p-E0[0],E0[1]) and mono(p,(q,-1))!=(p-E0[0],E0[1]): return f'lane {l}: the test does not compare v*x^2 with -u'
                elif E!=(p-E0[0],E0[1]): return f'lane {l}: on the branch v*x^2=-u the result is not multiplied by a square root of -1'
    return None
# ------------------------------------------------------------------ native
def search(item,seed,n):
    f,pre,m,fn=item; p=fe.PR[f]; nb=fe.NB[f]; rep=REPS[f,RN[pre]]; la=rep.lanes; N=nat.lib((fn,) if fn else ()); rng=random.Random(seed)
    g=lambda s:build._Fn(N.slot(*api.where(f'Fp{f}.{pre}.arith.{s}')),None); un,se=g('misc.unser'),g('misc.ser'); fun=build._Fn(N.addr(fn),None) if fn else g(m)
    el=lambda vs:b''.join((v%p).to_bytes(nb,'little') for v in vs); sp=[0,1,p-1,2,p-2,3,4,5,(p-1)//2,(p+1)//2,pow(2,nb*4,p),1<<nb*8-8]
    for it in range(n):
        pick=lambda:rng.choice(sp) if rng.random()<.3 else rng.randrange(p)
        v=[pick() for _ in range(la)]; x=[pick() for _ in range(la)]
        A=build.Buf(rep.size); C=build.Buf(rep.size); U=build.Buf(rep.size); O=build.Buf(nb*la); u=[b*y*y%p for b,y in zip(v,x)]
        if m=='inv': u=v
        elif f=='448': v=[y*y%p for y in x]; u=[1]*la
        else:
            if any(b==0 for b in v): continue
        un(A,build.Buf(nb*la,el(v))); un(C,build.Buf(nb*la,el(u))); un(U,build.Buf(nb*la,el(u)))
        if fn and f=='25519': fun(C,U,A); se(O,C)
        else: fun(C,A); se(O,C)
        o=[int.from_bytes(O.get()[nb*l:nb*l+nb],'little') for l in range(la)]
        for l in range(la):
            if m=='inv': ok=o[l]==pow(v[l],p-2,p)
            else: ok=(v[l]*o[l]*o[l]-u[l])%p==0 or f=='448' and v[l]==0
            if not ok: return {'function':fn or f'Fp{f}.{pre}.arith.{m}','lane':l,'u':hex(u[l]),'v':hex(v[l]),'result':hex(o[l]),'expected':'x^(p-2)' if m=='inv' else 'v*result^2 = u (the quotient is a square)'}
    return None
def run_C07(c,fields=('25519','448')):
    mod=build.module(); nat.lib(); api.offsets(); S=[x for x in slots(mod) if x[0] in fields]
    for f,pre,m in [('25519','_1w_full','inv'),('25519','_1w_red','inv'),('448','_1w_full','inv'),('448','_1w_red','inv')]:
        if f in fields and (f,pre,m) not in S: c.undec(f'Fp{f}.{pre}.arith.{m}','slot is empty')
    inv=[(f,pre,al) for f,pre,m in S if m=='inv' for al in (False,)]
    roots=[]
    for f,pre,m in S:
        if m!='srt': continue
        la=REPS[f,RN[pre]].lanes
        oc=[(1,)*la] if f=='448' else [tuple(q>>i&1 for i in range(la)) for q in range(1<<la)]
        fn=f'invsqrt_Fp255_{pre[1:3]}_'+('fullradix' if pre=='_1w_full' else 'redradix')
        roots+=[(f,pre,None,o) for o in oc]
        if f=='25519' and la==1 and fn in mod.funcs: roots+=[(f,pre,fn,o) for o in oc]
    jobs=[('i',x) for x in inv]+[('r',x) for x in roots]
    out=nat.parallel(go,jobs,8,timeout=max(60,c.left()-120))
    res={j:(o[1] if o[0]=='ok' else {'ok':False,'why':str(o)[:200]}) for j,o in zip(jobs,out)}
    for r in res.values(): merge(c,r)
    def settle(item,label,why,sample=None):
        f,pre,m,fn=item; n=nat.forked(search,item,c.rng.random(),60 if why is None else 600,timeout=120)
        k=fn or f'Fp{f}.{pre}.arith.{m}'
        if n[0]=='ok' and n[1]: c.violation(k,f'{k}: wrong result ({why or ""})'[:300],n[1])
        elif n[0]=='crash': c.violation(k,f'{k} crashes',{'function':k})
        else:
            if n[0]=='ok': c.validated+=60
            if why is None: c.good(label,sample)
            else: c.undec(label,why)
    for f,pre in sorted({(f,pre) for f,pre,_ in inv}):
        rs=[res['i',(f,pre,al)] for al in(False,)]; w=next((r['why'] for r in rs if not r['ok']),None)
        settle((f,pre,'inv',None),f'Fp{f}.{pre}.arith.inv(x) = x^(p-2)',w,f"exponent p-2 exactly; {rs[0].get('kernels')} kernel contracts")
    for f,pre,fn in sorted({(f,pre,fn) for f,pre,fn,_ in roots},key=str):
        R={o:res['r',(f,pre,fn,o)] for ff,pp,nn,o in roots if (ff,pp,nn)==(f,pre,fn)}
        w=next((r['why'] for r in R.values() if not r['ok']),None)
        if w is None:
            if f=='448':
                x=R[(1,)]['X'][0]; p=fe.PR[f]
                if x!=(1,{'v0':(p-3)//4}): w=f'the result is {x}'
            else: w=judge(f,REPS[f,RN[pre]].lanes,R)
        settle((f,pre,'srt',fn),f'{fn or f"Fp{f}.{pre}.arith.srt"} returns '+('a^((p-3)/4), the inverse root of every square' if f=='448' else 'a root of u/v for every u/v that has one, both outcomes of the test in every lane'),w,f'{len(R)} outcome vectors')
    c.bounds=['every nonzero or zero field element (exponents are exact integers); reduced-radix operands with digits up to 1/32 above their nominal width (more than any kernel or decoder leaves), all 64-bit words for the full-radix forms; the result of an inversion in storage of its own, as everywhere in the library']
    c.assume=['field equality test as proved under C05/C06','a^(p-1)=1 for a nonzero (p prime)']
def go(j): return inv_job(j[1]) if j[0]=='i' else root_job(j[1])
