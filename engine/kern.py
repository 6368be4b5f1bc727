"""Obligations about field kernels: proof for all digit values in a profile, and counterexamples replayed natively."""
import random,time,itertools
import terms as tm
from terms import T,M
import ex as exm, api, build, nat, kcheck
import z3
from intdom import ID,Poly,padd,pscale,pconst,ZERO,TooBig
from fields import REPS,V,kernels
K=kernels()
def frange(k,spec=None):
    """profile: all digits 64-bit for full radix, else digits up to 2^(w+d)+2^(w-3)"""
    out={}
    for n,rn,md in k.ops:
        rep=REPS[k.field,rn]
        if rep.full: out[n]=kcheck.full(rep)
        else:
            d=spec if isinstance(spec,int) else (spec or {}).get(n,0)
            out[n]=[[(0,(1<<(w+d))+(1<<(w-3))) for w in rep.nat] for _ in range(rep.lanes)]
    return out
# ------------------------------------------------------------------ summaries used to compose a proof
def bind(I,rep,l,digs,Vp,p,exact,hi=None):
    """declare fresh output digits whose lane value is Vp (mod p unless exact)"""
    P=Vp
    order=sorted(range(len(digs)),key=lambda i:rep.digs[l][i][1])
    for i in order[1:]:
        lo,h=(0,M(64)) if hi is None else hi[i]
        a=I.declare(digs[i],lo,h); P=padd(P,I.memo[digs[i]][0],-(1<<rep.digs[l][i][1]))
    if not exact:
        q=I.atom(-(1<<2000),1<<2000,'modp','k'); P=padd(P,Poly({(q.id,):p}))
    i=order[0]; lo,h=(0,M(64)) if hi is None else hi[i]
    I.memo[digs[i]]=(P,lo,h); I.memo['e',digs[i]]=(P,lo,h)
_n=[0]
def summary(I,k,slot):
    def h(e,*ptrs):
        ptrs=ptrs[len(k.pre):]; vals={}
        for (n,rn,md),p in zip(k.ops,ptrs):
            rep=REPS[k.field,rn]
            if md in 'ix':
                vals[n]=[]
                for l in range(rep.lanes):
                    P=ZERO
                    for o,ee in rep.digs[l]: P=padd(P,I.exact(e._int(e.rd(e.padd(p,o),8)))[0],1<<ee)
                    vals[n].append(P)
        want=k.spec(V(I,vals))
        for (n,rn,md),p in zip(k.ops,ptrs):
            rep=REPS[k.field,rn]
            if md in 'ox':
                for l in range(rep.lanes):
                    _n[0]+=1
                    ds=[tm.var(f'!s{_n[0]}.{i}',64) for i in range(len(rep.digs[l]))]
                    bind(I,rep,l,ds,want[n][l],k.p,k.exact)
                    for (o,_),d in zip(rep.digs[l],ds): e.wr(e.padd(p,o),8,d)
        return None
    return h
COMPOSE={'mul':('intmul','reduce'),'sqr':('intsqr','reduce'),'intmul2':('intmul',),'intsqr2':('intsqr',),'reduce2':('reduce',)}
def compose_hooks(mod,slot,I):
    pre,op=slot.rsplit('.',1); pre=pre.rsplit('.',1)[0]
    if '_1w_full' not in pre or op not in COMPOSE: return {}
    e=exm.Ex(mod); hk={}
    for s in COMPOSE[op]:
        sl=f'{pre}.arithex.{s}'; fn=api.irfn(e,sl)
        if fn: hk[fn]=summary(I,K[sl],sl)
    return hk
# ------------------------------------------------------------------ proof
def prove(mod,slot,ranges,al={},to=8000,fn=None):
    """(status, detail, Res): status 'ok' | 'fail'"""
    k=K[slot]
    if fn is None: fn=api.irfn(exm.Ex(mod),slot)
    if fn is None: return 'fail','slot empty',None
    op=slot.rsplit('.',1)[1]
    comp='448._1w_full' in slot and op in('mul','sqr')
    r=None
    for mode in ((1,0) if comp else (0,1)):
        try:
            if mode==1:
                I=ID(); hk=compose_hooks(mod,slot,I)
                if not hk: continue
                r=kcheck.check(mod,fn,k,ranges,al,to=to,I=I,hooks=hk)
            else: r=kcheck.check(mod,fn,k,ranges,al,to=to)
        except (exm.Unsupported,exm.Fault,TooBig,KeyError) as x:
            if r is None: r=x
            continue
        if r.ok: r.mode=mode; return 'ok','',r
        if mode==0 and not comp and op not in COMPOSE: break
    if isinstance(r,Exception): return 'fail',f'{type(r).__name__}: {r}',None
    if r is None: return 'fail','no proof',None
    if r.run.modified: return 'fail','input operand written: '+','.join(r.run.modified),r
    return 'fail','no proof for '+', '.join(f'{n} lane {l} ({len(z.d)} monomials left)' for n,l,z in r.bad),r
# ------------------------------------------------------------------ concrete semantics
class NumI:
    """V over plain integers"""
    @staticmethod
    def mk(vals):
        v=V(None,vals); 
        v.add=lambda a,b:[x+y for x,y in zip(a,b)]; v.sub=lambda a,b:[x-y for x,y in zip(a,b)]
        v.mul=lambda a,b:[x*y for x,y in zip(a,b)]; v.neg=lambda a:[-x for x in a]; v.sc=lambda a,k:[x*k for x in a]
        return v
def spec_num(k,vals):
    import fields
    old=fields.pscale
    fields.pscale=lambda x,c:x*c
    try: return k.spec(NumI.mk(vals))
    finally: fields.pscale=old
def digval(rep,l,ds): return sum(d<<e for (o,e),d in zip(rep.digs[l],ds))
def run_native(addr,k,digs,al={}):
    """digs[op][lane] -> digit list; returns (outs[op]=[lane values digits], inputs changed list, guards ok)"""
    bufs={}
    for i,(n,rn,md) in enumerate(k.ops):
        rep=REPS[k.field,rn]
        if i in al: continue
        src=n if n in digs else next((k.ops[j][0] for j in al if al[j]==i and k.ops[j][0] in digs),None)
        bufs[i]=build.Buf(rep.size,rep.enc(digs[src]) if src else b'\xA5'*rep.size,32)
    for i in al:
        t=al[i]
        while t in al: t=al[t]
        bufs[i]=bufs[t]
    before={i:bufs[i].get() for i in bufs}
    build._Fn(addr,None)(*[bufs[i] for i in range(len(k.ops))])
    outs={}; ch=[]
    owr={id(bufs[i]) for i,(n,rn,md) in enumerate(k.ops) if md in 'ox'}
    for i,(n,rn,md) in enumerate(k.ops):
        rep=REPS[k.field,rn]
        if md in 'ox':
            d=bufs[i].get(); outs[n]=[[int.from_bytes(d[o:o+8],'little') for o,_ in rep.digs[l]] for l in range(rep.lanes)]
        elif id(bufs[i]) not in owr and bufs[i].get()!=before[i]: ch.append(n)
    return outs,ch,all(b.guards_ok() for b in bufs.values())
def judge(k,digs,outs,ch,g):
    """None if correct, else description"""
    vals={n:[digval(REPS[k.field,rn],l,digs[n][l]) for l in range(REPS[k.field,rn].lanes)] for n,rn,md in k.ops if n in digs}
    want=spec_num(k,vals)
    for n,rn,md in k.ops:
        if md not in 'ox': continue
        rep=REPS[k.field,rn]
        for l in range(rep.lanes):
            got=digval(rep,l,outs[n][l])
            if (got-want[n][l])%k.p or (k.exact and got!=want[n][l]):
                return f'operand {n} lane {l}: got {got:#x}, expected {want[n][l] if k.exact else want[n][l]%k.p:#x}'+('' if k.exact else ' (mod p)')
    if ch: return 'source operand modified: '+','.join(ch)
    if not g: return 'wrote outside its operands'
    return None
def sqrtp(a,p):
    a%=p
    if p%4==3: r=pow(a,(p+1)//4,p)
    else:
        r=pow(a,(p+3)//8,p)
        if r*r%p!=a: r=r*pow(2,(p-1)//4,p)%p
    return r if r*r%p==a else None
def candidates(k,ranges,rng,n,al={}):
    """operand digit vectors inside the profile: corners, structured values, random"""
    ins=[(nm,REPS[k.field,rn]) for i,(nm,rn,md) in enumerate(k.ops) if md in 'ix']
    inv={i:j for i,j in al.items()}
    names=[o[0] for o in k.ops]
    p=k.p
    def fit(rep,rg,x):
        """digits of x if they fit the profile"""
        d=rep.split(x)
        return d if all(lo<=v<=hi for v,(lo,hi) in zip(d,rg)) else None
    roots=[]
    for v in range(1,400):
        for s in (v,-v):
            r=sqrtp(s,p)
            if r is not None: roots.append(r); roots.append(p-r)
    for t in range(n):
        out={}; mode=t%8
        base=None
        for nm,rep in ins:
            L=[]
            for l in range(rep.lanes):
                rg=ranges[nm][l]; d=None
                if mode==0: d=[hi for lo,hi in rg]
                if mode==1: d=[rng.choice((lo,hi)) for lo,hi in rg]
                if mode==2: d=[rng.choice((lo,min(hi,lo+1),hi,max(lo,hi-1),(lo+hi)//2,rng.randint(lo,hi))) for lo,hi in rg]
                if mode==3:
                    j=rng.randrange(len(rg)); d=[lo for lo,hi in rg]; d[j]=rng.choice((rg[j][1],rng.randint(*rg[j])))
                if mode==4:   # operands whose product/square is close to a multiple of p
                    if base is None:
                        x=rng.choice(roots); base=x
                    else:
                        x=rng.randrange(1,2000)*pow(base,-1,p)%p
                        if len(ins)==2 and rng.random()<.5: x=p-x
                    for add in rng.sample((0,p,2*p),3):
                        d=fit(rep,rg,x+add)
                        if d: break
                if mode==5:   # close to a multiple of p / power of two
                    top=sum(hi<<e for (o,e),(lo,hi) in zip(rep.digs[l],rg))
                    x=(rng.choice((0,p,2*p,p-1,1<<rng.randrange(1,top.bit_length())))+rng.randrange(-40,41))
                    d=fit(rep,rg,x) if x>=0 else None
                if mode==6:
                    a=rng.choice((0,1)); d=[lo if (i+a)%2 else hi for i,(lo,hi) in enumerate(rg)]
                if d is None: d=[rng.randint(lo,hi) for lo,hi in rg]
                L.append(d)
            out[nm]=L
        for i,j in al.items():
            t2=j
            while t2 in al: t2=al[t2]
            if names[t2] in out: out[names[i]]=out[names[t2]]
            else:
                same=[q for q in al if q!=i and al[q]==j and names[q] in out]
                if same and i>same[0]: out[names[i]]=out[names[same[0]]]
        yield out
def search(addr,slot,ranges,al,rng,n):
    k=K[slot]
    for d in candidates(k,ranges,rng,n,al):
        o=run_native(addr,k,d,al); w=judge(k,d,*o)
        if w: return d,w
    return None
def model_search(mod,addr,fn,slot,ranges,al,rng,seconds):
    """fix one operand, let the solver find the other"""
    k=K[slot]; end=time.time()+seconds; gen=candidates(k,ranges,rng,10**6,al)
    names=[o[0] for o in k.ops if o[2] in 'ix']
    while time.time()<end:
        d=next(gen)
        free=names[0] if len(names)==1 else rng.choice(names)
        if al: return None
        lin=not(slot.rsplit('.',1)[1] in('sqr','intsqr','intsqr2') )
        if not lin: return None
        try:
            I=ID(); e=exm.Ex(mod); ptr=[]; inp={}
            for n,rn,md in k.ops:
                rep=REPS[k.field,rn]; pt=e.alloc(n,rep.size,32); ptr.append(pt)
                if md in 'ix':
                    inp[n]=[]
                    for l in range(rep.lanes):
                        ds=[tm.var(f'm.{n}.{l}.{i}',64) for i in range(len(rep.digs[l]))] if n==free else d[n][l]
                        if n==free:
                            for t,(lo,hi) in zip(ds,ranges[n][l]): I.declare(t,lo,hi)
                        for (o,_),v in zip(rep.digs[l],ds): e.wr_(pt.o,o,8,v)
                        inp[n].append(ds)
            e.call(fn,*ptr)
            vals={n:[sum_poly(I,REPS[k.field,rn],l,inp[n][l]) for l in range(REPS[k.field,rn].lanes)] for n,rn,md in k.ops if n in inp}
            want=k.spec(V(I,vals))
            for (n,rn,md),pt in zip(k.ops,ptr):
                if md not in 'ox': continue
                rep=REPS[k.field,rn]
                for l in range(rep.lanes):
                    out=[e.rd_(pt.o,o,8) for o,_ in rep.digs[l]]
                    P=padd(sum_poly(I,rep,l,out),want[n][l],-1)
                    if not k.exact: P=I.modp(P,k.p)
                    if not P.d: continue
                    for m in models(I,P,None if k.exact else k.p,int(1000*min(20,max(1,end-time.time())))):
                        dd={x:[list(v) for v in d[x]] for x in d}
                        for l2 in range(REPS[k.field,dict((a,b) for a,b,_ in k.ops)[free]].lanes):
                            dd[free][l2]=[m.get(t,lo) for t,(lo,hi) in zip(inp[free][l2],ranges[free][l2])]
                        o=run_native(addr,k,dd,al); w=judge(k,dd,*o)
                        if w: return dd,w
                        break
        except (exm.Unsupported,exm.Fault,TooBig,KeyError): return None
    return None
def sum_poly(I,rep,l,ds):
    P=ZERO
    for (o,e),t in zip(rep.digs[l],ds): P=padd(P,I.exact(t)[0],1<<e)
    return P
def models(I,P,p,to):
    """assignment of the variables making P nonzero (mod p)"""
    lo,hi=I.range(P); z,L,Vv,val=I.lra([P],True)
    if p and not(lo>-p and hi<p):
        kk=z3.Int('kk'); r=z3.Int('rr')
        z.add(L(P)==kk*z3.IntVal(p)+r,r>=1,r<=z3.IntVal(p-1),kk>=z3.IntVal(lo//p),kk<=z3.IntVal(hi//p))
    else: z.add(z3.Or(L(P)>=1,L(P)<=-1))
    if I.check(z,to)!='sat': return
    m=z.model(); out={}
    for t,a in I.vars.items():
        if a.id in Vv:
            v=m.eval(Vv[a.id],model_completion=True); out[t]=v.as_long()
    yield out
def validate(mod,fn,addr,slot,ranges,rng,n):
    """encoding agrees with the native build on n concrete inputs (all results, bit for bit)"""
    k=K[slot]; ok=0
    for d in candidates(k,ranges,rng,n):
        e=exm.Ex(mod); ptr=[]
        for nm,rn,md in k.ops:
            rep=REPS[k.field,rn]; pt=e.alloc(nm,rep.size,32); ptr.append(pt)
            src=rep.enc(d[nm]) if nm in d else b'\xA5'*rep.size
            for o in range(0,rep.size,8): e.wr_(pt.o,o,8,int.from_bytes(src[o:o+8],'little'))
        e.call(fn,*ptr)
        o,_,_=run_native(addr,k,d)
        for (nm,rn,md),pt in zip(k.ops,ptr):
            if md in 'ox':
                rep=REPS[k.field,rn]
                if [[e.rd_(pt.o,oo,8) for oo,_ in rep.digs[l]] for l in range(rep.lanes)]!=o[nm]: return ok,False
        ok+=1
    return ok,True
