"""Field-element level execution: every call of a field kernel is replaced by its contract, proved on the spot.

A contract call reads the operand digits, takes their ranges, proves the kernel for every digit vector in (a rounded-up version of)
those ranges with kern.prove, and binds fresh output digits whose lane value is a fresh 'value atom', with the ranges the proof gave.
What a value atom stands for lives in a separate domain (polynomials mod p with named intermediate values, or power products)."""
import terms as tm
import ex as exm, api, kern, kcheck, build
from terms import T,M
from ex import Ptr,Unsupported
from fields import REPS,V,Kern,P25519,P448
from intdom import ID,Poly,padd,pscale,pconst,ZERO,TooBig
PR={'25519':P25519,'448':P448}
NB={'25519':32,'448':56}
# ---------------------------------------------------------------- polynomials mod p over named values
class Sem:
    """polynomials mod p; variables flagged bit are idempotent; defs: canonical polynomial -> variable"""
    def __init__(s,p,limit=4000):
        s.p=p; s.names=[]; s.bit=[]; s.defs={}; s.limit=limit; s.rules={}; s.invs={}
    def var(s,name,bit=False):
        s.names.append(name); s.bit.append(bit); return {(len(s.names)-1,):1}
    def const(s,c): c%=s.p; return {():c} if c else {}
    def add(s,a,b,k=1):
        d=dict(a); p=s.p
        for m,c in b.items():
            v=(d.get(m,0)+k*c)%p
            if v: d[m]=v
            else: d.pop(m,None)
        return d
    def scale(s,a,k):
        k%=s.p
        return {m:c*k%s.p for m,c in a.items()} if k else {}
    def mm(s,m1,m2):
        m=sorted(m1+m2); o=[]; q=-1
        for i in m:
            if i==q and s.bit[i]: continue
            o.append(i); q=i
        return tuple(o)
    def mul(s,a,b):
        if len(a)*len(b)>50*s.limit: raise TooBig("mul")
        d={};p=s.p
        for m1,c1 in a.items():
            for m2,c2 in b.items():
                m=s.mm(m1,m2) if m1 and m2 else m1 or m2
                d[m]=d.get(m,0)+c1*c2
        d={m:c%p for m,c in d.items() if c%p}
        return s.reduce(d)
    def reduce(s,d):
        """apply rewriting rules monomial (pair) -> polynomial"""
        if not s.rules: return d
        for _ in range(64):
            ch=False; out={}
            for m,c in d.items():
                r=s.rule(m)
                if r is None: out[m]=(out.get(m,0)+c)%s.p
                else:
                    ch=True
                    rest,P=r
                    for m2,c2 in P.items():
                        q=s.mm(rest,m2); out[q]=(out.get(q,0)+c*c2)%s.p
            d={m:c for m,c in out.items() if c}
            if not ch: return d
        raise TooBig()
    def rule(s,m):
        for k,P in s.rules.items():
            r=list(m)
            try:
                for i in k: r.remove(i)
            except ValueError: continue
            return tuple(r),P
        return None
    def key(s,a): return frozenset(a.items())
    def define(s,name,P):
        """P gets a name of its own from here on"""
        if not P or len(P)==1 and next(iter(P.items())) and all(len(m)<=1 and c==1 for m,c in P.items()): return P
        k=s.key(P)
        if k in s.defs: return s.defs[k]
        v=s.var(name); s.defs[k]=v; n=s.key(s.scale(P,-1))
        if n not in s.defs: s.defs[n]=s.scale(v,-1)
        return v
    def canon(s,P):
        if len(P)>s.limit: raise TooBig("canon")
        return s.defs.get(s.key(P),P)
    def inv(s,P):
        k=s.key(P); v=s.invs.get(k)
        if v is None: v=s.invs[k]=s.var('1/(%s)'%s.show(P))
        return v
    def ite(s,b,x,y): return s.add(y,s.mul(b,s.add(x,y,-1)))
    def show(s,P,n=6):
        return ' + '.join((f'{c:#x}*' if c!=1 else '')+'*'.join(s.names[i] for i in m) for m,c in list(P.items())[:n]) or '0'
class Power:
    """constant times a product of powers; exponents are exact integers"""
    def __init__(s,p): s.p=p; s.names=[]
    def var(s,n): s.names.append(n); return (1,((len(s.names)-1,1),))
    def const(s,c): return (c%s.p,())
    def mul(s,a,b):
        d=dict(a[1])
        for i,e in b[1]: d[i]=d.get(i,0)+e
        return (a[0]*b[0]%s.p,tuple(sorted(d.items())))
    def scale(s,a,k): return (a[0]*k%s.p,a[1])
    def add(s,a,b,k=1):
        if b[0]==0: return a
        if a[0]==0: return s.scale(b,k)
        if a[1]==b[1]: return ((a[0]+k*b[0])%s.p,a[1])
        raise Unsupported('sum of different powers')
    def canon(s,a): return a if a[0] else (0,())
    def show(s,a): return f'{a[0]:#x}*'+'*'.join(f'{s.names[i]}^{e:#x}' for i,e in a[1])
# ---------------------------------------------------------------- proofs of kernels at profiles
UPBITS=5
def up(h):
    """round a range bound up so that few different profiles occur"""
    if h<1<<16: return (1<<max(h.bit_length(),1))-1 if h else 0
    k=h.bit_length()-UPBITS
    return (((h>>k)+1)<<k)-1
class Prover:
    def __init__(s,mod,log=None,to=8000): s.mod=mod; s.memo={}; s.log=log or (lambda *a:None); s.n=0; s.sec=0; s.to=to; s.extra={}; s.fns=set(); s.steps=s.asm=0; s.failed=[]
    def kernel(s,slot): return kern.K[slot]
    def prove(s,slot,rg,al,fn=None,hooks=None):
        """-> output ranges; raises Unsupported when there is no proof"""
        k=kern.K[slot]
        key=(slot,tuple(sorted(al.items())),tuple((n,tuple(tuple(l) for l in rg[n])) for n in sorted(rg)))
        r=s.memo.get(key)
        if r is None:
            import time
            t=time.time(); full=all(REPS[k.field,rn].full for _,rn,_ in k.ops)
            st,why,res=kern.prove(s.mod,slot,rg,al,to=s.to,fn=fn)
            if st!='ok': r=(None,f'{slot}: {why}'); s.failed.append((slot,rg,al,why))
            else:
                r=(res.out,None); s.fns|=res.run.e.fnset; s.steps+=res.run.e.steps; s.asm+=res.run.e.inlineasm
            s.n+=1; s.sec+=time.time()-t; s.log('kernel',slot,'al',al,'%.1fs'%(time.time()-t),'' if r[0] else 'FAIL '+str(why)[:120], {n:max(h.bit_length() for l in v for _,h in l) for n,v in rg.items()})
            s.memo[key]=r
        if r[0] is None: raise Unsupported('no contract: '+r[1])
        return r[0]
    def _rk(s,tag,rg): return (tag,tuple(tuple(l) for l in rg))
    def memod(s,key,f):
        r=s.memo.get(key)
        if r is None:
            import time
            t=time.time()
            try: r=(f(),None)
            except (Unsupported,exm.Fault,TooBig,KeyError) as x: r=(None,f'{type(x).__name__}: {x}'); s.failed.append((key[0],key[1:],{},r[1]))
            s.memo[key]=r; s.log('contract',key[0],'%.1fs'%(time.time()-t),r[1] or '')
        if r[0] is None: raise Unsupported('no contract: '+r[1])
        return r[0]
    def ser(s,f,rn,rg):
        """the encoding function writes the canonical bytes of the value, for every digit vector in the ranges"""
        pre={'1f':'_1w_full','1r':'_1w_red'}[rn]; slot=f'Fp{f}.{pre}.arith.misc.ser'; rep=REPS[f,rn]
        rr=kcheck.full(rep)[0] if rep.full else [(0,up(h)) for _,h in rg]
        def go():
            I=ID(); I.macro=256 if f=='25519' else 448; e=exm.Ex(s.mod); n=NB[f]; fn=api.irfn(e,slot)
            a=e.alloc('a',rep.size,32); b=e.alloc('b',n,32); v=ZERO
            for o in range(0,rep.size,8): e.wr_(a.o,o,8,tm.var(f'a.{o}',64))
            for (o,ee),(lo,hi) in zip(rep.digs[0],rr): I.declare(tm.var(f'a.{o}',64),lo,hi); v=padd(v,I.exact(tm.var(f'a.{o}',64))[0],1<<ee)
            e.call(fn,b,a); P=ZERO
            for i in range(n//8): P=padd(P,I.exact(e._int(e.rd_(b.o,8*i,8)))[0],1<<(64*i))
            if I.is_zero(padd(P,v,-1),rep.p,20000) is not True: raise Unsupported(slot+': value not preserved')
            if not(I.tighten(P,lo=0,hi=rep.p-1,to=20000,intvars=True) or I.tighten(P,lo=0,hi=rep.p-1,to=20000)): raise Unsupported(slot+': not canonical')
            s.fns|=e.fnset; s.steps+=e.steps; s.asm+=e.inlineasm
            return True
        return s.memod(s._rk(slot,[tuple(x) for x in rr]),go)
    def inv(s,slot,rn,rg,al):
        f=slot[2:slot.index('.')]; rep=REPS[f,rn]
        rr=kcheck.full(rep)[0] if rep.full else [(0,up(h)) for _,h in rg]
        def go():
            out,val,S,e=power(s,slot,rn,rr,al)
            if val!=(1,((0,PR[f]-2),)): raise Unsupported(f'{slot}: result is {S.show(val)}')
            return out
        return s.memod((slot,al,tuple(tuple(x) for x in rr)),go)
    def sqrn(s,name,f,rn,rg,n):
        """n-fold squaring by a routine that loops in registers: one iteration is proved to square and bring the digits into a
        range that it then keeps; two (three) repetitions are the same terms as two (three) calls with one repetition"""
        rep=REPS[f,rn]; k=Kern('sqrn',f,[('c',rn,'x')],lambda v:{'c':v.mul(v['c'],v['c'])})
        def one(rr):
            def go():
                I=ID(); e=exm.Ex(s.mod); a=e.alloc('c',rep.size,32)
                for l in range(rep.lanes):
                    for (o,_),(lo,hi) in zip(rep.digs[l],rr[l]): t=tm.var(f'c.{o}',64); I.declare(t,lo,hi); e.wr_(a.o,o,8,t)
                V0=[kcheck.value(I,rep,l,[tm.var(f'c.{o}',64) for o,_ in rep.digs[l]]) for l in range(rep.lanes)]
                e.call(name,a,1); out=[]
                for l in range(rep.lanes):
                    d=[e._int(e.rd_(a.o,o,8)) for o,_ in rep.digs[l]]
                    if I.is_zero(padd(kcheck.value(I,rep,l,d),I.pmul(V0[l],V0[l]),-1),rep.p,s.to) is not True: raise Unsupported(name+': one step is not a squaring')
                    out.append([I.exact(x)[1:] for x in d])
                s.fns|=e.fnset; s.steps+=e.steps; s.asm+=e.inlineasm
                return out
            return s.memod((name,tuple(tuple(map(tuple,l)) for l in rr)),go)
        def same():
            for n in (2,3):
                R=[]
                for calls in ([n],[1]*n):
                    e=exm.Ex(s.mod); a=e.alloc('c',rep.size,32)
                    for o in range(0,rep.size,8): e.wr_(a.o,o,8,tm.var(f'c.{o}',64))
                    for c in calls: e.call(name,a,c)
                    R.append([e.rd_(a.o,o,8) for o in range(0,rep.size,8)])
                if any(x is not y and x!=y for x,y in zip(*R)): raise Unsupported(name+': repetitions differ from repeated calls')
            return True
        s.memod((name,'repeat'),same)
        r=one(rg)
        for i in range(min(n-1,6)):
            q=one([[(0,up(h)) for _,h in l] for l in r])
            if all(h2<=up(h) for l,l2 in zip(r,q) for (_,h),(_,h2) in zip(l,l2)): return [[(0,up(h)) for _,h in l] for l in r] if n-1>i else r
            r=q
        if n<=7: return r
        raise Unsupported(name+': digit ranges do not settle')
def power(pv,slot,rn,rr,al=False,fn=None,two=False,decider=None,solver=None,before=None):
    """run an exponentiation with the element a symbolic power: (output ranges, value, domain, run)"""
    f=slot[2:slot.index('.')]; rep=REPS[f,rn]; S=Power(PR[f]); F=FE(pv.mod,f,S,pv); hk=F.hooks(inv=False)
    e=exm.Ex(pv.mod,hooks=hk,decider=decider,solver=solver); e.max_steps=200_000_000; fn=fn or api.irfn(e,slot); hk.pop(fn,None)
    a=e.alloc('a',rep.size,32); c=a if al else e.alloc('c',rep.size,32); x=S.var('x')
    if not al:
        for o in range(0,rep.size,8): e.wr_(c.o,o,8,tm.var(f'junk.{o}',64))
    F.put(e,a,rn,0,x,rr)
    d0=F.digits(e,a,rep,0); e.F=F; e.c=c
    e.call(fn,c,a)
    if not al and any(p is not q for p,q in zip(d0,F.digits(e,a,rep,0))): raise Unsupported(slot+': operand modified')
    P,out=F.lane(e,c,rep,0)
    pv.fns|=e.fnset; pv.steps+=e.steps; pv.asm+=e.inlineasm
    return out,F.lift(P),S,e
EXTRA={}
def extra_kernels():
    """conversions seen as kernels"""
    for f in ('25519','448'):
        for n in (1,):
            for a,b,rep in (('_1w_red','1r','1f'),):
                k=f'Fp{f}.{a}.arith.misc.unser'
                EXTRA[k]=Kern(k,f,[('c','1r','o'),('a','1f','i')],lambda v:{'c':v['a']})
    for k,v in EXTRA.items(): kern.K.setdefault(k,v)
extra_kernels()
class FE:
    """one symbolic run of code that works on elements of one field"""
    def __init__(s,mod,field,sem,prover,skip=(),on=None):
        s.mod=mod; s.field=field; s.p=PR[field]; s.S=sem; s.I=ID(); s.I.macro=0; s.pv=prover; s.val={}; s.n=0; s.calls=0
        s.sers={}; s.on=on; s.skip=set(skip); s.atomvar={}; s.cmps={}; s.fnslot={}; s.inv_rg={}; s.raw=0; s.sign={}
    # ------------------------------------------------------------ values
    def newval(s,sem):
        a=s.I.atom(-(1<<2000),1<<2000,'val','v'); s.val[a.id]=sem; return Poly({(a.id,):1})
    def lift(s,P):
        """ID polynomial (integer lane value) -> semantic value"""
        S=s.S; tot=S.const(0); p=s.p; at=s.I.at
        for m,c in P.d.items():
            c%=p
            if not c: continue
            t=S.const(c)
            for i in m:
                v=s.val.get(i)
                if v is None:
                    a=at[i]
                    v=s.atomvar.get(i)
                    if v is None:
                        if not isinstance(S,Sem): raise Unsupported('raw digits in a power product')
                        if not(a.lo==0 and a.hi==1): 
                            s.raw+=1
                            if s.raw>3000: raise TooBig("raw digits")
                        v=s.atomvar[i]=S.var(f'{a.kind}:{a.name}',bit=(a.lo==0 and a.hi==1))
                t=S.mul(t,v)
            tot=S.add(tot,t)
        return S.canon(tot)
    def digits(s,e,p,rep,l): return [e._int(e.rd(e.padd(p,o),8)) for o,_ in rep.digs[l]]
    def lane(s,e,p,rep,l):
        P=ZERO; rg=[]
        for (o,ee),d in zip(rep.digs[l],s.digits(e,p,rep,l)):
            q=s.I.exact(d); P=padd(P,q[0],1<<ee); rg.append((q[1],q[2]))
        return P,rg
    def get(s,e,p,rn,l=0):
        """semantic value of a lane in memory"""
        return s.lift(s.lane(e,p,REPS[s.field,rn],l)[0])
    def put(s,e,p,rn,l,sem,rg,name='o'):
        rep=REPS[s.field,rn]; s.n+=1
        ds=[tm.var(f'!f{s.n}.{i}',64) for i in range(len(rep.digs[l]))]
        P=s.newval(s.S.canon(sem)); kern.bind(s.I,rep,l,ds,P,s.p,True,rg)
        for (o,_),d in zip(rep.digs[l],ds): e.wr(e.padd(p,o),8,d)
    def words(s,sem):
        """canonical encoding of a value as 64-bit words, one set per value"""
        k=frozenset(sem.items()) if isinstance(sem,dict) else sem
        w=s.sers.get(k)
        if w is None:
            n=NB[s.field]//8; s.n+=1
            w=[tm.var(f'!w{s.n}.{i}',64) for i in range(n)]
            rep=REPS[s.field,'1f']; hi=[(0,M(64))]*(n-1)+[(0,s.p>>(64*(n-1)))]
            kern.bind(s.I,rep,0,w,s.newval(sem),s.p,True,hi); s.sers[k]=w
        return w
    # ------------------------------------------------------------ hooks
    def aliases(s,k,ptrs):
        al={}; ops=k.ops
        for i in range(len(ops)):
            for j in range(len(ops)):
                if i==j or i in al: continue
                a,b=ptrs[i],ptrs[j]
                if a.o is b.o and a.off==b.off:
                    # input shares the output's storage, or a later input an earlier one
                    if ops[i][2]=='i' and ops[j][2] in 'ox': al[i]=j
                    elif ops[i][2]=='i' and ops[j][2]=='i' and i>j and not any(ops[q][2] in 'ox' and ptrs[q].o is a.o and ptrs[q].off==a.off for q in range(len(ops))): al[i]=j
                    elif ops[i][2] in 'ox' and ops[j][2] in 'ox' and i>j: raise Unsupported('two results in one place')
                elif a.o is b.o and isinstance(a.off,int) and isinstance(b.off,int):
                    ra=REPS[k.field,ops[i][1]].size; rb=REPS[k.field,ops[j][1]].size
                    if a.off<b.off+rb and b.off<a.off+ra and (ops[i][2] in 'ox' or ops[j][2] in 'ox'): raise Unsupported('overlapping operands')
        return al
    def kernel(s,slot):
        k=kern.K[slot]
        def h(e,*ptrs):
            ptrs=ptrs[len(k.pre):]; s.calls+=1
            for q in ptrs:
                if not isinstance(q,Ptr): raise Unsupported('operand is not a pointer')
            vals={};rg={}
            for (n,rn,md),q in zip(k.ops,ptrs):
                rep=REPS[k.field,rn]
                if md in 'ix':
                    L=[s.lane(e,q,rep,l) for l in range(rep.lanes)]
                    vals[n]=[s.lift(P) for P,_ in L]
                    if rep.full: rg[n]=kcheck.full(rep)
                    else: rg[n]=[[(0,up(hi)) for lo,hi in r] for _,r in L]
            al=s.aliases(k,ptrs)
            out=s.pv.prove(slot,rg,al)
            want=k.spec(SV(s.S,vals)) if s.S is not None else None
            for (n,rn,md),q in zip(k.ops,ptrs):
                if md in 'ox':
                    rep=REPS[k.field,rn]
                    for l in range(rep.lanes): s.put(e,q,rn,l,want[n][l],out[n][l])
            if s.on: s.on(slot,e,ptrs)
            return None
        return h
    def h_ser(s,rn):
        rep=REPS[s.field,rn]
        def h(e,b,a):
            for l in range(rep.lanes):
                P,rg=s.lane(e,a,rep,l); s.pv.ser(s.field,rn,rg) ; w=s.words(s.lift(P))
                for i,x in enumerate(w): e.wr(e.padd(b,NB[s.field]*l+8*i),8,x)
            return None
        return h
    def h_inv(s,slot,rn):
        rep=REPS[s.field,rn]
        def h(e,c,a):
            P,rg=s.lane(e,a,rep,0); al=c.o is a.o and c.off==a.off
            out=s.pv.inv(slot,rn,rg,al)
            s.put(e,c,rn,0,s.S.inv(s.lift(P)),out); return None
        return h
    def h_sqrn(s,name,rn):
        rep=REPS[s.field,rn]
        def h(e,c,n):
            if not isinstance(n,int): raise Unsupported('symbolic repetition')
            if n==0: return None
            R=[];L=[s.lane(e,c,rep,l) for l in range(rep.lanes)]
            rg=[[(0,up(hi)) for lo,hi in r] for _,r in L]; vs=[s.lift(P) for P,_ in L]
            for i in range(n): vs=[s.S.canon(s.S.mul(v,v)) for v in vs]
            out=s.pv.sqrn(name,s.field,rn,rg,n)
            for l in range(rep.lanes): s.put(e,c,rn,l,vs[l],out[l])
            return None
        return h
    def hooks(s,inv=True):
        e=exm.Ex(s.mod); hk={}; f=s.field
        for slot,k in kern.K.items():
            if k.field!=f or slot in s.skip: continue
            fn=api.irfn(e,slot)
            if fn and fn not in hk: hk[fn]=s.kernel(slot); s.fnslot[fn]=slot
        for rn,pre in (('1f','_1w_full'),('1r','_1w_red')):
            fn=api.irfn(e,f'Fp{f}.{pre}.arith.misc.ser')
            if fn: hk[fn]=s.h_ser(rn)
            fn=api.irfn(e,f'Fp{f}.{pre}.arith.inv')
            if fn and inv: hk[fn]=s.h_inv(f'Fp{f}.{pre}.arith.inv',rn)
        nm='255' if f=='25519' else '448'
        for rn,suf in (('1r','1w_redradix'),('2r','2w_redradix'),('4r','4w_redradix')):
            fn=f'sqrn_Fp{nm}_{suf}'
            if fn in s.mod.funcs: hk[fn]=s.h_sqrn(fn,rn)
        return hk
    def input_words(s,e,p,name,n,mask=None):
        """a little-endian integer of n words in memory (top word masked) as one value"""
        ws=[tm.var(f'{name}.{i}',64) for i in range(n)]
        for i,w in enumerate(ws): e.wr_(p.o,p.off+8*i,8,w)
        return ws
class SV:
    """V over semantic values"""
    def __init__(s,S,d): s.S=S; s.d=d
    def __getitem__(s,k): return s.d[k]
    def add(s,a,b): return [s.S.add(x,y) for x,y in zip(a,b)]
    def sub(s,a,b): return [s.S.add(x,y,-1) for x,y in zip(a,b)]
    def mul(s,a,b): return [s.S.mul(x,y) for x,y in zip(a,b)]
    def neg(s,a): return [s.S.scale(x,-1) for x in a]
    def sc(s,a,k): return [s.S.scale(x,k) for x in a]
