"""C20: hashing to edwards25519.

The Elligator 2 program is run at field-element level with the input a formal variable u (one per lane). Every value is a constant times a
product of powers of pairwise coprime polynomials in u ('atoms') with exact integer exponents; each nonzero atom lies in one of four classes
of the quotient by fourth powers, so a comparison of two products is decided by the classes. Paths fork on the outcomes of comparisons and sign
tests; on each path and for all classes that lead there the result is compared with RFC 9380. The roots of the atoms (the exceptional u) are
finitely many and are run as constants."""
import random,time,hashlib,itertools
import build,ex as exm,terms as tm,api,nat,solve,fe,kcheck,pt,gl
from ex import Ptr,Unsupported
from fields import REPS
from solve import Solver
from c_edw import ERR,result,merge,OPS
P=fe.P25519; A=486662; Q4=(P-1)//4; I4=pow(2,Q4,P)
C1=pow(P-486664,(P+3)//8,P)
if C1*C1%P!=P-486664: C1=C1*I4%P
if C1&1: C1=P-C1
assert C1*C1%P==P-486664
# ------------------------------------------------------------------ polynomials in one variable, low coefficient first
def ptrim(a):
    while a and not a[-1]: a.pop()
    return a
def pmul_(a,b):
    if not a or not b: return []
    r=[0]*(len(a)+len(b)-1)
    for i,x in enumerate(a):
        for j,y in enumerate(b): r[i+j]=(r[i+j]+x*y)%P
    return ptrim(r)
def padd_(a,b,k=1):
    n=max(len(a),len(b)); return ptrim([((a[i] if i<len(a) else 0)+k*(b[i] if i<len(b) else 0))%P for i in range(n)])
def pdivmod(a,b):
    a=list(a); q=[0]*max(0,len(a)-len(b)+1); iv=pow(b[-1],-1,P)
    while len(a)>=len(b):
        c=a[-1]*iv%P; d=len(a)-len(b); q[d]=c
        for i,x in enumerate(b): a[d+i]=(a[d+i]-c*x)%P
        a=ptrim(a[:-1])
    return ptrim(q),ptrim(a)
def pgcd(a,b):
    while b: a,b=b,pdivmod(a,b)[1]
    return [x*pow(a[-1],-1,P)%P for x in a] if a else a
def ppow(a,n,m):
    r=[1]
    for b in bin(n)[2:]:
        r=pdivmod(pmul_(r,r),m)[1]
        if b=='1': r=pdivmod(pmul_(r,a),m)[1]
    return r
def roots(f):
    """all roots in the field"""
    f=[x*pow(f[-1],-1,P)%P for x in f]; o=[]
    g=pgcd(f,padd_(ppow([0,1],P,f),[0,1],-1)) if len(f)>2 else f
    st=[g]; t=0
    while st:
        g=st.pop()
        if len(g)<=1: continue
        if len(g)==2: o.append(-g[0]%P); continue
        while True:
            t+=1; h=pgcd(g,padd_(ppow([t,1],(P-1)//2,g),[1],-1))
            if 1<len(h)<len(g): st+=[h,pdivmod(g,h)[0]]; break
    return o
class Mono:
    """constant times powers of atoms; an atom is a monic polynomial in the variable of one lane, atoms of a lane are pairwise coprime"""
    p=P
    def __init__(s): s.at=[]; s.lane={}
    def atom(s,l,poly):
        s.at.append((l,tuple(poly))); s.lane.setdefault(l,[]).append(len(s.at)-1); return len(s.at)-1
    def u(s,l): return (1,((s.atom(l,(0,1)),1),))
    def const(s,c): return (c%P,())
    def mul(s,a,b):
        if not a[0] or not b[0]: return (0,())
        d=dict(a[1])
        for i,e in b[1]: d[i]=d.get(i,0)+e
        return (a[0]*b[0]%P,tuple(sorted((i,e) for i,e in d.items() if e)))
    def power(s,a,n): return (pow(a[0],n,P),tuple((i,e*n) for i,e in a[1])) if a[0] else a
    def scale(s,a,k): return (a[0]*k%P,a[1]) if a[0]*k%P else (0,())
    def canon(s,a): return a
    def expand(s,c,m):
        r=[c]
        for i,e in m:
            if e>40 or e<0: raise Unsupported('sum of high powers')
            for _ in range(e): r=pmul_(r,list(s.at[i][1]))
        return r
    def add(s,a,b,k=1):
        b=s.scale(b,k)
        if not a[0]: return b
        if not b[0]: return a
        if a[1]==b[1]: return s.canon0((a[0]+b[0])%P,a[1])
        x,y=dict(a[1]),dict(b[1]); g={i:min(x[i],y[i]) for i in x if i in y}
        ls={s.at[i][0] for m in(a[1],b[1]) for i,_ in m}
        if len(ls)!=1: raise Unsupported('sum over two lanes')
        l,=ls; r=lambda d:[(i,e-g.get(i,0)) for i,e in d.items() if e-g.get(i,0)]
        q=padd_(s.expand(a[0],r(x)),s.expand(b[0],r(y)))
        c,m=s.factor(l,q)
        return s.mul((c,m),(1,tuple(sorted(g.items()))))
    def canon0(s,c,m): return (c,m) if c else (0,())
    def factor(s,l,q):
        if not q: return 0,()
        c=q[-1]; q=[x*pow(c,-1,P)%P for x in q]; d={}
        for i in s.lane.get(l,[]):
            f=list(s.at[i][1])
            while len(q)>=len(f):
                z,r=pdivmod(q,f)
                if r: break
                q=z; d[i]=d.get(i,0)+1
        if len(q)>1:
            if any(len(pgcd(list(s.at[i][1]),q))>1 for i in s.lane[l]): raise Unsupported('common factor of two sums')
            if len(s.at)>24: raise Unsupported('too many sums')
            d[s.atom(l,q)]=1
        return c,tuple(sorted(d.items()))
    def inv(s,a): return s.power(a,P-2)
    def ratio(s,a,b):
        """a/b for nonzero values, exponents modulo p-1"""
        d=dict(a[1])
        for i,e in b[1]: d[i]=d.get(i,0)-e
        return a[0]*pow(b[0],-1,P)%P,{i:e%(P-1) for i,e in d.items() if e%(P-1)}
    def show(s,a,n=6): return f'{a[0]:#x}*'+'*'.join(f'a{i}^{e:#x}' for i,e in a[1])
class Path:
    """the decisions taken and, per lane, the classes of atoms (power residues) that lead there"""
    def __init__(s,S,prefix): s.S=S; s.prefix=prefix; s.n=0; s.alt=[]; s.combos={}; s.taken=[]; s.signs=[]
    def lane(s,ats):
        l={s.S.at[i][0] for i in ats}
        if len(l)>1: raise Unsupported('comparison across lanes')
        return l.pop() if l else None
    def grow(s,ats):
        l=s.lane(ats); cs=s.combos.setdefault(l,[{}])
        for i in ats:
            if i in cs[0]: continue
            if len(cs)>4096: raise Unsupported('too many classes')
            cs=[{**c,i:k} for c in cs for k in range(4)]
        s.combos[l]=cs; return l
    def choose(s,l,opts):
        """opts: list of (outcome, combos of lane l)"""
        opts=[o for o in opts if o[1]]
        if s.n<len(s.prefix): ix=s.prefix[s.n]
        else:
            ix=0
            for k in range(1,len(opts)): s.alt.append(s.taken+[k])
        s.n+=1; s.taken=s.taken+[ix]; s.combos[l]=opts[ix][1]
        return opts[ix][0]
    def differ(s,a,b):
        S=s.S
        if not a[1] and not b[1] or not a[0] or not b[0]: return a!=b      # constants; zero against a product of nonzero atoms
        c,e=S.ratio(a,b)
        if any(x%Q4 for x in e.values()): l=s.grow(list(e)); return s.choose(l,[(True,s.combos[l]),(False,s.combos[l])])
        if not e: return c!=1
        l=s.grow(list(e)); q=[s.is1((c,e),co) for co in s.combos[l]]
        return s.choose(l,[(True,[x for x,y in zip(s.combos[l],q) if not y]),(False,[x for x,y in zip(s.combos[l],q) if y])])
    def sign(s,a):
        S=s.S
        if not a[1]: return a[0]&1
        for v,b in s.signs:
            for k in (1,-1):
                c,e=S.ratio(S.scale(v,k),a)
                if not e and c==1: return b if k==1 else 1-b
        l=s.grow([i for i,_ in a[1]]); b=s.choose(l,[(0,s.combos[l]),(1,s.combos[l])]); s.signs.append((a,b)); return b
    def signof(s,a,co):
        """sign of a in one class, from the sign tests made"""
        S=s.S
        for v,b in s.signs:
            for k in (1,-1):
                r=S.ratio(S.scale(v,k),a)
                if s.is1(r,co): return b if k==1 else 1-b
        return None
    def is1(s,r,co):
        c,e=r
        if any(x%Q4 for x in e.values()): return False
        if any(i not in co for i in e): raise Unsupported('class of a factor not known')
        return c*pow(I4,sum(x//Q4*co[i] for i,x in e.items())%4,P)%P==1
# ------------------------------------------------------------------ reference
def sqrt_(a):
    a%=P; r=pow(a,(P+3)//8,P)
    if r*r%P!=a: r=r*I4%P
    return r if r*r%P==a else None
def reference(u):
    """RFC 9380 elligator2_edwards25519: affine point"""
    d=(1+2*u*u)%P; x1=-A*pow(d,-1,P)%P; g=lambda x:(x*x*x+A*x*x+x)%P
    y=sqrt_(g(x1))
    if y is not None: x=x1; s=1
    else: x=(-x1-A)%P; y=sqrt_(g(x)); s=0
    if y&1!=s: y=-y%P
    if y==0 or x==P-1: return 0,1
    return C1*x*pow(y,-1,P)%P,(x-1)*pow(x+1,-1,P)%P
# ------------------------------------------------------------------ the map
def prof(rep): return kcheck.full(rep) if rep.full else pt.nominal(rep)
def run_map(mod,pv,fn,us,prefix):
    """us: per lane 'g' or an integer -> (path, coordinates per lane, ranges)"""
    two=len(us)==2; kind,rn=('2way','2r') if two else ('full','1f'); S=Mono(); F=fe.FE(mod,'25519',S,pv); path=Path(S,prefix); hk=F.hooks()
    e=exm.Ex(mod,hooks=hk); e.max_steps=40_000_000
    for pre,r1 in (('_1w_full','1f'),('_1w_red','1r')):
        rep1=REPS['25519',r1]
        def val(ee,q,r1=r1,rep1=rep1):
            Pq,rg=F.lane(ee,q,rep1,0); pv.ser('25519',r1,rg); return F.lift(Pq)
        def cmp(ee,a,b,val=val): return 0x40 if path.differ(val(ee,a),val(ee,b)) else 0
        def sgn(ee,a,val=val): return path.sign(val(ee,a))
        for m,h in (('cmp',cmp),('sgn',sgn)):
            n=api.irfn(e,f'Fp25519.{pre}.arith.{m}')
            if n: hk[n]=h
    rep=REPS['25519',rn]; u=e.alloc('u',rep.size,32); o=e.alloc('P',pt.size(kind,'25519'),32); rg=prof(rep); vs=[]
    for i in range(0,pt.size(kind,'25519'),8): e.wr_(o.o,i,8,tm.var(f'junk.{i}',64))
    for l,x in enumerate(us): vs.append(S.u(l) if x=='g' else S.const(x)); F.put(e,u,rn,l,vs[l],rg[l])
    e.call(fn,o,u); L=pt.layout(kind,'25519'); out=[];R=[]
    for l in range(len(us)):
        c={};r={}
        for n,q in L.items():
            off,rr,la=q[l]; Pq,g=F.lane(e,e.padd(o,off),REPS['25519',rr],la); c[n]=F.lift(Pq); r[n]=[(lo,h) for lo,h in g]
            if any(lo<0 for lo,_ in g): raise Unsupported('negative digit')
        out.append(c); R.append(r)
    pv.fns|=e.fnset; pv.steps+=e.steps; pv.asm+=e.inlineasm
    return S,path,vs,out,R
def judge(S,path,u,x,C):
    """one lane: None or what differs from the reference, with the class"""
    X,Y,Z,T=(C[k] for k in 'XYZT'); m=S.mul
    if x!='g':
        if any(v[1] for v in C.values()): return 'the result depends on the other lane'
        X,Y,Z,T=(v[0] for v in (X,Y,Z,T))
        if Z==0: return 'Z is zero'
        rx,ry=reference(x)
        if (X-rx*Z)%P: return 'x-coordinate'
        if (Y-ry*Z)%P: return 'y-coordinate'
        return None if (T*Z-X*Y)%P==0 else 'X*Y=Z*T'
    if not Z[0]: return 'Z is zero'
    if m(T,Z)!=m(X,Y): return 'X*Y=Z*T'
    if not X[0] or not Y[0]: return 'a zero coordinate for every u'
    l=S.at[u[1][0][0]][0]
    if any(S.at[i][0]!=l for v in C.values() for i,_ in v[1]): return 'the result depends on the other lane'
    uu=S.scale(m(u,u),2); d=S.add(S.const(1),uu); n1=S.const(-A); n2=m(n1,uu)
    gn=lambda n:m(n,S.add(S.add(m(n,n),S.scale(m(n,d),A)),m(d,d)))         # numerator of g(n/d), over d^3
    g1,g2=gn(n1),gn(n2); chi=S.power(m(g1,d),(P-1)//2)
    need=[i for v in (g1,d) for i,_ in v[1]]+[i for v in (X,Y,Z,g2) for i,_ in v[1]]
    path.grow(list(dict.fromkeys(need)))
    for co in path.combos[l]:
        sq=path.is1(S.ratio(chi,S.const(1)),co); n,g,w=(n1,g1,1) if sq else (n2,g2,0)
        y=m(S.scale(m(n,Z),C1),S.inv(m(d,X)))                       # y = c1*x_M*Z/X
        lhs=m(m(y,y),S.power(d,3))
        if not path.is1(S.ratio(lhs,g),co): return f'x-coordinate: not a point over the {"first" if sq else "second"} candidate'
        sg=path.signof(y,co)
        if sg is None: return 'sign never tested'
        if sg!=w: return f'sign of y over the {"first" if sq else "second"} candidate'
        if not path.is1(S.ratio(m(Y,S.add(n,d)),m(Z,S.add(n,d,-1))),co): return 'y-coordinate'
    return None
def map_job(item):
    """(function, lanes as 'g' / integer / 'exc' for every exceptional value)"""
    fn,us=item; mod=build.module(); pv=fe.Prover(mod); t=time.time(); st0=dict(solve.STAT); r={'ok':False,'why':None,'paths':0,'rg':None,'exc':None,'bad':None}
    try:
        work=[[]]; exc=set()
        while work:
            pre=work.pop(); S,path,vs,out,R=run_map(mod,pv,fn,us,pre); work+=path.alt; r['paths']+=1
            if r['paths']>600: raise Unsupported('too many paths')
            for l,x in enumerate(us):
                w=judge(S,path,vs[l],x,out[l])
                if w: r['bad']=f'lane {l} (u {"arbitrary" if x=="g" else hex(x)}): {w}'; raise Unsupported(r['bad'])
            exc|={S.at[i][1] for i in range(len(S.at))}
            q=[{c:[(0,h) for _,h in v] for c,v in y.items()} for y in R]
            r['rg']=q if r['rg'] is None else [{c:[(0,max(a[1],b[1])) for a,b in zip(z[c],y[c])] for c in z} for z,y in zip(r['rg'],q)]
        r['exc']=sorted(exc); r['ok']=True
    except ERR as x: r['why']=f'{type(x).__name__}: {x}'
    r.update(fns=sorted(pv.fns),steps=pv.steps,asm=pv.asm,kernels=pv.n,sec=time.time()-t,stat={k:v-st0.get(k,0) for k,v in solve.STAT.items()})
    return r
# ------------------------------------------------------------------ field elements from the message
LENS=[0,1,2,5,31,32,55,63,64,95,110,111,112,113,126,127,128,129,200,239,240,255,256,300]
def hash_job(item):
    """(function, message length): SHA-512 of the prefix byte and the message, reduced"""
    import c_eddsa
    fn,n=item; mod=build.module(); pv=fe.Prover(mod); t=time.time(); st0=dict(solve.STAT); r={'ok':False,'why':None}
    try:
        sv=Solver(20000); e=exm.Ex(mod,solver=sv); W=c_eddsa.World(c_eddsa.CFG['25519'],e,sv); W.lens=[]; e.hooks.update(c_eddsa.hooks(W)); e.max_steps=5_000_000
        def two(ee,mp,k,dp):
            if not isinstance(k,int): raise Unsupported('length')
            ins=[W.items(ee.rd(ee.padd(mp,8*l),8),k) for l in(0,1)]
            for l in (0,1): W.put(ee.rd(ee.padd(dp,8*l),8),W.digest('sha512',ins[l],64))
            return None
        e.hooks['sha512_2w_avx']=two
        m=e.alloc('msg',max(n,1),1); m.o.size=n; bs=[tm.var(f'm{i}',8) for i in range(n)]
        for i,b in enumerate(bs): e.wr_(m.o,i,1,b)
        m.o.ro=True; us=[e.alloc(f'u{i}',32,32) for i in range(2)]; two_=fn=='hash_to_field_2w'
        if two_: e.call(fn,us[0],us[1],m,n); pre=[0,1]
        else: q=tm.var('prefix',8); e.call(fn,us[0],q,m,n); pre=[q]; us=us[:1]
        for u,q in zip(us,pre):
            want=W.reduced(c_eddsa.cat(W.digest('sha512',[(q,8)]+[(b,8) for b in bs],64)),512); got=W.bytes(u,32)
            ok,_=sv.valid(e.pc,tm.and_(1,*[tm.eq(8,a,b) for a,b in zip(got,want)]))
            if ok is not True: raise Unsupported('the field element is not SHA-512(prefix, message) reduced')
        r['ok']=True; pv.fns|=e.fnset; pv.steps+=e.steps
    except ERR as x: r['why']=f'{type(x).__name__}: {x}'
    return result(pv,t,st0,r)
# ------------------------------------------------------------------ the whole hash
def sum_job(item):
    """(function, digit ranges of the mapped points or None): sum of the two mapped points, times eight, in affine coordinates"""
    fn,mrg=item; mod=build.module(); pv=fe.Prover(mod); t=time.time(); st0=dict(solve.STAT); r={'ok':False,'why':None}
    try:
        S=fe.Sem(P); F=fe.FE(mod,'25519',S,pv); pp=pt.PtProver(mod,pv); G=gl.Group(F,pp,pt.ED25); hk=F.hooks(); hk.update(G.hooks(OPS['25519'])); uv={}
        msg=None; ml=tm.var('mlen',64)
        def elem(prefix):
            if prefix not in uv: uv[prefix]=S.var(f'u{prefix}')
            return uv[prefix]
        def chk(m,n):
            if not(isinstance(m,Ptr) and m.o is msg.o and m.off==0 and n is ml): raise Unsupported('another message is hashed')
        def h1(e,u,prefix,m,n):
            chk(m,n)
            if not isinstance(prefix,int): raise Unsupported('prefix')
            F.put(e,u,'1f',0,elem(prefix),kcheck.full(REPS['25519','1f'])[0]); return None
        def h2(e,u0,u1,m,n):
            chk(m,n)
            for i,u in enumerate((u0,u1)): F.put(e,u,'1f',0,elem(i),kcheck.full(REPS['25519','1f'])[0])
            return None
        def which(v):
            for k,x in uv.items():
                if v==x: return k
            raise Unsupported('the map is applied to something else')
        def mp(kind,rn):
            def h(e,o,u):
                rep=REPS['25519',rn]; n=pt.npts(kind); L=pt.layout(kind,'25519')
                for l in range(n):
                    Pq,rg=F.lane(e,u,rep,l)
                    if any(lo<0 or hi>fe.up(b) for (lo,hi),(_,b) in zip(rg,prof(rep)[l])): raise Unsupported('digits beyond the contract of the map')
                    x,y=G.fresh({('map',which(F.lift(Pq))):1}); z=G.newz()
                    G.write(e,o,kind,l,x,y,z,mrg[l] if mrg else {c:kcheck.full(REPS['25519','1f'])[0] for c in 'XYZT'})
                return None
            return h
        hk.update({'hash_to_field':h1,'hash_to_field_2w':h2,'map_to_curve':mp('full','1f'),'map_to_curve_2w':mp('2way','2r')})
        e0=exm.Ex(mod)
        for pre,rn in (('_1w_full','1f'),('_1w_red','1r')):
            slot=f'Fp25519.{pre}.arith.inv'; f=api.irfn(e0,slot)
            def inv(e,c,a,rn=rn,slot=slot):
                Pq,rg=F.lane(e,a,REPS['25519',rn],0); v=F.lift(Pq)
                if not G.nonzero(v): raise Unsupported('inverse of something that may be zero')
                out=pv.inv(slot,rn,rg,c.o is a.o and c.off==a.off); w=S.const(pow(next(iter(v.values())),-1,P))
                for i in next(iter(v)):
                    k=('inv',i)
                    if k not in S.invs: S.invs[k]=S.var(f'1/{S.names[i]}'); S.rules[tuple(sorted((i,next(iter(S.invs[k]))[0])))]=S.const(1); G.nz.add(next(iter(S.invs[k]))[0])
                    w=S.mul(w,S.invs[k])
                F.put(e,c,rn,0,w,out); return None
            if f: hk[f]=inv
        e=exm.Ex(mod,hooks=hk); e.max_steps=10_000_000; msg=e.alloc('msg',64,1); msg.o.ro=True; o=e.alloc('P',64,32)
        for i in range(0,64,8): e.wr_(o.o,i,8,tm.var(f'junk{i}',64))
        e.call(fn,o,msg,ml)
        C={c:F.get(e,e.padd(o,k),'1f') for c,k in (('X',0),('Y',32))}; C['Z']=S.const(1)
        g,_=G.recognise(C)
        if g!={('map',0):8,('map',1):8}: raise Unsupported(f'the result is {g}')
        r['ok']=True; r['ops']=G.calls; pv.fns|=e.fnset; pv.steps+=e.steps; pv.asm+=e.inlineasm
    except ERR as x: r['why']=f'{type(x).__name__}: {x}'
    return result(pv,t,st0,r)
# ------------------------------------------------------------------ predicates
def pred_job(fn):
    mod=build.module(); pv=fe.Prover(mod); t=time.time(); st0=dict(solve.STAT); r={'ok':False,'why':None}
    try:
        sv=Solver(20000); dec=exm.Decider(sv,64); n=0
        for _ in dec:
            S=fe.Sem(P); F=fe.FE(mod,'25519',S,pv); hk=F.hooks(); e=exm.Ex(mod,hooks=hk,solver=sv,decider=dec); e.max_steps=5_000_000; facts=[]
            def cmp(ee,a,b):
                x,y=(F.get(ee,q,'1f') for q in (a,b)); d=S.add(x,y,-1); v=tm.var(f'differ{len(facts)}',1); facts.append((d,v)); return tm.concat([(0,6),(v,1),(0,25)])
            hk[api.irfn(e,'Fp25519._1w_full.arith.cmp')]=cmp
            ps=[]
            for q in ('P','Q')[:1 if fn=='isOnCurve' else 2]:
                p=e.alloc(q,64,32); v=[S.var(q+c) for c in 'XY']; ps.append((p,v))
                for k in (0,1): F.put(e,e.padd(p,32*k),'1f',0,v[k],kcheck.full(REPS['25519','1f'])[0])
            try: rc=e.call(fn,*[p for p,_ in ps])
            except exm.Infeasible: continue
            n+=1; m=S.mul
            if fn=='isOnCurve':
                x,y=ps[0][1]; xx,yy=m(x,x),m(y,y); want=[S.add(S.add(yy,xx,-1),S.add(S.const(1),S.scale(m(xx,yy),pt.ED25.d)),-1)]
            else: want=[S.add(a,b,-1) for a,b in zip(ps[0][1],ps[1][1])]
            def fact(w):
                for d,v in facts:
                    if any(S.scale(d,k)==w for k in (1,-1)): return v
                return None
            ws=[fact(w) for w in want]
            if any(not any(S.scale(d,k)==w for w in want for k in(1,-1)) for d,_ in facts): raise Unsupported('compares something else')
            # the predicate: nothing differs. Comparisons that were skipped may have either outcome
            full=[w if w is not None else tm.var(f'skipped{i}',1) for i,w in enumerate(ws)]
            c=tm.eq(1,tm.not_(1,tm.eq(32,rc,0)),tm.and_(1,*[tm.not_(1,w) for w in full]))
            ok,_=sv.valid(e.pc,c)
            if ok is not True: raise Unsupported('the result is not the predicate')
            for p,v in ps:
                if [F.get(e,e.padd(p,32*k),'1f') for k in (0,1)]!=v: raise Unsupported('the point changes')
            pv.fns|=e.fnset; pv.steps+=e.steps; pv.asm+=e.inlineasm
        if not n: raise Unsupported('no path')
        r['ok']=True
    except ERR as x: r['why']=f'{type(x).__name__}: {x}'
    return result(pv,t,st0,r)
# ------------------------------------------------------------------ native
NAMES=('hash_to_field','hash_to_field_2w','map_to_curve','map_to_curve_2w','h2c25519_x64','h2c25519_avx2','isOnCurve','areEqual')
def num32(b): return int.from_bytes(b,'little')
def nat_map(fn,seed,n,us):
    rng=random.Random(seed); N=nat.lib(NAMES); F=build._Fn(N.addr(fn),None); two=fn.endswith('2w'); kind,rn=('2way','2r') if two else ('full','1f'); L=pt.layout(kind,'25519'); rep=REPS['25519',rn]
    for it in range(n):
        v=[rng.choice(us) if rng.random()<(.5 if it>=len(us) else .3) else rng.randrange(P) for _ in range(2 if two else 1)]
        if it<len(us): v[rng.randrange(len(v))]=us[it]
        B=build.Buf(pt.size(kind,'25519')); U=build.Buf(rep.size,bytes(rep.size)); b=bytearray(rep.size)
        for l,x in enumerate(v):
            w=x
            if not two: b[:]=(w+(P if rng.random()<.2 and w<(1<<256)-P else 0)).to_bytes(32,'little')
            else:
                ex=sorted(rep.digs[l],key=lambda q:q[1])
                for i,(o,ee) in enumerate(ex):
                    hi=ex[i+1][1] if i+1<len(ex) else 256; b[o:o+8]=((w>>ee)&((1<<hi-ee)-1)).to_bytes(8,'little')
        U=build.Buf(rep.size,bytes(b)); F(B,U); g=B.get()
        for l,x in enumerate(v):
            q={c:pt.get_num(g,REPS['25519',L[c][l][1]],L[c][l][2],L[c][l][0]) for c in 'XYZT'}; rx,ry=reference(x%P)
            if q['Z']==0 or (q['X']-rx*q['Z'])%P or (q['Y']-ry*q['Z'])%P or (q['X']*q['Y']-q['Z']*q['T'])%P: return {'function':fn,'lane':l,'u':hex(x),'result':{k:hex(z) for k,z in q.items()},'expected':[hex(rx),hex(ry)]}
    return None
def eadd(a,b):
    x1,y1=a; x2,y2=b; t=pt.ED25.d*x1*x2*y1*y2%P
    return (x1*y2+x2*y1)*pow(1+t,-1,P)%P,(y1*y2+x1*x2)*pow(1-t,-1,P)%P
def ref_u(prefix,msg): return num32(hashlib.sha512(bytes([prefix])+msg).digest())%pt.L25
def nat_hash(fn,seed,n,lens):
    rng=random.Random(seed); N=nat.lib(NAMES); F=build._Fn(N.addr(fn),None)
    for it in range(n):
        ln=lens[it%len(lens)]; msg=rng.randbytes(ln); M=build.Buf(max(ln,1),msg or b'\0')
        if fn.startswith('hash'):
            U=[build.Buf(32),build.Buf(32)]; pre=rng.choice([0,1,1,255])
            if fn=='hash_to_field': F(U[0],pre,M,ln); w=[pre]
            else: F(U[0],U[1],M,ln); w=[0,1]
            for u,q in zip(U,w):
                if num32(u.get())%P!=ref_u(q,msg): return {'function':fn,'message':msg.hex(),'prefix':q,'result':hex(num32(u.get())),'expected':hex(ref_u(q,msg))}
        else:
            B=build.Buf(64); F(B,M,ln); g=B.get(); x,y=num32(g[:32])%P,num32(g[32:])%P
            e=eadd(reference(ref_u(0,msg)),reference(ref_u(1,msg)))
            for _ in range(3): e=eadd(e,e)
            if (x,y)!=e: return {'function':fn,'message':msg.hex(),'result':[hex(x),hex(y)],'expected':[hex(e[0]),hex(e[1])]}
    return None
def nat_pred(fn,seed,n):
    rng=random.Random(seed); N=nat.lib(NAMES); F=build._Fn(N.addr(fn),__import__('ctypes').c_int)
    enc=lambda v:(v+(P if rng.random()<.3 and v+P<1<<256 else 0)).to_bytes(32,'little')
    for it in range(n):
        a=reference(rng.randrange(P)) if it%3 else rng.choice([(0,1),(0,P-1),(pt.sqrt_mod(-1,P) or 0,0)])
        d=lambda q:tuple((v+rng.choice([0,1,1<<63,1<<64,1<<128,1<<192,1<<254,rng.randrange(P)]))%P if k==z else v for k,v in enumerate(q)) if (z:=rng.randrange(3)) is not None else q
        b=d(a); on=lambda q:(q[1]*q[1]-q[0]*q[0]-1-pt.ED25.d*q[0]*q[0]*q[1]*q[1])%P==0
        if fn=='isOnCurve': r=F(build.Buf(64,enc(b[0])+enc(b[1]))); w=on(b)
        else: r=F(build.Buf(64,enc(a[0])+enc(a[1])),build.Buf(64,enc(b[0])+enc(b[1]))); w=a==b
        if bool(r)!=w: return {'function':fn,'first':[hex(v) for v in a],'second':[hex(v) for v in b],'result':r,'expected':int(w)}
    return None
GO={'map':map_job,'hash':hash_job,'sum':sum_job,'pred':pred_job}
def go(j): return GO[j[0]](j[1])
def run_C20(c):
    mod=build.module(); api.offsets(); have=lambda f:f in mod.funcs; names=NAMES; nat.lib(NAMES)
    for f in names:
        if not have(f): c.undec(f,'no such function')
    res={}
    def par(jobs):
        out=nat.parallel(go,jobs,8,timeout=max(60,c.left()-150))
        for j,o in zip(jobs,out):
            x=o[1] if o[0]=='ok' else {'ok':False,'why':str(o)[:200]}
            res[('sum',j[1][0]) if j[0]=='sum' else j]=x; merge(c,x)
    G=('map',('map_to_curve',('g',))); GG=('map',('map_to_curve_2w',('g','g')))
    par([j for j in (GG,G) if have(j[1][0])]+[('hash',(f,n)) for n in LENS for f in names[:2] if have(f)]+[('pred',f) for f in names[6:] if have(f)])
    ats={f for j in (G,GG) if res.get(j,{}).get('exc') for f in res[j]['exc']}|{(0,1)}
    us=sorted({x for f in ats for x in roots(list(f))})
    mrg=res.get(GG,{}).get('rg'); two=[]
    if have('map_to_curve'): two+=[('map',('map_to_curve',(x,))) for x in us]
    if have('map_to_curve_2w'): two+=[('map',('map_to_curve_2w',z)) for x in us for z in ((x,'g'),('g',x))]+[('map',('map_to_curve_2w',(x,y))) for x in us for y in us]
    par(two)
    for j in two:
        if j[1][0]=='map_to_curve_2w' and mrg and res[j].get('rg'): mrg=[{k:[(0,max(a[1],b[1])) for a,b in zip(z[k],y[k])] for k in z} for z,y in zip(mrg,res[j]['rg'])]
    par([('sum',(f,m)) for f,m in (('h2c25519_x64',None),('h2c25519_avx2',mrg)) if have(f) and (m or f=='h2c25519_x64')])
    def settle(fn,label,js,native,args,sample,few,many):
        js=[j for j in res if j in js]
        why=next((res[j]['why'] for j in js if not res[j]['ok']),None) if js else 'not executed'
        n=nat.forked(native,fn,c.rng.random(),few if why is None else many,*args,timeout=150)
        if n[0]=='ok' and n[1]: c.violation(fn,f'{fn}: wrong result ({why or ""})'[:300],n[1])
        elif n[0]=='crash': c.violation(fn,f'{fn} crashes',{'function':fn})
        else:
            if n[0]=='ok': c.validated+=few
            if why is None: c.good(label,sample)
            else: c.undec(label,why)
    sp=sorted(set(us)|{1,2,P-1,P-2,(P-1)//2,(P+1)//2,I4,P-I4})
    for f in names[:2]:
        for n in LENS:
            if have(f): settle(f,f'{f}, {n}-byte message',[('hash',(f,n))],nat_hash,([n],),'SHA-512(prefix, message) mod the group order',2,20)
    if have('map_to_curve'):
        settle('map_to_curve','map_to_curve is the Elligator 2 map, every u',[G],nat_map,(sp,),f'{res[G].get("paths")} paths; exceptional u: {len(us)}',len(sp)+20,3000)
        for x in us: settle('map_to_curve',f'map_to_curve at u={x:#x}',[('map',('map_to_curve',(x,)))],nat_map,([x],),'root of an intermediate value',3,40)
    if have('map_to_curve_2w'):
        settle('map_to_curve_2w','map_to_curve_2w is the Elligator 2 map in both lanes, every pair',[GG],nat_map,(sp,),f'{res[GG].get("paths")} paths',len(sp)+20,3000)
        for x in us: settle('map_to_curve_2w',f'map_to_curve_2w at u={x:#x} in either or both lanes',[('map',('map_to_curve_2w',z)) for z in [(x,'g'),('g',x)]+[(x,y) for y in us]+[(y,x) for y in us]],nat_map,([x]+us,),'root of an intermediate value, with every other class',len(us)+3,200)
    for f,m in (('h2c25519_x64',None),('h2c25519_avx2',mrg)):
        if have(f): settle(f,f'{f}: eight times the sum of the two mapped points, affine',[('sum',f)],nat_hash,(LENS,),'any message and length',len(LENS),4*len(LENS))
    for f in names[6:]:
        if have(f): settle(f,f'{f} is exact',[('pred',f)],nat_pred,(),'all coordinates, any representative',60,3000)
    c.bounds=['map: every field element (formal u, every outcome of every comparison and sign test; exceptional u as constants), 2-way: every pair; digits up to 1/32 above width',f'field elements from messages: lengths {LENS}, all contents; sum, cofactor and affine conversion: any message and length']
    c.assume=['C01-C05, C07 kernels as proved on the spot; field equality and sign tests as proved under C05','SHA-512 (C18) and reduction modulo the group order (C15) by their contracts','a^(p-1)=1 for a nonzero (p prime)']
