"""C10/C11: point operations, encoding and decoding on edwards25519 and edwards448, the isogenies."""
import random,time,ctypes
import build,ex as exm,terms as tm,api,nat,kern,solve,fe,pt,kcheck
from terms import M
from ex import Ptr,Decider
from solve import Solver
from fields import REPS
from c_ladder import merge
from c_inv import root_job,judge
fe.UPBITS=12
def result(pv,t,st0,r,e=None):
    r.update(fns=sorted(pv.fns|(e.fnset if e else set())),steps=pv.steps+(e.steps if e else 0),asm=pv.asm+(e.inlineasm if e else 0),kernels=pv.n,sec=time.time()-t,stat={k:v-st0.get(k,0) for k,v in solve.STAT.items()},failed=[(str(a),str(w)[:160]) for a,_,_,w in pv.failed]); return r
ERR=(exm.Unsupported,exm.Fault,fe.TooBig,KeyError,AttributeError,TypeError,IndexError,ValueError)
# ------------------------------------------------------------------ group operations
OPS={'25519':pt.OPS25,'448':pt.OPS448}
def op_job(item):
    f,i=item; op=OPS[f][i]; mod=build.module(); pv=fe.Prover(mod); pp=pt.PtProver(mod,pv); t=time.time(); r={'ok':False,'why':None}; st0=dict(solve.STAT)
    try:
        o=pp.prove(op)
        if not pt.within(o,pt.profile(dict(op.args)[op.out],f)): r['why']='the result has larger digits than the operands may have'
        else: r['ok']=True
    except ERR as x: r['why']=f'{type(x).__name__}: {x}'
    pv.fns|=pp.fns; pv.steps+=pp.steps; pv.asm+=pp.asm
    return result(pv,t,st0,r)
# ------------------------------------------------------------------ encoding
ENC={'25519':('point_encoding_ed25519',32,'2w'),'448':('point_encoding_ed448',57,'2w')}
DEC={'25519':('point_decoding_ed25519',32),'448':('point_decoding_ed448',57)}
def canon_hook(F,pv,name,rep):
    """in-place reduction to the canonical words, proved for every operand"""
    n=len(rep.digs[0])
    def go():
        from intdom import ID,ZERO,padd
        I=fe.ID(); I.macro=64*n; e=exm.Ex(pv.mod); a=e.alloc('a',rep.size,32); v=ZERO
        for o,ee in rep.digs[0]: t=tm.var(f'a.{o}',64); I.declare(t,0,M(64)); e.wr_(a.o,o,8,t); v=padd(v,I.exact(t)[0],1<<ee)
        e.call(name,a); P=ZERO
        for o,ee in rep.digs[0]: P=padd(P,I.exact(e._int(e.rd_(a.o,o,8)))[0],1<<ee)
        if I.is_zero(padd(P,v,-1),rep.p,20000) is not True: raise exm.Unsupported(name+': value not preserved')
        if not(I.tighten(P,lo=0,hi=rep.p-1,to=20000,intvars=True) or I.tighten(P,lo=0,hi=rep.p-1,to=20000)): raise exm.Unsupported(name+': not canonical')
        pv.fns|=e.fnset; pv.steps+=e.steps; pv.asm+=e.inlineasm
        return True
    def h(e,a):
        pv.memod((name,'canon'),go)
        w=F.words(F.lift(F.lane(e,a,rep,0)[0]))
        for i,x in enumerate(w): e.wr(e.padd(a,8*i),8,x)
        return None
    return h
def enc_job(f):
    fn,nb,kind=ENC[f]; cv=pt.ED25 if f=='25519' else pt.ED448; mod=build.module(); pv=fe.Prover(mod); t=time.time(); r={'ok':False,'why':None}; st0=dict(solve.STAT); e=None
    try:
        S=fe.Sem(cv.p); F=fe.FE(mod,f,S,pv); hk=F.hooks(); e=exm.Ex(mod,hooks=hk,solver=Solver(20000)); hk.pop(fn,None); e.max_steps=20_000_000
        m='modp_Fp255_1w_fullradix'
        if f=='25519' and m in mod.funcs: hk[m]=canon_hook(F,pv,m,REPS[f,'1f'])
        x,y,z=S.var('x'),S.var('y'),S.var('z'); zi=S.inv(z); S.rules[tuple(sorted((next(iter(z))[0],next(iter(zi))[0])))]=S.const(1)
        P=e.alloc('P',pt.size(kind,f),32); o=e.alloc('enc',nb,1); L=pt.layout(kind,f); C=pt.coords(S,cv,x,y,z,kind); pr=pt.profile(kind,f)
        for k,l in L.items(): off,rn,la=l[0]; F.put(e,e.padd(P,off),rn,la,C[k],pr[k][0])
        for i in range(nb): e.wr_(o.o,i,1,tm.var(f'junk{i}',8))
        e.call(fn,o,P)
        X,Y=F.words(x),F.words(y); want=tm.concat([(w,64) for w in Y]); sgn=tm.ext(X[0],0,1)
        full=tm.concat([(w,64) for w in Y]+([] if nb==32 else [(tm.var('zz',8),8)]))
        bad=[]
        for i in range(nb):
            if i<nb-1: w=tm.ext(Y[i//8],8*(i%8),8)
            elif f=='25519': w=tm.concat([(tm.ext(Y[3],56,7),7),(sgn,1)])
            else: w=tm.concat([(0,7),(sgn,1)])
            g=e.rd_(o.o,i,1)
            if g is w or isinstance(g,int) and g==w: continue
            v,_=e.solver.valid([],tm.eq(8,g,w))
            if v is not True: bad.append(i)
        if bad: r['why']=f'byte(s) {bad} are not those of the canonical y with the sign of x'
        else: r['ok']=True
    except ERR as x: r['why']=f'{type(x).__name__}: {x}'
    return result(pv,t,st0,r,e)
# ------------------------------------------------------------------ decoding
class Stop(Exception): pass
def declaim(F,S,f,e,A,nb):
    """the bytes of an encoding: words of y, sign bit, and what must be zero; returns (words, sign, other bits)"""
    n=nb//8; us=[]
    if f=='25519':
        lo=[tm.var(f'y{i}',64) for i in range(3)]+[tm.var('y3',63)]; sg=tm.var('sign',1); us=lo[:3]+[tm.concat([(lo[3],63),(0,1)])]; mem=lo[:3]+[tm.concat([(lo[3],63),(sg,1)])]; other=None
        for i in range(4): e.wr_(A.o,8*i,8,mem[i])
    else:
        lo=[tm.var(f'y{i}',64) for i in range(7)]; us=lo; sg=tm.var('sign',1); other=tm.var('junk',7)
        for i in range(7): e.wr_(A.o,8*i,8,lo[i])
        e.wr_(A.o,56,1,tm.concat([(other,7),(sg,1)])); mem=lo
    return lo,us,sg,other
def bigcat(ws): return tm.concat([(w,64) for w in ws])
def dec_job(item):
    f=item; fn,nb=DEC[f]; cv=pt.ED25 if f=='25519' else pt.ED448; p=cv.p; mod=build.module(); pv=fe.Prover(mod); t=time.time(); r={'ok':False,'why':None,'paths':0}; st0=dict(solve.STAT); e=None
    so=Solver(30000); dec=Decider(so,200); codes=set()
    try:
        if fn not in mod.funcs: raise exm.Unsupported('no '+fn)
        for _ in dec:
            r['paths']+=1
            S=fe.Sem(p); F=fe.FE(mod,f,S,pv); hk=F.hooks(); e=exm.Ex(mod,hooks=hk,decider=dec,solver=so); hk.pop(fn,None); e.max_steps=50_000_000
            y=S.var('y'); yy=S.mul(y,y); one=S.const(1); num=S.add(yy,one,-1); den=S.add(S.scale(yy,cv.d),S.const(cv.a),-1); xv=S.var('x')
            A=e.alloc('A',nb,1); lo,us,sg,other=declaim(F,S,f,e,A,nb); before=[e.rd_(A.o,i,1) for i in range(nb)]
            # the bytes as an integer: the value y plus what the top digits add
            P=F.newval(y)
            for i in range(1,len(lo)): P=fe.padd(P,F.I.declare(lo[i],0,M(lo[i].w)) and F.I.memo[lo[i]][0],-(1<<64*i))
            F.I.memo[lo[0]]=F.I.memo['e',lo[0]]=(P,0,M(64))
            ne=tm.var('noroot',1); W=64*len(us)
            rep='1f' if f=='25519' else '1r'; rp=REPS[f,rep]; calls=[0]
            def root(ee,c,a,b=None):
                """a root of a/b (25519: into c) resp. the inverse root power of a (448), when there is one"""
                calls[0]+=1
                if calls[0]>1: raise exm.Unsupported('more than one root is taken')
                if f=='25519':
                    u=F.lift(F.lane(ee,a,rp,0)[0]); v=F.lift(F.lane(ee,b,rp,0)[0])
                    if S.mul(u,den)!=S.mul(v,num): raise exm.Unsupported('the root is not taken of x^2: '+S.show(u))
                    F.put(ee,c,rep,0,xv,kcheck.full(rp)[0])
                else:
                    g=F.lift(F.lane(ee,a,rp,0)[0]); q=lambda P,n:P if n==1 else S.mul(P,q(P,n-1))
                    E=(p-3)//4
                    # v*x^2/u for x=u^3 v (u^5 v^3)^E is u^(5(p-1)/2) v^(3(p-1)/2): 1 when u/v is a square
                    if (5+10*E)*2!=5*(p-1) or (3+6*E)*2!=3*(p-1): raise exm.Unsupported('exponents')
                    if g!=S.mul(q(num,5),q(den,3)): raise exm.Unsupported('the root power is not taken of u^5*v^3')
                    s_=S.var('s'); k=S.key(S.mul(S.mul(q(num,3),den),s_)); S.defs[k]=xv; F.put(ee,c,rep,0,s_,fe_nominal(rp))
                return None
            if f=='25519':
                hk['invsqrt_Fp255_1w_fullradix']=lambda ee,c,a,b:root(ee,c,a,b)
                hk['modp_Fp255_1w_fullradix']=canon_hook(F,pv,'modp_Fp255_1w_fullradix',REPS[f,'1f'])
            else: hk[api.irfn(e,'Fp448._1w_red.arith.srt')]=lambda ee,c,a:root(ee,c,a)
            hk_cmp(F,S,hk,f,xv,num,den,ne)
            P4=e.alloc('P4',pt.size('4w',f),32); P2=e.alloc('P2',pt.size('2w',f),32)
            for o_ in (P4,P2):
                for k in range(0,o_.o.size,8): e.wr_(o_.o,k,8,tm.var(f'j{o_.o.name}{k}',64))
            ret=e.call(fn,P4,P2,A)
            # what is known about canonical words
            pc=list(e.pc); big=bigcat(us); px=F.sers.get(frozenset(y.items()))
            lty=tm.ult(W,big,p)
            if px: pc.append(iff(tm.eq(W,bigcat(px),big),lty))
            X=F.words(xv); XW=bigcat(X); x0=tm.eq(W,XW,0); pc.append(tm.ult(W,XW,p))
            okspec=tm.and_(1,tm.and_(1,lty,tm.not_(1,ne)),tm.not_(1,tm.and_(1,x0,sg)))
            if other is not None: okspec=tm.and_(1,okspec,tm.eq(7,other,0))
            # both canonical strings of v*x^2 and u agree exactly when the root exists
            for a,b in ((S.mul(den,S.mul(xv,xv)),num),):
                wa,wb=F.sers.get(frozenset(S.canon(a).items())),F.sers.get(frozenset(S.canon(b).items()))
                if wa and wb: pc.append(iff(tm.eq(W,bigcat(wa),bigcat(wb)),tm.not_(1,ne)))
            if not isinstance(ret,int): ret_ok=tm.eq(32,ret,0)
            else: ret_ok=int(ret&M(32)==0)
            v,md=so.valid(pc,tm.eq(1,ret_ok,okspec) if not isinstance(ret_ok,int) else (okspec if ret_ok else tm.not_(1,okspec)))
            if v is not True:
                r['why']=('accepts an encoding that is not valid' if ret_ok==1 else 'rejects a valid encoding') if v is False else 'acceptance undecided'
                r['model']={'y below p':None}; r['cex']=v is False; break
            if ret_ok==1:
                codes.add('accept'); bad=None
                for ptr,kind in ((P4,'4w'),(P2,'2w')):
                    L=pt.layout(kind,f); R={c:F.lift(F.lane(e,e.padd(ptr,l[0][0]),REPS[f,l[0][1]],l[0][2])[0]) for c,l in L.items()}
                    bad=bad or accepted(S,f,cv,R,xv,y,X,sg,so,pc,num,den)
                    for c,l in L.items():
                        rg=F.lane(e,e.padd(ptr,l[0][0]),REPS[f,l[0][1]],l[0][2])[1]; prf=pt.profile(kind,f)[c][0]
                        if any(h>fe.up(h2) or lo_<0 for (lo_,h),(_,h2) in zip(rg,prf)): bad=bad or f'{c}: digits larger than the point operations take'
                if bad: r['why']=bad; break
            else: codes.add('reject')
            if any(a is not b and a!=b for a,b in zip(before,[e.rd_(A.o,i,1) for i in range(nb)])): r['why']='the encoding is modified'; break
        else: r['ok']=codes=={'accept','reject'} or codes=={'accept'}
    except ERR as x: r['why']=f'{type(x).__name__}: {x}'
    return result(pv,t,st0,r,e)
def fe_nominal(rep): return pt.nominal(rep)[0]
def iff(a,b): return tm.eq(1,a,b)
def hk_cmp(F,S,hk,f,xv,num,den,ne):
    e=exm.Ex(F.mod)
    for pre,rn in (('_1w_full','1f'),('_1w_red','1r')):
        c=api.irfn(e,f'Fp{f}.{pre}.arith.cmp')
        if not c: continue
        def h(ee,a,b,rn=rn):
            rep=REPS[f,rn]; x,y=[F.lift(F.lane(ee,q,rep,0)[0]) for q in (a,b)]
            vx=S.canon(S.mul(den,S.mul(xv,xv)))
            for k in (1,-1):
                if (x,y) in ((S.scale(vx,k),S.scale(num,k)),(S.scale(num,k),S.scale(vx,k))): return tm.concat([(ne,1),(0,31)])
            wa,wb=F.words(x),F.words(y)
            return tm.concat([(tm.not_(1,tm.eq(64*len(wa),bigcat(wa),bigcat(wb))),1),(0,31)])
        hk[c]=h
def accepted(S,f,cv,R,xv,y,X,sg,so,pc,num,den):
    """the accepted point is minus the encoded one: x has the parity the sign bit asks for (448: seen through the isogeny)"""
    m=S.mul; par=tm.ext(X[0],0,1); xi=next(iter(xv))[0]
    if f=='25519':
        Z=R['Z']
        if Z!=S.const(1): return 'Z is not 1'
        if R['Y']!=y: return 'y is '+S.show(R['Y'])
        k=next((k for k in (1,-1) if R['X']==S.scale(xv,k)),None)
        if k is None: return 'x is '+S.show(R['X'])
        if R['T']!=m(R['X'],R['Y']): return 'T is not X*Y'
    else:
        k=None
        for q in (1,-1):
            # phi(x,y)=(2xy/(y^2-x^2),(y^2+x^2)/(2-y^2-x^2)) of (-q*x, y)
            xx=m(xv,xv); yy=m(y,y); a=S.scale(m(xv,y),2*q); b=S.add(yy,xx); c=S.add(yy,xx,-1); d=S.add(S.const(2),b,-1)
            if R['X']==m(a,d) and R['Y']==m(b,c) and R['Z']==m(c,d) and R['T']==m(a,b): k=q
        if k is None: return 'result is not the isogeny image of the encoded point: X='+S.show(R['X'])
    # coordinate x of the encoded point itself is -k*x
    want=tm.eq(1,par,sg) if k==-1 else tm.eq(1,tm.and_(1,tm.not_(1,par),tm.not_(1,tm.eq(64*len(X),bigcat(X),0))),sg)
    v,_=so.valid(pc,want)
    return None if v is True else 'the sign of x does not follow the sign bit'

# ------------------------------------------------------------------ isogenies between Ed448 (a=1,d=-39081) and the twisted curve (a=-1,d=-39082)
def phi(S,X,Y,Z):
    """Ed448 -> twisted: (2xy/(y^2-x^2), (y^2+x^2)/(2-y^2-x^2)), numerators and denominators"""
    m=S.mul; xx,yy,zz=m(X,X),m(Y,Y),m(Z,Z); return S.scale(m(X,Y),2),S.add(yy,xx,-1),S.add(yy,xx),S.add(S.scale(zz,2),S.add(yy,xx),-1)
def dual(S,X,Y,Z):
    """twisted -> Ed448: (2xy/(y^2+x^2), (y^2-x^2)/(2-y^2+x^2))"""
    m=S.mul; xx,yy,zz=m(X,X),m(Y,Y),m(Z,Z); return S.scale(m(X,Y),2),S.add(yy,xx),S.add(yy,xx,-1),S.add(S.scale(zz,2),S.add(xx,yy,-1))
def proj(S,q): nx,dx,ny,dy=q; return S.mul(nx,dy),S.mul(ny,dx),S.mul(dx,dy)
def dbl(S,cv,X,Y,Z):
    m=S.mul; xx,yy,zz=m(X,X),m(Y,Y),m(Z,Z); q=S.add(S.scale(xx,cv.a),yy); return proj(S,(S.scale(m(X,Y),2),q,S.add(yy,S.scale(xx,cv.a),-1),S.add(S.scale(zz,2),q,-1)))
def same(S,P,Q): return S.mul(P[0],Q[2])==S.mul(Q[0],P[2]) and S.mul(P[1],Q[2])==S.mul(Q[1],P[2])
def oncurve(S,cv,P):
    m=S.mul; X,Y,Z=P; xx,yy,zz=m(X,X),m(Y,Y),m(Z,Z); l=m(S.add(S.scale(xx,cv.a),yy),zz); r=S.add(m(zz,zz),S.scale(m(xx,yy),cv.d)); return l==r
def iso_facts(_):
    """identities of rational functions: images lie on the other curve and both compositions are multiplication by 4"""
    t=time.time(); r={'ok':False,'why':None}; st0=dict(solve.STAT); bad=[]
    class N: pass
    pv=N(); pv.fns=set(); pv.steps=pv.asm=pv.n=0; pv.failed=[]
    for cv,to,f,g,name in ((pt.ED448,pt.TW448,phi,dual,'dual(phi(P))=[4]P on Ed448'),(pt.TW448,pt.ED448,dual,phi,'phi(dual(P))=[4]P on the twisted curve')):
        S=fe.Sem(cv.p,limit=100000); x,y=pt.newpoint(S,cv,'P'); one=S.const(1)
        Q=proj(S,f(S,x,y,one))
        if not oncurve(S,to,Q): bad.append(f'{f.__name__}: image is not on the other curve')
        if not same(S,proj(S,g(S,*Q)),dbl(S,cv,*dbl(S,cv,x,y,one))): bad.append(name)
    for f in (phi,dual):
        S=fe.Sem(pt.ED448.p); z=S.const(0); o=S.const(1); nx,dx,ny,dy=f(S,z,o,o)
        if nx!=z or dx==z or ny!=dy: bad.append(f'{f.__name__} does not map the identity to the identity')
    r['why']='; '.join(bad) or None; r['ok']=not bad
    return result(pv,t,st0,r)
ISO='isogeny_2w_H0H8'
def iso_job(_):
    f='448'; mod=build.module(); pv=fe.Prover(mod); t=time.time(); r={'ok':False,'why':None}; st0=dict(solve.STAT); e=None; cv=pt.TW448
    try:
        S=fe.Sem(cv.p); F=fe.FE(mod,f,S,pv); hk=F.hooks(); e=exm.Ex(mod,hooks=hk); hk.pop(ISO,None); e.max_steps=20_000_000
        x,y=pt.newpoint(S,cv,'P'); z=S.var('z'); C=pt.coords(S,cv,x,y,z,'2w'); pr=pt.profile('2w',f); L=pt.layout('2w',f)
        P=e.alloc('P',pt.size('2w',f),32)
        for c,l in L.items(): F.put(e,e.padd(P,l[0][0]),l[0][1],l[0][2],C[c],pr[c][0])
        e.call(ISO,P)
        R={}
        for c,l in L.items():
            R[c],rg=F.lane(e,e.padd(P,l[0][0]),REPS[f,l[0][1]],l[0][2]); R[c]=F.lift(R[c])
            if any(lo<0 or h>fe.up(h2) for (lo,h),(_,h2) in zip(rg,pr[c][0])): raise exm.Unsupported('digits of '+c+' out of range')
        nx,dx,ny,dy=dual(S,x,y,S.const(1)); m=S.mul
        if m(R['X'],dx)!=m(nx,R['Z']): r['why']='x-coordinate'
        elif m(R['Y'],dy)!=m(ny,R['Z']): r['why']='y-coordinate'
        elif not any(pt.ratio(S,R['Z'],m(m(dx,dy),q)) for q in [powr(S,z,k) for k in range(9)]): r['why']='Z may be zero'
        else: r['ok']=True
    except ERR as x: r['why']=f'{type(x).__name__}: {x}'
    return result(pv,t,st0,r,e)
def powr(S,z,k):
    q=S.const(1)
    for _ in range(k): q=S.mul(q,z)
    return q
# ------------------------------------------------------------------ native
def rfc_decode(cv,s):
    """RFC 8032 5.1.3 / 5.2.3: the point, or None"""
    p=cv.p; nb=len(s); v=int.from_bytes(s,'little'); sg=v>>(8*nb-1); y=v&((1<<8*nb-1)-1)
    if y>=p: return None
    u=(y*y-1)%p; w=(cv.d*y*y-cv.a)%p; x=pt.sqrt_mod(u*pow(w,-1,p)%p,p)
    if x is None or x==0 and sg: return None
    return ((p-x)%p if x&1!=sg else x),y
def rfc_encode(cv,P,nb): return (P[1]|(P[0]&1)<<(8*nb-1)).to_bytes(nb,'little')
def phi_num(P):
    x,y=P; p=fe.P448; return 2*x*y*pow(y*y-x*x,-1,p)%p,(y*y+x*x)*pow(2-y*y-x*x,-1,p)%p
def dual_num(P):
    x,y=P; p=fe.P448; return 2*x*y*pow(y*y+x*x,-1,p)%p,(y*y-x*x)*pow(2-y*y+x*x,-1,p)%p
def encodings(f,rng,n):
    cv=pt.ED25 if f=='25519' else pt.ED448; nb=DEC[f][1]; p=cv.p; b=8*nb
    for k in range(-40,41):
        for s in (0,1): yield ((k%p)|s<<(b-1)).to_bytes(nb,'little')
    for k in range(0,20):
        for s in (0,1):
            if p+k<1<<(b-1): yield ((p+k)|s<<(b-1)).to_bytes(nb,'little')
    if f=='448':
        for j in range(7): yield (3|1<<448+j).to_bytes(nb,'little'); yield (pt.B448[1]|1<<448+j).to_bytes(nb,'little')
        for k in range(60):
            # y^2 or d*y^2 with a zero lowest digit
            y=None
            while y is None:
                t=rng.randrange(p>>28)<<28; t=t if k%2 else t*pow(cv.d,-1,p)%p; y=pt.sqrt_mod(t%p,p)
            for s in (0,1): yield (y|s<<(b-1)).to_bytes(nb,'little')
    for y in special_y(f,rng,800):
        for s in (0,1): yield (y|s<<(b-1)).to_bytes(nb,'little')
    for i in range(n): yield ((rng.randrange(p) if i%3 else pt.pattern(rng,REPS[f,'1r']))|rng.randrange(2)<<(b-1)).to_bytes(nb,'little')
def words(rng,p,nw):
    """a number most of whose words are 0, 1 or all ones"""
    keep=rng.randrange(nw)
    if rng.randrange(2): return (rng.randrange(1,1<<rng.choice((4,30,64)))<<64*keep)%p
    return sum(((rng.randrange(1<<64) if i==keep else rng.choice((0,0,1,M(64)))))<<64*i for i in range(nw))%p
def special_y(f,rng,n):
    """ordinates of points where x, y, or u=y^2-1 have unusual words, or where u and one of its products with a fourth root of unity differ in few words"""
    cv=pt.ED25 if f=='25519' else pt.ED448; p=cv.p; nw=4 if f=='25519' else 7; a=-1 if f=='25519' else 1
    roots=[p-1]+([pow(2,(p-1)//4,p),p-pow(2,(p-1)//4,p)] if f=='25519' else []); k=0; tries=0
    while k<n and tries<40*n:
        tries+=1; kind=tries%3; w=words(rng,p,nw)
        if kind==0: y=w
        elif kind==1: y=pt.sqrt_mod((1-a*w*w)*pow(1-cv.d*w*w,-1,p)%p,p)
        else:
            c=rng.choice(roots); s=(rng.choice((1,-1))*rng.randrange(1,20)<<64*rng.randrange(nw))
            y=pt.sqrt_mod((1+s*pow(c-1,-1,p))%p,p)
        if y is None: continue
        k+=1; yield y if rng.randrange(2) else (p-y)%p
def dec_search(f,seed,n,limit):
    fn,nb=DEC[f]; cv=pt.ED25 if f=='25519' else pt.ED448; p=cv.p; N=nat.lib((fn,ENC[f][0])); g=build._Fn(N.addr(fn),ctypes.c_int); rng=random.Random(seed); t0=time.time(); done=0
    for s in encodings(f,rng,n):
        if time.time()-t0>limit: break
        A=build.Buf(nb,s); P4=build.Buf(pt.size('4w',f),None,32); P2=build.Buf(pt.size('2w',f),None,32); r=g(P4,P2,A); w=rfc_decode(cv,s); done+=1
        d={'function':fn,'encoding':s.hex(),'returned':r}
        if (r==0)!=(w is not None): d['what']='accepted, but it encodes no point' if r==0 else 'rejected, but it encodes a point'; return d,done
        if A.get()!=s: d['what']='the encoding was modified'; return d,done
        if w is None: continue
        w=cv.neg(w); w=phi_num(w) if f=='448' and w[0] else (0,1) if f=='448' and w[1]==1 else w if f=='25519' else None
        if w is None: continue
        for b,kind in ((P4,'4w'),(P2,'2w')):
            L=pt.layout(kind,f); R={c:pt.get_num(b.get(),REPS[f,l[0][1]],l[0][2],l[0][0]) for c,l in L.items()}
            zi=pow(R['Z'],-1,p) if R['Z'] else 0
            if (R['X']*zi%p,R['Y']*zi%p)!=w or (R['T']*R['Z']-R['X']*R['Y'])%p: d['what']='another point'; d['result']={c:hex(v) for c,v in R.items()}; return d,done
    return None,done
def enc_search(f,seed,n,limit):
    fn,nb,kind=ENC[f]; cv=pt.ED25 if f=='25519' else pt.ED448; p=cv.p; N=nat.lib((fn,DEC[f][0])); g=build._Fn(N.addr(fn),None); rng=random.Random(seed); t0=time.time(); done=0; L=pt.layout(kind,f)
    for i in range(n):
        if time.time()-t0>limit: break
        X,Y,Z,T,P=pt.somepoint(rng,cv,REPS[f,'2r'],False); raw=bytearray(pt.size(kind,f)); C={'X':X,'Y':Y,'Z':Z,'T':T}
        if i%5==0: P=(rng.randrange(p),p-1-rng.randrange(30)) if i%2 else (rng.randrange(40),rng.randrange(40)); Z=rng.randrange(1,p); C={'X':P[0]*Z%p,'Y':P[1]*Z%p,'Z':Z,'T':P[0]*P[1]*Z%p}
        for c,l in L.items(): pt.put_num(raw,REPS[f,l[0][1]],l[0][2],l[0][0],C[c])
        o=build.Buf(nb); g(o,build.Buf(len(raw),bytes(raw),32)); w=rfc_encode(cv,P,nb); done+=1
        if o.get()!=w or not o.guards_ok(): return {'function':fn,'X':hex(C['X']),'Y':hex(C['Y']),'Z':hex(Z),'returned':o.get().hex(),'expected':w.hex(),'what':'not the encoding of the point'},done
    return None,done
def iso_search(f,seed,n,limit):
    cv=pt.TW448; p=cv.p; N=nat.lib((ISO,)); g=build._Fn(N.addr(ISO),None); rng=random.Random(seed); t0=time.time(); done=0; L=pt.layout('2w','448')
    for i in range(n):
        if time.time()-t0>limit: break
        X,Y,Z,T,P=pt.somepoint(rng,cv,REPS['448','2r'],False); raw=bytearray(pt.size('2w','448')); C={'X':X,'Y':Y,'Z':Z,'T':T}
        for c,l in L.items(): pt.put_num(raw,REPS['448',l[0][1]],l[0][2],l[0][0],C[c])
        b=build.Buf(len(raw),bytes(raw),32); g(b); R={c:pt.get_num(b.get(),REPS['448',l[0][1]],l[0][2],l[0][0]) for c,l in L.items()}; w=dual_num(P); done+=1
        zi=pow(R['Z'],-1,p) if R['Z'] else 0
        if (R['X']*zi%p,R['Y']*zi%p)!=w: return {'function':ISO,'X':hex(X),'Y':hex(Y),'Z':hex(Z),'result':{c:hex(v) for c,v in R.items()},'expected (affine)':[hex(v) for v in w],'what':'not the image of the point'},done
    return None,done
def op_search(f,i,seed,n,limit):
    op=OPS[f][i]; N=nat.lib(tuple(sorted({o.fn for o in OPS[f]}))); return pt.search(N.addr(op.fn),op,random.Random(seed),n,limit)
def go(j):
    k,a=j
    return {'op':op_job,'enc':enc_job,'dec':dec_job,'iso':iso_job,'facts':iso_facts,'root':root_job}[k](a)
def run(c,f):
    mod=build.module(); api.offsets(); jobs=[]; label={}
    for i,op in enumerate(OPS[f]):
        if op.fn not in mod.funcs: c.undec(op.fn,'no such function'); continue
        j=('op',(f,i)); jobs.append(j); label[j]=(f'{op.fn}{op.extra or ""}: '+('double' if op.op[0]=='dbl' else 'sum')+f' on {op.curve.name} for every pair of points and every projective representation',lambda s,n,l,i=i:op_search(f,i,s,n,l),op.fn+str(op.extra or ''))
    jobs+=[('enc',f),('dec',f)]
    label['enc',f]=(f'{ENC[f][0]}: canonical y with the sign of x',lambda s,n,l:enc_search(f,s,n,l),ENC[f][0])
    label['dec',f]=(f'{DEC[f][0]}: accepts exactly the valid encodings, returns minus the point'+(' under the isogeny' if f=='448' else ''),lambda s,n,l:dec_search(f,s,n,l),DEC[f][0])
    if f=='448':
        if ISO in mod.funcs: jobs.append(('iso',f)); label['iso',f]=(ISO+': the dual isogeny to Ed448',lambda s,n,l:iso_search(f,s,n,l),ISO)
        else: c.undec(ISO,'no such function')
        jobs.append(('facts',f)); label['facts',f]=('both compositions of the isogenies are multiplication by 4, images lie on the curves, identity maps to identity',None,'isogeny')
        rts=[('448','_1w_red',None,(1,))]
    else: rts=[('25519','_1w_full','invsqrt_Fp255_1w_fullradix',(q,)) for q in (0,1)] if 'invsqrt_Fp255_1w_fullradix' in mod.funcs else []
    jobs+=[('root',x) for x in rts]
    out=nat.parallel(go,jobs,8,timeout=max(60,c.left()-200))
    res={j:(o[1] if o[0]=='ok' else {'ok':False,'why':str(o)[:300]}) for j,o in zip(jobs,out)}
    rootok=None
    for j,r in res.items(): merge(c,r)
    R=[res['root',x] for x in rts]
    if not R: rootok='no root function'
    else: rootok=next((r['why'] for r in R if not r['ok']),None)
    if rootok is None:
        if f=='448':
            if R[0]['X'][0]!=(1,{'v0':(fe.P448-3)//4}): rootok='the root power is another power'
        else: rootok=judge(f,1,{x[3]:r for x,r in zip(rts,R)})
    todo=[j for j in jobs if j[0]!='root']
    def nat1(j):
        if label[j][1] is None: return None
        ok=res[j]['ok']; return label[j][1](c_seed,100 if ok else 10**9,12 if ok else 90)
    c_seed=c.rng.random()
    names={op.fn for op in OPS[f]}|{ENC[f][0],DEC[f][0]}|({ISO} if f=='448' else set()); nat.lib(tuple(sorted({o.fn for o in OPS[f]}))); nat.lib((ENC[f][0],DEC[f][0])) ; nat.lib((DEC[f][0],ENC[f][0]))
    if f=='448': nat.lib((ISO,))
    nr=nat.parallel(nat1,todo,8,timeout=200)
    for j,n in zip(todo,nr):
        r=res[j]; lb,_,key=label[j]
        if n[0]=='ok' and n[1] and n[1][0]: c.violation(key,f"{key}: {n[1][0].get('what')}",n[1][0]); continue
        if n[0]=='crash': c.violation(key,f'{key} crashes (signal {n[1]})',{'function':key}); continue
        if n[0]=='ok' and n[1]: c.validated+=n[1][1]
        if j[0]=='dec' and rootok is not None: c.undec(lb,'square root: '+rootok); continue
        if r['ok']: c.good(lb,f"{r.get('kernels',0)} kernel contracts, {r.get('sec',0):.1f} s"+(f", {r['paths']} paths" if 'paths' in r else ''))
        else: c.undec(lb,f"{r['why']} {r.get('failed','')}")
    c.bounds=['all points of the curve in every projective representation with digits up to 1/32 above their nominal width (a superset of what the library produces), identity, equal and opposite operands included','all 2^256 (2^456) byte strings for decoding']
    c.assume=['the addition law of a twisted Edwards curve with square a (25519) or a=+-1 over GF(2^448-2^224-1), and nonsquare d is complete (denominators are never zero)','square root contract: discharged in this run on power products (see C07)','canonical words of a value equal a given integer exactly when that integer is below p']
def run_C10(c): run(c,'25519')
def run_C11(c): run(c,'448')
