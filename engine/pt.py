"""Point operations as polynomial identities modulo the curve equation, and their contracts."""
import time
import terms as tm, ex as exm, fe, kern, api
from terms import M
from ex import Ptr,Unsupported
from fields import REPS
from fe import P25519,P448
class Curve:
    """a*x^2+y^2=1+d*x^2*y^2"""
    def __init__(s,name,field,a,d,B,n): s.name=name; s.field=field; s.p=fe.PR[field]; s.a=a%s.p; s.d=d%s.p; s.B=B; s.n=n
    def on(s,P): x,y=P; return (s.a*x*x+y*y-1-s.d*x*x*y*y)%s.p==0
    def add(s,P,Q):
        (x1,y1),(x2,y2)=P,Q; p=s.p; t=s.d*x1*x2*y1*y2%p
        return (x1*y2+y1*x2)*pow(1+t,-1,p)%p,(y1*y2-s.a*x1*x2)*pow(1-t,-1,p)%p
    def mul(s,k,P):
        """projective ladder-free double and add"""
        X,Y,Z=0,1,1; p=s.p; bx,by=P
        def padd(A,Bq):
            X1,Y1,Z1=A;X2,Y2,Z2=Bq
            a=Z1*Z2%p;b=a*a%p;c=X1*X2%p;d=Y1*Y2%p;e=s.d*c*d%p;f=(b-e)%p;g=(b+e)%p
            return a*f*((X1+Y1)*(X2+Y2)-c-d)%p,a*g*(d-s.a*c)%p,f*g%p
        R=(0,1,1);A=(bx,by,1)
        while k:
            if k&1: R=padd(R,A)
            A=padd(A,A); k>>=1
        i=pow(R[2],-1,p); return R[0]*i%p,R[1]*i%p
    def neg(s,P): return (-P[0])%s.p,P[1]
D25=(-121665*pow(121666,-1,P25519))%P25519
L25=2**252+27742317777372353535851937790883648493
L448=2**446-13818066809895115352007386748515426880336692474882178609894547503885
def _b25():
    p=P25519; y=4*pow(5,-1,p)%p; u=(y*y-1)%p; v=(D25*y*y+1)%p; x=u*pow(v,3,p)*pow(u*pow(v,7,p),(p-5)//8,p)%p
    if (v*x*x-u)%p: x=x*pow(2,(p-1)//4,p)%p
    if x&1: x=p-x
    return x,y
ED25=Curve('edwards25519','25519',-1,D25,_b25(),L25)
B448=(224580040295924300187604334099896036246789641632564134246125461686950415467406032909029192869357953282578032075146446173674602635247710,298819210078481492676017930443930673437544040154080242095928241372331506189835876003536878655418784733982303233503462500531545062832660)
ED448=Curve('edwards448','448',1,-39081,B448,L448)
TW448=Curve('twisted edwards448','448',-1,-39082,None,L448)
# layouts: coordinate -> [(offset,representation,lane) per point]
def _l(**k): return k
LAY={'full':_l(X=[(0,'1f',0)],Y=[(32,'1f',0)],Z=[(64,'1f',0)],T=[(96,'1f',0)]),
 '1w':_l(X=[(0,'1r',0)],Y=[(96,'1r',0)],Z=[(192,'1r',0)],T=[(288,'1r',0)]),
 '2w':_l(X=[(0,'2r',0)],Y=[(0,'2r',1)],T=[('h','2r',0)],Z=[('h','2r',1)]),
 '4w':_l(X=[(0,'4r',0)],Y=[(0,'4r',1)],T=[(0,'4r',2)],Z=[(0,'4r',3)]),
 '4wp':_l(sub=[(0,'4r',0)],add=[(0,'4r',1)],dT=[(0,'4r',2)],dZ=[(0,'4r',3)]),
 '2wp':_l(sub=[(0,'2r',0)],add=[(0,'2r',1)],dT=[('h','2r',0)],dZ=[('h','2r',1)]),
 '2way':_l(X=[(0,'2r',l) for l in(0,1)],Y=[('1','2r',l) for l in(0,1)],Z=[('2','2r',l) for l in(0,1)],T=[('3','2r',l) for l in(0,1)]),
 '4way':_l(X=[(0,'4r',l) for l in range(4)],Y=[('1','4r',l) for l in range(4)],Z=[('2','4r',l) for l in range(4)],T=[('3','4r',l) for l in range(4)]),
 '4waya':_l(add=[(0,'4r',l) for l in range(4)],sub=[('1','4r',l) for l in range(4)],dT=[('2','4r',l) for l in range(4)])}
def layout(kind,field):
    out={}
    for c,l in LAY[kind].items():
        q=[]
        for o,rn,la in l:
            sz=REPS[field,rn].size
            if o=='h': o=sz
            elif isinstance(o,str): o=int(o)*sz
            q.append((o,rn,la))
        out[c]=q
    return out
def size(kind,field): return max(o+REPS[field,rn].size for l in layout(kind,field).values() for o,rn,_ in l)
def npts(kind): return len(next(iter(LAY[kind].values())))
def nominal(rep,k=5):
    """digits up to 1/2^k above their width"""
    if rep.full: return [[(0,M(64))]*len(rep.digs[0])]
    exps=sorted({e for l in rep.digs for _,e in l}); bits=255 if rep.field=='25519' else 448
    wd={e:(exps[i+1] if i+1<len(exps) else bits)-e for i,e in enumerate(exps)}
    return [[(0,(1<<wd[e])+(1<<wd[e]-k)-1) for _,e in rep.digs[l]] for l in range(rep.lanes)]
class OP:
    """args: [(name,kind)], effect: name of the argument that receives the result, op: add(a,b)|dbl(a); noT: result without T; freeT: the operand's T is not used"""
    def __init__(s,fn,curve,args,out,op,extra=(),noT=False,freeT=False): s.freeT=freeT; s.fn=fn;s.curve=curve;s.args=args;s.out=out;s.op=op;s.extra=extra;s.noT=noT
OPS25=[OP('_1way_doubling_1w_full',ED25,[('P','full')],'P',('dbl','P')),
 OP('_1way_fulladd_1w_full',ED25,[('R','full'),('Q','full'),('P','full')],'R',('add','Q','P')),
 OP('_1way_doubling_2w_H0H5',ED25,[('P','2w')],'P',('dbl','P')),
 OP('_1way_fulladd_2w_H0H5',ED25,[('Q','2w'),('P','2w')],'Q',('add','Q','P')),
 OP('_1way_mixadd_4w_H0H5',ED25,[('Q','4w'),('P','4wp')],'Q',('add','Q','P')),
 OP('_1way_doubling_4w_H0H5',ED25,[('P','4w')],'P',('dbl','P')),
 OP('_2way_doubling',ED25,[('P','2way')],'P',('dbl','P'),extra=(1,),freeT=True),
 OP('_2way_doubling',ED25,[('P','2way')],'P',('dbl','P'),extra=(0,),noT=True,freeT=True),
 OP('_2way_fulladd',ED25,[('Q','2way'),('P','2way')],'Q',('add','Q','P')),
 OP('_4way_mixadd_25519',ED25,[('Q','4way'),('P','4waya')],'Q',('add','Q','P'))]
OPS448=[OP('_1way_doubling_2w_H0H8',TW448,[('P','2w')],'P',('dbl','P')),
 OP('_1way_fulladd_2w_H0H8',TW448,[('Q','2w'),('P','2w')],'Q',('add','Q','P')),
 OP('_1way_mixadd_4w_H0H8',TW448,[('Q','4w'),('P','4wp')],'Q',('add','Q','P')),
 OP('_1way_doubling_4w_H0H8',TW448,[('P','4w')],'P',('dbl','P')),
 OP('_4way_mixadd_ed448',TW448,[('Q','4way'),('P','4waya')],'Q',('add','Q','P'))]
def coords(S,cv,x,y,z,kind):
    """the coordinates a structure of this kind holds for the point (x,y) scaled by z"""
    xy=S.mul(x,y)
    if 'X' in LAY[kind]: return {'X':S.mul(x,z),'Y':S.mul(y,z),'T':S.mul(xy,z),'Z':z}
    k={'add':S.add(y,x),'sub':S.add(y,x,-1),'dT':S.scale(xy,2*cv.d)}
    if 'dZ' in LAY[kind]: k={'add':S.mul(k['add'],z),'sub':S.mul(k['sub'],z),'dT':S.mul(k['dT'],z),'dZ':S.scale(z,2)}
    return k
def newpoint(S,cv,name):
    x,y=S.var('x'+name),S.var('y'+name); i,j=next(iter(x))[0],next(iter(y))[0]
    k=tuple(sorted((i,i,j,j))); di=pow(cv.d,-1,cv.p)
    # d x^2 y^2 = a x^2 + y^2 - 1
    S.rules[k]={(i,i):cv.a*di%cv.p,(j,j):di,():(-di)%cv.p}
    S.rules[k]={m:c for m,c in S.rules[k].items() if c}
    return x,y
def affine(S,cv,op,P):
    """(numerators, denominators) of the result: x=Nx/Dx, y=Ny/Dy; both denominators are never zero on the curve"""
    if op=='add':
        (x1,y1),(x2,y2)=P; t=S.scale(S.mul(S.mul(x1,x2),S.mul(y1,y2)),cv.d); one=S.const(1)
        return S.add(S.mul(x1,y2),S.mul(y1,x2)),S.add(S.mul(y1,y2),S.scale(S.mul(x1,x2),cv.a),-1),S.add(one,t),S.add(one,t,-1)
    x,y=P[0]; xx,yy=S.mul(x,x),S.mul(y,y); q=S.add(S.scale(xx,cv.a),yy)
    return S.scale(S.mul(x,y),2),S.add(yy,S.scale(xx,cv.a),-1),q,S.add(S.const(2),q,-1)
def ratio(S,A,B):
    """c with A=c*B, or None"""
    if not A or not B or set(A)!=set(B): return None
    m=next(iter(A)); c=A[m]*pow(B[m],-1,S.p)%S.p
    return c if all((A[k]-c*B[k])%S.p==0 for k in A) else None
def sameproj(S,cv,op,P,zs,R,noT=False):
    """R (coordinates) represents op(P) with Z a unit; returns None or what fails"""
    Nx,Ny,Dx,Dy=affine(S,cv,op,P); m=S.mul
    if m(R['X'],Dx)!=m(Nx,R['Z']): return 'x-coordinate'
    if m(R['Y'],Dy)!=m(Ny,R['Z']): return 'y-coordinate'
    if not noT and m(R['T'],R['Z'])!=m(R['X'],R['Y']): return 'X*Y=Z*T'
    DD=m(Dx,Dy); import itertools
    for ex in itertools.product(range(0,9),repeat=len(zs)):
        q=DD
        for z,e in zip(zs,ex):
            for _ in range(e): q=m(q,z)
        if ratio(S,R['Z'],q): return None
    return 'Z is not a product of nonzero factors'
class PtProver:
    def __init__(s,mod,pv): s.mod=mod; s.pv=pv; s.memo={}; s.fns=set(); s.steps=s.asm=0; s.failed=[]
    def prove(s,op,rg=None,al=None,rounds=0):
        """rg: argument -> coordinate -> list (per point) of digit ranges; al: arg -> arg sharing storage. -> output ranges (by coordinate, per point)"""
        F_=op.curve.field
        if rg is None: rg={n:profile(k,F_) for n,k in op.args}
        rg={n:{c:[tuple((0,fe.up(h)) for _,h in r) if not REPS[F_,layout(dict(op.args)[n],F_)[c][i][1]].full else tuple(r) for i,r in enumerate(l)] for c,l in v.items()} for n,v in rg.items()}
        key=(op.fn,op.extra,tuple(sorted((al or {}).items())),tuple((n,tuple((c,tuple(l)) for c,l in sorted(v.items()))) for n,v in sorted(rg.items())))
        r=s.memo.get(key)
        if r is None:
            try: r=(s._go(op,rg,al or {}),None)
            except (Unsupported,exm.Fault,fe.TooBig,KeyError,AttributeError) as x: r=(None,f'{type(x).__name__}: {x}'); s.failed.append((op.fn,r[1]))
            s.memo[key]=r
        if r[0] is None: raise Unsupported(f'{op.fn}: {r[1]}')
        return r[0]
    def _go(s,op,rg,al):
        cv=op.curve; f=cv.field; S=fe.Sem(cv.p); F=fe.FE(s.mod,f,S,s.pv); hk=F.hooks(); e=exm.Ex(s.mod,hooks=hk); hk.pop(op.fn,None); e.max_steps=20_000_000
        if op.fn not in s.mod.funcs: raise Unsupported('no such function')
        kd=dict(op.args); ptr={}; pts={}; zs={}; n=max(npts(k) for _,k in op.args)
        for a,k in op.args:
            if a in al: ptr[a]=ptr[al[a]]; pts[a]=pts[al[a]]; zs[a]=zs[al[a]]; continue
            ptr[a]=e.alloc(a,size(k,f),32)
            for o in range(0,size(k,f),8): e.wr_(ptr[a].o,o,8,tm.var(f'junk.{a}.{o}',64))
            if a not in op.op: continue
            pts[a]=[newpoint(S,cv,f'{a}{i}') for i in range(n)]; zs[a]=[S.var(f'z{a}{i}') if 'Z' in LAY[k] or 'dZ' in LAY[k] else S.const(1) for i in range(n)]
            L=layout(k,f)
            for i in range(n):
                C=coords(S,cv,*pts[a][i],zs[a][i],k)
                if op.freeT and 'T' in C: C['T']=S.var(f'anyT{a}{i}')
                for c,l in L.items(): o,rn,la=l[i]; F.put(e,e.padd(ptr[a],o),rn,la,C[c],list(rg[a][c][i]))
        ret=e.call(op.fn,*[ptr[a] for a,_ in op.args],*op.extra)
        L=layout(kd[op.out],f); out={}
        for i in range(n):
            R={}
            for c,l in L.items():
                if c=='T' and op.noT: continue
                o,rn,la=l[i]; P,r=F.lane(e,e.padd(ptr[op.out],o),REPS[f,rn],la); R[c]=F.lift(P); out.setdefault(c,[]).append([(0,h) for _,h in r] if not REPS[f,rn].full else list(r))
                if any(lo<0 for lo,_ in r): raise Unsupported('negative digit')
            w=sameproj(S,cv,op.op[0],[pts[a][i] for a in op.op[1:]],[z for z in dict.fromkeys(tuple(zs[a][i].items()) for a in op.op[1:])] and [zs[a][i] for a in op.op[1:] if zs[a][i]!=S.const(1)],R,op.noT)
            if w: raise Unsupported(f'point {i}: {w} is not that of the {"sum" if op.op[0]=="add" else "double"}')
        s.fns|=e.fnset; s.steps+=e.steps; s.asm+=e.inlineasm
        return out
def profile(kind,field,k=5):
    return {c:[nominal(REPS[field,rn],k)[la] for o,rn,la in l] for c,l in layout(kind,field).items()}
def within(rg,prof): return all(h2<=fe.up(h) for c in rg for a,b in zip(prof[c],rg[c]) for (_,h),(_,h2) in zip(a,b))
# ---------------------------------------------------------------- concrete points in concrete digit patterns
def split(rep,l,v):
    """digits of the integer v (the top digit takes what is left)"""
    o=sorted((e,off) for off,e in rep.digs[l]); out={}
    for i,(e,off) in enumerate(o):
        if i+1<len(o): w=o[i+1][0]-e; out[off]=v&((1<<w)-1); v>>=w
        else: out[off]=v
    return out
def sqrt_mod(a,p):
    if p%4==3: r=pow(a,(p+1)//4,p)
    else:
        r=pow(a,(p+3)//8,p)
        if r*r%p!=a%p: r=r*pow(2,(p-1)//4,p)%p
    return r if r*r%p==a%p else None
def pattern(rng,rep):
    """an element, often with extreme digits"""
    p=rep.p; k=rng.randrange(8); exps=sorted(e for _,e in rep.digs[0])
    if k<2: return p-1-rng.randrange(1<<rng.choice((3,16,30)))
    if k<4: return rng.randrange(1<<rng.choice((3,16,30)))
    if k==4: return sum(rng.choice((0,0,(1<<((exps+[p.bit_length()])[i+1]-e))-1)) << e for i,e in enumerate(exps))%p
    if k==5:
        while 1:
            r=sqrt_mod(rng.randrange(0,40),p)
            if r is not None: return rng.choice((r,-r%p))
    return rng.randrange(p)
def solve_ratio(cv,X,Y):
    """z with (X/z,Y/z) on the curve, or None"""
    p=cv.p; # a X^2 z^2 + Y^2 z^2 = z^4 + d X^2 Y^2 ; w=z^2
    b=(cv.a*X*X+Y*Y)%p; c=cv.d*X*X*Y*Y%p; D=sqrt_mod((b*b-4*c)%p,p)
    if D is None: return None
    for s in (D,-D):
        w=(b+s)*pow(2,-1,p)%p; z=sqrt_mod(w,p)
        if z: return z
    return None
def somepoint(rng,cv,rep,pre):
    p=cv.p
    while 1:
        X,Y=pattern(rng,rep),pattern(rng,rep)
        if pre: X,Y=(Y-X)*pow(2,-1,p)%p,(Y+X)*pow(2,-1,p)%p
        z=solve_ratio(cv,X,Y)
        if z: i=pow(z,-1,p); return X,Y,z,X*Y*i%p,(X*i%p,Y*i%p)
def put_num(buf,rep,l,off,v):
    for o,d in split(rep,l,v).items(): buf[off+o:off+o+8]=d.to_bytes(8,'little')
def get_num(buf,rep,l,off): return sum(int.from_bytes(buf[off+o:off+o+8],'little')<<e for o,e in rep.digs[l])%rep.p
def native_ops(ops,N): return N
def fits(rep,l,v,rg):
    return rg is None or all(v>>0>=0 and d<=h for (o,_),(_,h) in zip(rep.digs[l],rg) for d in (split(rep,l,v)[o],))
def search(addr,op,rng,n,limit=60,lay=None):
    """a concrete point pair on which the compiled operation is wrong"""
    import build
    cv=op.curve; f=cv.field; p=cv.p; g=build._Fn(addr,None); t0=time.time(); done=0
    pts={'':1}
    for it in range(n):
        if time.time()-t0>limit: break
        k=max(npts(kd) for _,kd in op.args); B={}; A={}; inp={}
        for a,kd in op.args:
            raw=bytearray(size(kd,f)); L=layout(kd,f)
            if a in op.op:
                A[a]=[]
                for i in range(k):
                    rep=REPS[f,next(iter(L.values()))[i][1]]; affine1='dZ' not in L and 'Z' not in L
                    while 1:
                        X,Y,Z,T,P=somepoint(rng,cv,rep,'add' in L)
                        if affine1: X,Y=P; Z=1; T=X*Y%p
                        C={'X':X,'Y':Y,'Z':Z,'T':T,'add':(Y+X)%p,'sub':(Y-X)%p,'dT':2*cv.d*T%p,'dZ':2*Z%p}
                        break
                    if it<8 and rng.random()<.3 and not affine1: X,Y,Z,T,P=0,1,1,0,(0,1); C={'X':0,'Y':1,'Z':1,'T':0,'add':1,'sub':1,'dT':0,'dZ':2}
                    for c,l in L.items(): o,rn,la=l[i]; put_num(raw,REPS[f,rn],la,o,C[c])
                    A[a].append(P); inp[f'{a}{i}']={c:hex(C[c]) for c in L}
            B[a]=build.Buf(len(raw),bytes(raw),32)
        g(*[B[a] for a,_ in op.args],*op.extra)
        if not all(b.guards_ok() for b in B.values()): return {'function':op.fn,'input':inp,'what':'memory next to an operand was modified'},done
        kd=dict(op.args)[op.out]; L=layout(kd,f); raw=B[op.out].get()
        for i in range(k):
            R={c:get_num(raw,REPS[f,l[i][1]],l[i][2],l[i][0]) for c,l in L.items()}
            w=cv.add(A[op.op[1]][i],A[op.op[-1]][i])
            if not R['Z']: bad='Z is 0'
            else:
                zi=pow(R['Z'],-1,p); x,y=R['X']*zi%p,R['Y']*zi%p
                bad=None if (x,y)==w else 'another point' if cv.on((x,y)) else 'not a point of the curve'
                if not bad and not op.noT and R['T']*R['Z']%p!=R['X']*R['Y']%p: bad='T*Z differs from X*Y'
            if bad: return {'function':op.fn,'op':op.op[0],'curve':cv.name,'input':{a:v for a,v in inp.items() if a.endswith(str(i))},'result':{c:hex(v) for c,v in R.items()},'expected (affine)':[hex(v) for v in w],'what':bad},done
        done+=1
    return None,done
if __name__=='__main__':
    import build,sys
    mod=build.module(); pv=fe.Prover(mod); pp=PtProver(mod,pv)
    for op in OPS25+OPS448:
        t=time.time()
        try: o=pp.prove(op); print(op.fn,op.extra,'ok',within(o,profile(dict(op.args)[op.out],op.curve.field)),f'{time.time()-t:.1f}')
        except Unsupported as x: print(op.fn,str(x)[:300],f'{time.time()-t:.1f}')
