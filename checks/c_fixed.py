"""C12/C13: fixed-base scalar multiplication: recoding, table lookups, table contents, and the additions that join them."""
import random,time,ctypes
import build,ex as exm,terms as tm,api,nat,solve,fe,pt,gl
from terms import M
from ex import Ptr
from solve import Solver
from fields import REPS
from c_edw import merge,result,ERR,OPS,dual_num,ENC,ISO
import c_edw
class CF: pass
A=CF(); A.f='25519'; A.cv=pt.ED25; A.mul='point_multiplication_ed25519'; A.query='query_table_fold2w4_ed25519'; A.nt=16; A.e=lambda t,l:2*t+32*(l&1); A.nib=64; A.nb=32; A.L=pt.L25; A.bits=252; A.api='X25519'; A.e2m='point_Edwards2Montgomery_ed25519'; A.B=pt.ED25.B; A.top=253
def phi_num(P):
    x,y=P; p=fe.P448; return 2*x*y*pow(y*y-x*x,-1,p)%p,(x*x+y*y)*pow(2-x*x-y*y,-1,p)%p
Z=CF(); Z.f='448'; Z.cv=pt.TW448; Z.mul='fixed_point_multiplication_ed448'; Z.query='query_table_fold4w4_ed448'; Z.nt=28; Z.e=lambda t,l:4*t; Z.nib=112; Z.nb=56; Z.L=pt.L448; Z.bits=446; Z.api='X448'; Z.e2m='point_Edwards2Montgomery_ed448'; Z.top=448
_T=[]
def base(cf):
    """the point the tables hold multiples of"""
    if cf is A: return cf.B
    if not _T:
        x,y=pt.ED448.B; _T.append(phi_num((x,y)))
    return _T[0]
CFG={'25519':A,'448':Z}
KIND='4waya'
def multiples(cf,P,n):
    out=[(0,1)]
    for i in range(n): out.append(cf.cv.add(out[-1],P))
    return out
# ------------------------------------------------------------------ lookups
def query_job(item):
    f,t=item; cf=CFG[f]; mod=build.module(); pv=fe.Prover(mod); tt=time.time(); r={'ok':False,'why':None}; st0=dict(solve.STAT); e=None; cv=cf.cv; p=cv.p
    try:
        sv=Solver(20000); e=exm.Ex(mod,solver=sv); e.max_steps=20_000_000
        P=e.alloc('P',pt.size(KIND,f),32); S=e.alloc('S',32,32); K=e.alloc('K',32,32); ds=[];ss=[]
        for o in range(0,pt.size(KIND,f),8): e.wr_(P.o,o,8,tm.var(f'junk.{o}',64))
        for l in range(4):
            d=tm.var(f'digit{l}',4); s=tm.var(f'sign{l}',1); ds.append(d); ss.append(s)
            e.wr_(K.o,8*l,8,tm.zext(d,4,64)); e.wr_(S.o,8*l,8,tm.sext(s,1,64))
        e.call(cf.query,P,S,K,t)
        L=pt.layout(KIND,f); pc=[tm.not_(1,tm.ult(4,8,d)) for d in ds]; mx={}
        outs=[[(c,o,off,ee,e._int(e.rd_(P.o,off+o,8))) for c,ll in L.items() for off,rn,la in [ll[l]] for o,ee in REPS[f,rn].digs[la]] for l in range(4)]
        for l in range(4):
            G=cv.mul(pow(16,cf.e(t,l),cf.L),base(cf)); mu=multiples(cf,G,8)
            for d in range(9):
                for s in (0,1):
                    env={x:0 for x in ds+ss}; env[ds[l]]=d; env[ss[l]]=s
                    ts=[x[4] for x in outs[l]]; vs=tm.evalt([x for x in ts if not isinstance(x,int)],env); it=iter(vs); vs=[x if isinstance(x,int) else next(it) for x in ts]
                    x,y=mu[d]; 
                    if s: x=-x%p
                    want={'add':(y+x)%p,'sub':(y-x)%p,'dT':2*cv.d*x*y%p}; got={'add':0,'sub':0,'dT':0}
                    for (c,o,off,ee,_),v in zip(outs[l],vs): got[c]+=v<<ee; mx[c,o]=max(mx.get((c,o),0),v)
                    bad=[c for c in want if got[c]%p!=want[c]]
                    if bad: r['why']=f'table {t} lane {l} digit {-d if s else d}: coordinate {bad[0]} is not that of the multiple'; r['cex']=(t,l,-d if s else d); return result(pv,tt,st0,r,e)
                    ok=sv.valid(pc+[tm.eq(4,ds[l],d),tm.eq(1,ss[l],s)],tm.and_(1,*[tm.eq(64,a,v) for a,v in zip(ts,vs)]))[0]
                    if ok is not True: r['why']=f'table {t} lane {l} digit {d}: depends on another lane' if ok is False else 'solver gave up'; return result(pv,tt,st0,r,e)
        r['mx']={f'{c}.{o}':v for (c,o),v in mx.items()}
        nomi=bounds(f)
        for (c,o),v in mx.items():
            if v>nomi[c][o]: raise exm.Unsupported('table digit too large')
        r['ok']=True
    except ERR as x: r['why']=f'{type(x).__name__}: {x}'
    return result(pv,tt,st0,r,e)
def bounds(f):
    """digits of a looked-up point: canonical; the third coordinate has p added"""
    rep=REPS[f,'4r']; out={}
    for c in ('add','sub','dT'): out[c]={o:(1<<(w+(c=='dT')))-1 for (o,e),w in zip(rep.digs[0],rep.nat)}
    # offsets of the other lanes
    for c in out:
        for l in rep.digs[1:]:
            for (o,e),w in zip(l,rep.nat): out[c][o]=(1<<(w+(c=='dT')))-1
    return out
# ------------------------------------------------------------------ the whole multiplication
class Run: pass
def setup(f,mod,pv,sv):
    cf=CFG[f]; R=Run(); R.cf=cf; R.S=fe.Sem(cf.cv.p); R.F=fe.FE(mod,f,R.S,pv); R.pp=pt.PtProver(mod,pv); R.G=gl.Group(R.F,R.pp,cf.cv); R.q=[]
    hk=R.F.hooks(); hk.update(R.G.hooks(OPS[f])); bd=bounds(f); L=pt.layout(KIND,f)
    def query(e,P,S,K,t):
        if not isinstance(t,int): raise exm.Unsupported('symbolic table index')
        if not 0<=t<cf.nt: raise exm.Unsupported('no such table')
        for l in range(4):
            d=e._int(e.rd(e.padd(K,8*l),8)); s=e._int(e.rd(e.padd(S,8*l),8)); n=len(R.q); R.q.append((t,l,d,s))
            x,y=R.G.fresh({('q',n):1}); one=R.S.const(1)
            R.G.write(e,P,KIND,l,x,y,one,{c:[(0,bd[c][o]) for o,_ in REPS[f,rn].digs[la]] for c,ll in L.items() for off,rn,la in [ll[l]]})
        return None
    hk[cf.query]=query
    R.div4=[]
    if f=='448':
        def div4(e,o,n):
            src=[e._int(e.rd(e.padd(n,8*i),8)) for i in range(7)]; k=len(R.div4)
            w=[tm.var(f'quarter{k}.{i}',64) for i in range(6)]+[tm.concat([(tm.var(f'quarter{k}.6',62),62),(0,2)])]   # below the group order, hence below 2^446
            for i in range(7): e.wr(e.padd(o,8*i),8,w[i])
            e.wr(e.padd(o,56),1,0)
            R.div4.append((src,w)); return None
        hk['div4']=div4
        def iso(e,P):
            C,rg=R.G.read(e,P,'2w'); g,_=R.G.recognise(C); pr=pt.profile('2w',f)
            if any(lo<0 or h>fe.up(h2) for c in rg for (lo,h),(_,h2) in zip(rg[c],pr[c][0])): raise exm.Unsupported('digits beyond the contract of the isogeny')
            x,y=R.G.fresh({('iso',)+tuple(sorted(g.items())):1},pt.ED448); z=R.G.newz(); R.G.write(e,P,'2w',0,x,y,z,{c:l[0] for c,l in pr.items()},noT=True)
            return None
        hk[ISO]=iso
    R.e=exm.Ex(mod,hooks=hk,solver=sv); R.e.max_steps=50_000_000
    return R
def final(R,P):
    """group element in memory -> combination of the queries"""
    C,rg=R.G.read(R.e,P,'2w',0,noT=R.cf.f=='448')
    return unwrap(R,R.G.recognise(C,pt.ED448 if R.cf.f=='448' else None)[0])
def unwrap(R,g):
    if R.cf.f!='448': return g
    if len(g)!=1: raise exm.Unsupported('several isogenies')
    (k,c),=g.items()
    if c!=1 or k[0]!='iso': raise exm.Unsupported('no isogeny')
    return dict(k[1:])
def digits(R,sv,g,words,shift=0):
    """g = [scalar]B (scalar's nibbles are those of words, times 2^shift)? -> None or what is wrong; (why, model) on a counterexample"""
    cf=R.cf; want={pow(2,shift,cf.L)*pow(16,k,cf.L)%cf.L:k for k in range(cf.nib)}; pos={}
    for m,c in g.items():
        if m[0]!='q': raise exm.Unsupported('unexpected element')
        t,l,d,s=R.q[m[1]]; k=want.get(c*pow(16,cf.e(t,l),cf.L)%cf.L)
        if k is None: return f'the digit of table {t}, lane {l} has the weight of no digit',None
        if k in pos: return f'digit {k} is used twice',None
        pos[k]=(d,s)
    miss=[k for k in range(cf.nib) if k not in pos]
    if miss: return f'digits {miss[:4]} are not used',None
    nib=[tm.ext(words[k//16],4*(k%16),4) for k in range(cf.nib)]
    cin=0
    for k in range(cf.nib):
        d,s=pos[k]; ok,m=sv.valid([],tm.and_(1,tm.not_(1,tm.ult(64,8,d)),tm.or_(1,tm.eq(64,s,0),tm.eq(64,s,M(64)))))
        if ok is not True: return (f'digit {k} out of range' if ok is False else 'solver gave up'),m
        cout=tm.ext(s,0,1)
        lhs=tm.add(64,tm.zext(nib[k],4,64),tm.zext(cin,1,64)); v=tm.sub(64,tm.xor(64,d,s),s)
        rhs=tm.add(64,v,tm.concat([(0,4),(cout,1),(0,59)]))
        ok,m=sv.valid([],tm.eq(64,lhs,rhs))
        if ok is not True: return (f'digit {k} and its carry do not add up' if ok is False else f'solver gave up on digit {k}'),m
        cin=cout
    ok,m=sv.valid([],tm.eq(1,cin,0))
    if ok is not True: return ('a carry out of the last digit is lost' if ok is False else 'solver gave up'),m
    return None
def scalar(cf,name,bits):
    ws=[]
    for i in range(cf.nb//8):
        n=min(64,max(0,bits-64*i)); ws.append(tm.var(f'{name}{i}',64) if n==64 else tm.concat([(tm.var(f'{name}{i}',n),n),(0,64-n)]) if n else 0)
    return ws
def cex(cf,ws,m):
    if not m: return None
    try: v=sum(x<<(64*i) for i,x in enumerate(tm.evalt([w for w in ws],m)))
    except Exception: return None
    return 4*v%cf.L if cf is Z else v
def mul_job(f):
    cf=CFG[f]; mod=build.module(); pv=fe.Prover(mod); tt=time.time(); r={'ok':False,'why':None}; st0=dict(solve.STAT); R=None
    try:
        sv=Solver(60000); R=setup(f,mod,pv,sv); e=R.e; fn=cf.mul
        ws=scalar(cf,'r',cf.top); k=e.alloc('r',64,8); P=e.alloc('P',pt.size('2w',f),32)
        for i,w in enumerate(ws): e.wr_(k.o,8*i,8,w)
        e.call(fn,P,k)
        if f=='448':
            if len(R.div4)!=1 or any(a is not b for a,b in zip(R.div4[0][0],ws)): raise exm.Unsupported('div4 is not called once, on the scalar')
            ws=R.div4[0][1]
        why=digits(R,sv,final(R,P),ws)
        if why: r['why'],m=why; r['bad']=not why[0].startswith('solver'); r['cex']=cex(cf,ws,m)
        else: r['ok']=True
        r['calls']=R.G.calls
    except ERR as x: r['why']=f'{type(x).__name__}: {x}'
    if R: pv.fns|=R.pp.fns; pv.steps+=R.pp.steps; pv.asm+=R.pp.asm
    return result(pv,tt,st0,r,R and R.e)
def keygen_job(f):
    """public key = Montgomery coordinate of [clamped key]B"""
    cf=CFG[f]; mod=build.module(); pv=fe.Prover(mod); tt=time.time(); r={'ok':False,'why':None}; st0=dict(solve.STAT); R=None
    try:
        sv=Solver(60000); R=setup(f,mod,pv,sv); e=R.e; S=R.S; fn=api.irfn(e,cf.api+'.keygen'); pts=[]
        def e2m(e_,o,P):
            pts.append(final(R,P)); C,_=R.G.read(e_,P,'2w',0,noT=f=='448'); pts.append(C); return NotImplemented
        e.hooks[cf.e2m]=e2m
        kb=[tm.var(f'k{i}',64) for i in range(cf.nb//8)]; k=e.alloc('key',cf.nb,1); o=e.alloc('pub',cf.nb,1)
        for i,w in enumerate(kb): e.wr_(k.o,8*i,8,w)
        for i in range(cf.nb): e.wr_(o.o,i,1,tm.var(f'junk{i}',8))
        e.call(fn,o,k)
        for i,w in enumerate(kb):
            if e.rd_(k.o,8*i,8) is not w: r['why']='the caller\'s key is modified'; r['bad']=True; return result(pv,tt,st0,r,e)
        cl=list(kb)
        if f=='25519':
            cl[0]=tm.concat([(0,3),(tm.ext(kb[0],3,61),61)]); cl[3]=tm.concat([(tm.ext(kb[3],0,62),62),(1,1),(0,1)])
            sc=[tm.concat([(tm.ext(cl[i],3,61),61),(tm.ext(cl[i+1],0,3) if i<3 else 0,3)]) for i in range(4)]; shift=3
        else:
            cl[0]=tm.concat([(0,2),(tm.ext(kb[0],2,62),62)]); cl[6]=tm.concat([(tm.ext(kb[6],0,63),63),(1,1)]); shift=0
            if len(R.div4)!=1: raise exm.Unsupported('div4 not called once')
            if any(sv.valid([],tm.eq(64,a,b))[0] is not True for a,b in zip(R.div4[0][0],cl)): r['why']='another scalar than the clamped key is used'; r['bad']=True; return result(pv,tt,st0,r,e)
            sc=R.div4[0][1]
        if len(pts)!=2: raise exm.Unsupported('no conversion to the Montgomery curve')
        why=digits(R,sv,pts[0],sc,shift)
        if why: r['why'],m=why; r['bad']=not why[0].startswith('solver'); return result(pv,tt,st0,r,e)
        C=pts[1]
        if f=='25519': u=S.mul(S.add(C['Z'],C['Y']),S.inv(S.add(C['Z'],C['Y'],-1)))
        else:
            u=S.mul(C['Y'],S.inv(C['X'])); u=S.mul(u,u)
        W=R.F.words(u); bad=[i for i in range(len(W)) if e.rd_(o.o,8*i,8) is not W[i] and sv.valid([],tm.eq(64,e.rd_(o.o,8*i,8),W[i]))[0] is not True]
        if bad: r['why']='the output is not the canonical Montgomery coordinate of the point'
        else: r['ok']=True
        r['calls']=R.G.calls
    except ERR as x: r['why']=f'{type(x).__name__}: {x}'
    if R: pv.fns|=R.pp.fns; pv.steps+=R.pp.steps; pv.asm+=R.pp.asm
    return result(pv,tt,st0,r,R and R.e)
# ------------------------------------------------------------------ facts
def fact_job(f):
    """the map to the Montgomery curve is a homomorphism on x-coordinates; the tables' base point"""
    cf=CFG[f]; tt=time.time(); r={'ok':False,'why':None}
    S=fe.Sem(cf.cv.p); cv=cf.cv if f=='25519' else pt.ED448; p=cv.p; m=S.mul; one=S.const(1); AA=486662 if f=='25519' else 156326
    def u(x,y): return (S.add(one,y),S.add(one,y,-1)) if f=='25519' else (m(y,y),m(x,x))
    def frac(num,den): return num,den
    P=pt.newpoint(S,cv,'P'); Q=pt.newpoint(S,cv,'Q')
    def rat(op,pts,neg=False):
        if neg: pts=[pts[0],(S.scale(pts[1][0],-1),pts[1][1])]
        nx,ny,dx,dy=pt.affine(S,cv,op,pts)
        return (S.add(dy,ny),S.add(dy,ny,-1)) if f=='25519' else (m(m(ny,dx),m(ny,dx)),m(m(nx,dy),m(nx,dy)))
    a,b=u(*P); c,d=u(*Q)
    # u(2P)=(u^2-1)^2/(4u(u^2+Au+1))
    n2,d2=rat('dbl',[P]); q=S.add(m(a,a),m(b,b),-1); N=m(q,q); D=S.scale(m(m(a,b),S.add(S.add(m(a,a),S.scale(m(a,b),AA)),m(b,b))),4)
    if m(n2,D)!=m(N,d2): r['why']='doubling does not match'
    else:
        n1,d1=rat('add',[P,Q]); n3,d3=rat('add',[P,Q],True)
        w=S.add(m(a,c),m(b,d),-1); v=S.add(m(a,d),m(b,c),-1)
        if m(m(n1,n3),m(v,v))!=m(m(d1,d3),m(w,w)): r['why']='differential addition does not match'
        else:
            x,y=cv.B; ub=((1+y)*pow(1-y,-1,p) if f=='25519' else y*y*pow(x*x,-1,p))%p
            if ub!=(9 if f=='25519' else 5): r['why']='base point does not map to the Montgomery base point'
            elif f=='448' and dual_num(base(cf))!=pt.ED448.mul(4,pt.ED448.B): r['why']='isogenies of the base point'
            elif not cv.on(cv.B) or cv.mul(cf.L,cv.B)!=(0,1): r['why']='base point'
            else: r['ok']=True
    r['sec']=time.time()-tt; return r
# ------------------------------------------------------------------ the native build
def scalars(cf,rng,n,top):
    for k in range(cf.nib):
        for d in range(1,16):
            v=d<<(4*k)
            if v<top: yield v
            v=((d<<(4*k+4))-1)
            if v<top: yield v
    for s in ('7','8','f','78','87','f7','70','0f','88f'):
        v=int((s*cf.nib)[:cf.nib],16)%top; yield v
        yield v>>4
    yield from (0,1,top-1,top-2)
    for i in range(n): yield rng.randrange(top)
def mul_search(f,seed,n,limit,extra=()):
    cf=CFG[f]; cv=pt.ED25 if f=='25519' else pt.ED448; p=cv.p; N=nat.lib((cf.mul,)); g=build._Fn(N.addr(cf.mul),None); rng=random.Random(seed); t0=time.time(); done=0; L=pt.layout('2w',f); top=cf.L
    pw=[cv.B]
    for i in range(cf.bits+6): pw.append(cv.add(pw[-1],pw[-1]))
    def ref(k):
        P=None; i=0
        while k:
            if k&1: P=pw[i] if P is None else cv.add(P,pw[i])
            k>>=1; i+=1
        return P or (0,1)
    vs=list(scalars(cf,rng,n,top)); rng.shuffle(vs); vs=[v for v in extra if v is not None]+vs
    for k in vs:
        if time.time()-t0>limit: break
        o=build.Buf(pt.size('2w',f),b'\x5a'*pt.size('2w',f),32); K=build.Buf(64,k.to_bytes(64,'little'),32)
        g(o,K); raw=o.get(); R={c:pt.get_num(raw,REPS[f,l[0][1]],l[0][2],l[0][0]) for c,l in L.items()}
        a={'function':cf.mul,'scalar':hex(k),'result':{c:hex(v) for c,v in R.items()}}
        w=ref(k) if k.bit_count()<60 else cv.mul(k,cv.B)
        if not R['Z']: a['what']='Z is 0'; return a,done
        zi=pow(R['Z'],-1,p); a['expected (affine)']=[hex(v) for v in w]
        if (R['X']*zi%p,R['Y']*zi%p)!=w: a['what']='not the multiple of the base point'; return a,done
        if f!='448' and (R['T']*R['Z']-R['X']*R['Y'])%p: a['what']='T*Z differs from X*Y'; return a,done
        if not o.guards_ok(): a['what']='memory next to the result was modified'; return a,done
        done+=1
    return None,done
def go(j):
    k,a=j
    return {'query':query_job,'mul':mul_job,'keygen':keygen_job,'facts':fact_job}[k](a)
def run(c,f):
    import c_ladder
    cf=CFG[f]; mod=build.module(); api.offsets(); jobs=[('mul',f),('keygen',f),('facts',f)]+[('query',(f,t)) for t in range(cf.nt)]
    nat.lib((cf.mul,)); nat.lib()
    out=nat.parallel(go,jobs,8,timeout=max(60,c.left()-200)); res={j:(o[1] if o[0]=='ok' else {'ok':False,'why':str(o)[:300]}) for j,o in zip(jobs,out)}
    for r in res.values(): merge(c,r)
    allok=all(r['ok'] for r in res.values()); seed=c.rng.random()
    def nat1(w): return (mul_search(f,seed,10**7 if not allok else 500,40 if allok else 150,[r.get('cex') for r in res.values()]) if w=='mul' else c_ladder.search(cf.api,'keygen',seed,2000 if not allok else 100,25 if allok else 150))
    nr=nat.parallel(nat1,['mul','keygen'],2,timeout=300)
    lab={'mul':f'{cf.mul}: [k]B for every scalar below 2^{cf.top}','keygen':f'{cf.api}.keygen: u-coordinate of [clamped key]B for every key','facts':'the map to the Montgomery curve carries doubling and differential addition, base point to base point'}
    for w,n in zip(('mul','keygen'),nr):
        fn=cf.mul if w=='mul' else cf.api+'.keygen'
        if n[0]=='ok' and n[1][0]: c.violation(fn,f"{fn}: {n[1][0].get('what','wrong public key')}",n[1][0])
        elif n[0]=='crash': c.violation(fn,f'{fn} crashes (signal {n[1]})',{'function':fn})
        elif n[0]=='ok': c.validated+=n[1][1]
    for j,r in res.items():
        nm=lab.get(j[0]) or f'{cf.query} table {j[1][1]}: every lane returns the signed multiple for every digit and sign'
        if r['ok']: c.good(nm,f"{r.get('calls',0)} group operations, {r.get('kernels',0)} field-kernel contracts, {r.get('sec',0):.1f} s" if j[0] in lab else None)
        else: c.undec(nm,f"{r['why']} {r.get('failed','')}")
    c.bounds=[f'every scalar below 2^{cf.top} (callers pass scalars reduced below the group order, or the clamped key divided by 8)' if f=='25519' else 'every scalar (448 bits); division by four modulo the group order as proved under C15','every table, lane, digit -8..8']
    c.assume=['the operands lie in a subgroup without points at infinity: the addition formulas have no exceptions (25519: complete formulas)','table multiples are recomputed from the base point in this run']
def run_C12(c): run(c,'25519')
def run_C13(c): run(c,'448')
if __name__=='__main__':
    import sys
    a=sys.argv[2] if len(sys.argv)<4 else (sys.argv[2],int(sys.argv[3]))
    r=go((sys.argv[1],a)); r['fns']=len(r['fns']) if 'fns' in r else 0; print(r)
