"""C14: the double-scalar multiplication of signature verification: NAF recoding, window tables, main loop, division by four, encoding."""
import random,time,ctypes
import build,ex as exm,terms as tm,api,nat,solve,fe,pt,gl,loop
from terms import M
from ex import Ptr
from solve import Solver
from fields import REPS
from c_edw import merge,result,ERR,OPS,dual_num,ENC,ISO
import c_edw,c_fixed
class CF: pass
A=CF(); A.f='25519'; A.cv=pt.ED25; A.fn='double_point_mult_4w_ed25519'; A.wnaf='wnaf_256bits'; A.pre='precompute_points_4w_ed25519'; A.rd='read_point_4w_ed25519'; A.nw=4; A.nb=32; A.kb=260; A.B=253; A.L=pt.L25; A.enc='point_encoding_ed25519'
Z=CF(); Z.f='448'; Z.cv=pt.TW448; Z.fn='double_point_mult_4w_ed448'; Z.wnaf='wnaf_448bits'; Z.pre='precompute_points_4w_ed448'; Z.rd='read_point_4w_ed448'; Z.nw=8; Z.nb=57; Z.kb=460; Z.B=446; Z.L=pt.L448; Z.enc='point_encoding_ed448'
CFG={'25519':A,'448':Z}
class Bad(Exception): pass
# ------------------------------------------------------------------ NAF
class Wnaf:
    def __init__(s,cf,e,K,w,R,sv): s.cf=cf; s.e=e; s.K=K; s.w=w; s.R=R; s.sv=sv; s.W=64*cf.nw; s.q=0
    def big(s,ws): return tm.concat([(x,64) for x in ws])
    def val(s,p,regs): return regs[p[1]] if p[0]=='r' else s.e.rd_(p[1],p[2],8)
    def probe(s,lc,sn,regs):
        pl=loop.places(s.e,sn,s.R,[o for o,_ in sn[1] if o is not s.src]); s.pl=[]
        for i,q in enumerate(pl):
            ch=[p for p in q if s.val(p,regs) is not s.R[i]]
            if not ch: raise exm.Unsupported(f'loop state not recognised (word {i})')
            s.pl.append(ch)
    def words(s,regs):
        out=[]
        for ch in s.pl:
            vs=[s.val(p,regs) for p in ch]
            if any(v is not vs[0] and v!=vs[0] for v in vs): raise exm.Unsupported('loop state held twice')
            out.append(vs[0])
        return out
    def bound(s,ws,n):
        b=s.cf.B-n
        return tm.not_(1,tm.ult(s.W,1<<b if b>=0 else 0,s.big(ws)))
    def start(s,lc,n,regs):
        if n:
            s.R=[tm.var(f'r{n}.{i}',64) for i in range(s.cf.nw)]
            for ch,v in zip(s.pl,s.R):
                for p in ch:
                    if p[0]=='r': regs[p[1]]=v
                    else: s.e.wr_(p[1],p[2],8,v)
        b=s.bound(s.R,n); s.e.pc=[b]; s.e.pcset={b}; s.k0=dict(s.K.o.cells)
    def need(s,c,what):
        s.q+=1; ok,m=s.sv.valid(s.e.pc,c)
        if ok is False: raise Bad(what)
        if ok is None: raise exm.Unsupported('solver gave up: '+what)
    def others(s,n):
        if any(s.K.o.cells.get(j)!=v for j,v in s.k0.items() if j!=n): raise exm.Unsupported('another digit is written')
    def end(s,lc,n,regs):
        w,W=s.w,s.W; X=s.words(regs); d=s.e.rd_(s.K.o,n,1); s.others(n); R=s.big(s.R); Y=s.big(X)
        s.need(tm.or_(1,tm.eq(8,d,0),tm.and_(1,tm.eq(1,tm.ext(d,0,1,8),1),tm.ult(8,tm.add(8,d,(1<<(w-1))-1),(1<<w)-1))),f'digit {n} is not zero or odd and below 2^{w-1}')
        s.need(s.bound(X,n+1),f'scalar after digit {n} too large')
        s.need(tm.eq(W,tm.add(W,tm.concat([(0,1),(tm.ext(Y,0,W-1),W-1)]),tm.sext(d,8,W)),R),f'digit {n} and the rest do not give the scalar')
    def ret(s,lc,n,v,regs):
        v=tm.ext(v,0,32,32) if not isinstance(v,int) else v
        if v!=n: raise Bad(f'length {v} returned after {n} digits')
        s.others(-1); s.need(tm.eq(s.W,s.big(s.R),0),'digits are missing'); s.exits=getattr(s,'exits',0)+1
def wnaf_job(item):
    f,w,only=item; cf=CFG[f]; mod=build.module(); tt=time.time(); r={'ok':False,'why':None}; st0=dict(solve.STAT); e=None; pv=fe.Prover(mod)
    try:
        sv=Solver(30000); e=exm.Ex(mod,solver=sv); e.max_steps=50_000_000; K=e.alloc('K',cf.kb,1); p=e.alloc('r',8*cf.nw,8)
        for i in range(cf.kb): e.wr_(K.o,i,1,0)
        R=[tm.var(f'r0.{i}',64) for i in range(cf.nw)]
        if f=='448': R[7]=tm.zext(tm.var('r0.7',8),8,64)
        for i,x in enumerate(R): e.wr_(p.o,8*i,8,x)
        cb=Wnaf(cf,e,K,w,R,sv); cb.src=p.o; lc=loop.LoopCut(e,cf.wnaf,cb,sv,cf.kb,only)
        try: e.call(cf.wnaf,K,p,w)
        except loop.Done: pass
        if not lc.skip() and not getattr(cb,'exits',0): raise exm.Unsupported('no exit')
        r['ok']=True; r['n']=lc.n; r['paths']=lc.paths
    except Bad as x: r['why']=str(x); r['bad']=True
    except ERR as x: r['why']=f'{type(x).__name__}: {x}'
    except exm.Infeasible: r['why']='infeasible'
    return result(pv,tt,st0,r,e)
# ------------------------------------------------------------------ table of multiples of the base point
def base(f): return pt.ED25.B if f=='25519' else c_fixed.base(c_fixed.Z)
def read_job(item):
    """read_point(P,i) for every odd i: the precomputed form of [i]B"""
    f,w=item; cf=CFG[f]; mod=build.module(); pv=fe.Prover(mod); tt=time.time(); r={'ok':False,'why':None}; st0=dict(solve.STAT); e=None; cv=cf.cv; p=cv.p
    try:
        S=fe.Sem(p); F=fe.FE(mod,f,S,pv); pr=pt.profile('4wp',f); G=gl.Group(F,None,cv); B=base(f); B2=cv.add(B,B); P=B; steps=0
        for k in range(1,1<<(w-1),2):
            for sg in (1,-1):
                hk=F.hooks(); e=exm.Ex(mod,hooks=hk,solver=Solver(20000)); hk.pop(cf.rd,None); o=e.alloc('P',pt.size('4wp',f),32)
                e.call(cf.rd,o,(sg*k)&255)
                C,rg=G.read(e,o,'4wp'); x,y=P; x=sg*x%p; want={'add':(y+x)%p,'sub':(y-x)%p,'dT':2*cv.d*x*y%p,'dZ':2}
                for c,v in want.items():
                    if C[c]!=S.const(v): r['why']=f'{cf.rd}: coordinate {c} of [{sg*k}]B is wrong'; r['bad']=True; return result(pv,tt,st0,r,e)
                    if any(lo<0 or h>fe.up(h2) for (lo,h),(_,h2) in zip(rg[c],pr[c][0])): raise exm.Unsupported('digits of the table point')
                steps+=e.steps; pv.fns|=e.fnset
            P=cv.add(P,B2)
        r['ok']=True; pv.steps+=steps
    except ERR as x: r['why']=f'{type(x).__name__}: {x}'
    return result(pv,tt,st0,r)
# ------------------------------------------------------------------ main loop
class Main:
    def __init__(s,cf,e,F,G,sv,ls): s.cf=cf; s.e=e; s.F=F; s.G=G; s.sv=sv; s.ls=ls; s.l=max(ls.values()); s.Q=None; s.encoded=None; s.dig={}; s.exits=0; s.w={}
    def valid(s,which,i):
        d=s.dig.get((which,i)); w=s.w[which]
        if d is None: return 1
        return tm.or_(1,tm.eq(8,d,0),tm.and_(1,tm.eq(1,tm.ext(d,0,1,8),1),tm.ult(8,tm.add(8,d,(1<<(w-1))-1),(1<<w)-1)))
    def element(s):
        C,rg=s.G.read(s.e,s.Q,'4w'); return s.G.recognise(C)[0],rg
    def probe(s,lc,sn,regs):
        if s.Q is None: raise exm.Unsupported('no accumulator found')
    def start(s,lc,n,regs):
        g,_=s.element() if n==0 else (None,None)
        if n==0 and g: raise Bad('the accumulator does not start as the identity')
        x,y=s.G.fresh({('Q',n):1}); z=s.G.newz(); pr=pt.profile('4w',s.cf.f); s.G.write(s.e,s.Q,'4w',0,x,y,z,{c:l[0] for c,l in pr.items()})
        i=s.l-1-n; pc=[c for c in (s.valid('s',i),s.valid('h',i)) if c.__class__ is not int]; s.e.pc=pc; s.e.pcset=set(pc); s.encoded=None
    def need(s,c,what):
        ok,m=s.sv.valid(s.e.pc,c)
        if ok is False: raise Bad(what)
        if ok is None: raise exm.Unsupported('solver gave up: '+what)
    def end(s,lc,n,regs):
        i=s.l-1-n
        if i<0: raise exm.Unsupported('more iterations than digits')
        g,rg=s.element(); pr=pt.profile('4w',s.cf.f)
        if any(h>fe.up(h2) for c in rg for (lo,h),(_,h2) in zip(rg[c],pr[c][0])): raise exm.Unsupported('accumulator digits grow')
        W=16; tot={'s':0,'h':0}; q=0
        for m,c in g.items():
            if m==('Q',n): q=c
            elif m[0]=='B': tot['s']=tm.add(W,tot['s'],tm.mul(W,tm.sext(m[1],8,W),c&M(W)))
            elif m==('A',): tot['h']=tm.add(W,tot['h'],c&M(W))
            else: raise exm.Unsupported('unexpected element')
        if q!=2: raise Bad(f'digit {i}: accumulator multiplied by {q}')
        for k in 'sh':
            d=s.dig.get((k,i),0); self=tm.sext(d,8,W) if not isinstance(d,int) else 0
            s.need(tm.eq(W,tot[k],self),f'digit {i}: another multiple of {"the base point" if k=="s" else "the key"} is added')
    def ret(s,lc,n,v,regs):
        s.exits+=1
        if s.l!=n: raise Bad(f'{n} of {s.l} digits are used')
        s.final({('Q',n):1})
    def noloop(s,lc,v,regs):
        if s.l: raise exm.Unsupported('no loop found')
        s.exits+=1; s.final({})
    def final(s,want):
        if s.encoded is None: raise exm.Unsupported('no encoding')
        if s.encoded!=want: raise Bad('the encoded point is not the accumulator')
def main_job(item):
    f,ls,lh,only=item; cf=CFG[f]; mod=build.module(); pv=fe.Prover(mod); tt=time.time(); r={'ok':False,'why':None}; st0=dict(solve.STAT); R=None; e=None
    try:
        sv=Solver(30000); R=c_fixed.setup(f,mod,pv,sv); e=R.e; F=R.F; G=R.G; S=R.S; e.max_steps=200_000_000
        cb=Main(cf,e,F,G,sv,{'s':ls,'h':lh}); nb=32 if f=='25519' else 57
        # inputs: key point, scalars
        Aptr=e.alloc('A',pt.size('4w',f),32); x,y=G.fresh({('A',):1}); z=G.newz(); G.write(e,Aptr,'4w',0,x,y,z,{c:l[0] for c,l in pt.profile('4w',f).items()})
        sw=[tm.var(f's{i}',64) for i in range(8)]; hw=[tm.var(f'h{i}',64) for i in range(8)]; sp=e.alloc('s',64,8); hp=e.alloc('h',64,8); o=e.alloc('out',nb,1)
        for i in range(8): e.wr_(sp.o,8*i,8,sw[i]); e.wr_(hp.o,8*i,8,hw[i])
        for i in range(nb): e.wr_(o.o,i,1,tm.var(f'junk{i}',8))
        def wnaf(e_,K,p,w):
            n=4 if f=='25519' else 7; v=[e_._int(e_.rd(e_.padd(p,8*i),8)) for i in range(n)]; src={'s':sw,'h':hw}
            if f=='448':
                q=[a for a,b in R.div4 if all(x is y for x,y in zip(b,v))]
                if len(q)!=1 or e_.rd(e_.padd(p,56),1)!=0: raise exm.Unsupported('recoded value is not a quarter of a scalar')
                v=q[0]
            which=next((k for k in 'sh' if all(a is b for a,b in zip(src[k],v))),None)
            if which is None or which in cb.w: raise exm.Unsupported('another scalar is recoded')
            if not isinstance(w,int): raise exm.Unsupported('symbolic width')
            cb.w[which]=w
            for i in range(cb.ls[which]):
                d=tm.var(f'{which}digit{i}',8); cb.dig[which,i]=d; e_.wr(e_.padd(K,i),1,d); c=cb.valid(which,i); e_.pc.append(c); e_.pcset.add(c)
            return cb.ls[which]
        def rd(e_,P,i):
            i=tm.ext(i,0,8,max(8,getattr(i,'w',8))) if not isinstance(i,int) else i&255
            if isinstance(i,int): raise exm.Unsupported('constant table index')
            # the contract of read_point: odd index within the table
            w=cb.w['s']
            cb.need(tm.and_(1,tm.eq(1,tm.ext(i,0,1,8),1),tm.ult(8,tm.add(8,i,(1<<(w-1))-1),(1<<w)-1)),'index outside the table')
            x,y=G.fresh({('B',i):1}); G.write(e_,P,'4wp',0,x,y,S.const(1),{c:l[0] for c,l in pt.profile('4wp',f).items()}); return None
        def enc(e_,dst,P):
            C,rg=G.read(e_,P,'2w',0,noT=f=='448'); g=c_fixed.unwrap(R,G.recognise(C,pt.ED448 if f=='448' else None)[0]); pr=pt.profile('2w',f)
            if any(lo<0 or h>fe.up(h2) for c in rg for (lo,h),(_,h2) in zip(rg[c],pr[c][0])): raise exm.Unsupported('digits of the encoded point')
            if dst.o is not o.o or dst.off: raise exm.Unsupported('encoded elsewhere')
            cb.encoded=g; return None
        def conc(h):
            def g(e_,*a):
                a=list(a)
                for k,p in enumerate(a):
                    if isinstance(p,Ptr) and not isinstance(p.off,int):
                        vs=sv.values(e_.pc,p.off,64,200)
                        if not vs: raise exm.Unsupported('symbolic address')
                        for v in vs[:-1]:
                            if e_.truth(tm.eq(64,p.off,v)): break
                        else: v=vs[-1]
                        a[k]=Ptr(p.o,v-(1<<64) if v>>63 else v)
                return h(e_,*a)
            return g
        hk=e.hooks; hk[cf.wnaf]=wnaf; hk[cf.rd]=rd; hk[cf.enc]=enc
        for op in OPS[f]:
            if op.op[0]=='dbl' and op.args[0][1]=='4w':
                h0=hk[op.fn]
                def dbl(e_,P,h0=h0):
                    if cb.Q is None and 's' in cb.w and e_.stack and e_.stack[-1]==cf.fn: cb.Q=P
                    return h0(e_,P)
                hk[op.fn]=dbl
        for k in list(hk): hk[k]=conc(hk[k])
        lc=cb.lc=loop.LoopCut(e,cf.fn,cb,sv,600,only)
        try: e.call(cf.fn,o,sp,hp,Aptr)
        except loop.Done: pass
        if not cb.exits and (lc.header is None or not lc.skip()): raise exm.Unsupported('no exit')
        r['ok']=True; r['paths']=lc.paths; r['w']=cb.w; r['calls']=G.calls; r['n']=lc.n
    except Bad as x: r['why']=str(x); r['bad']=True
    except ERR as x:
        r['why']=f'{type(x).__name__}: {x}'
        import traceback; r['tb']=traceback.format_exc()[-800:]
    except exm.Infeasible: r['why']='infeasible'
    if R: pv.fns|=R.pp.fns; pv.steps+=R.pp.steps; pv.asm+=R.pp.asm
    return result(pv,tt,st0,r,e)
# ------------------------------------------------------------------ the native build
def inputs(cf,rng):
    L=cf.L; top=L.bit_length()-1
    yield 0,0
    for a in (1,2,3,5,64,127,L-1,L-2,L//2,rng.randrange(L)):
        yield a,0; yield 0,a; yield a,1; yield 1,a; yield a,rng.randrange(L); yield rng.randrange(L),a
    for d in range(1,128,2):
        k=rng.randrange(top-8); yield d,rng.randrange(1,L); yield (d<<k)%L,rng.randrange(1<<rng.randrange(1,top)); yield (-d*4)%L,(d*4)%L
    for n in range(1,top+1,3): yield (1<<n)-1,(1<<(top-n))+1; yield (1<<n),rng.randrange(1<<n)
    while True: yield rng.randrange(1<<rng.randrange(1,top+1)),rng.randrange(1<<rng.randrange(1,top+1))
def search(f,seed,n,limit):
    cf=CFG[f]; cv=pt.ED25 if f=='25519' else pt.ED448; p=cv.p; L=cf.L; N=nat.lib((cf.fn,)); g=build._Fn(N.addr(cf.fn),None); rng=random.Random(seed); t0=time.time(); done=0; lay=pt.layout('4w',f)
    for s_,h in inputs(cf,rng):
        if done>=n or time.time()-t0>limit: break
        k=rng.randrange(1,L) if rng.random()<.9 else rng.choice([1,2,3,L-1]); A0=cv.mul(k,cv.B)
        if rng.random()<.2: A0=cv.add(A0,(0,p-1))
        if rng.random()<.04: A0=(0,1)
        A1=A0
        if f=='448': A1=(c_fixed.phi_num(A0) if A0[0] else (0,1))
        z=rng.choice([1,rng.randrange(1,p)]); x,y=A1; raw=bytearray(pt.size('4w',f))
        for c,v in {'X':x*z%p,'Y':y*z%p,'Z':z,'T':x*y*z%p}.items(): pt.put_num(raw,REPS[f,lay[c][0][1]],lay[c][0][2],lay[c][0][0],v)
        heff=h if f=='25519' else 4*(h*pow(4,-1,L)%L)
        X,Y=cv.add(cv.mul(s_,cv.B),cv.mul(heff,A0))
        want=(Y|((X&1)<<(8*cf.nb-1))).to_bytes(cf.nb,'little')
        P=build.Buf(len(raw),bytes(raw),32); S=build.Buf(64,s_.to_bytes(64,'little'),32); H=build.Buf(64,h.to_bytes(64,'little'),32); o=build.Buf(cf.nb,b'\x5a'*cf.nb,1)
        g(o,S,H,P); got=o.get(); a={'function':cf.fn,'S':hex(s_),'h':hex(h),'key point (negated, affine)':[hex(v) for v in A0],'Z':hex(z),'result':got.hex(),'expected':want.hex()}
        if got!=want: a['what']='not the encoding of [S]B-[h]A'; return a,done
        if not all(b.guards_ok() for b in (P,S,H,o)): a['what']='memory next to an operand was modified'; return a,done
        done+=1
    return None,done
# ------------------------------------------------------------------
def go(j):
    return {'wnaf':wnaf_job,'read':read_job,'main':main_job}[j[0]](j[1])
def run_C14(c,fs=('25519','448')):
    mod=build.module(); api.offsets(); thorough=c.tier=='thorough'
    for f in fs: nat.lib((CFG[f].fn,))
    # the window widths in use
    pr=nat.parallel(go,[('main',(f,2,3,None)) for f in fs],2,timeout=200); W={}; first={}
    for f,o in zip(fs,pr):
        r=o[1] if o[0]=='ok' else {'ok':False,'why':str(o)[:300]}; first[f]=r; W[f]=r.get('w') or {'s':7,'h':5}
    jobs=[]; N=8
    for f in reversed(fs):
        top=CFG[f].B+1; jobs+=[('main',(f,top,top,(k,N))) for k in range(N)]
        for w in sorted(set(W[f].values())): jobs+=[('wnaf',(f,w,(k,4))) for k in range(4)]
        prs=[(3,2),(0,2),(2,0),(0,0),(1,1)]+([(top,top-1),(top-1,top),(top,0),(0,top),(17,90),(90,17)] if thorough else [(top,9),(9,top)])
        jobs+=[('main',(f,a,b,None if a<20 and b<20 else (k,4))) for a,b in prs for k in ([0] if a<20 and b<20 else range(4)) if (a,b)!=(top,9) and (a,b)!=(9,top)]
        jobs+=[('read',(f,W[f]['s']))]
    out=nat.parallel(go,jobs,8,timeout=max(60,c.left()-150)); res={j:(o[1] if o[0]=='ok' else {'ok':False,'why':str(o)[:300]}) for j,o in zip(jobs,out)}
    for f in fs: res['main',(f,2,3,None)]=first[f]
    for r in res.values(): merge(c,r)
    seed=c.rng.random(); bad={f:any(not r['ok'] for j,r in res.items() if j[1][0]==f) for f in fs}
    nr=nat.parallel(lambda f:search(f,seed,10**7 if bad[f] else 700,70 if bad[f] else 60),list(fs),2,timeout=120)
    for f,n in zip(fs,nr):
        fn=CFG[f].fn
        if n[0]=='ok' and n[1][0]: c.violation(fn,f"{fn}: {n[1][0]['what']}",n[1][0])
        elif n[0]=='crash': c.violation(fn,f'{fn} crashes (signal {n[1]})',{'function':fn})
        elif n[0]=='ok': c.validated+=n[1][1]
    groups={}
    for j,r in res.items():
        k,a=j
        nm={'wnaf':lambda:f'{CFG[a[0]].wnaf}, width {a[1]}: every digit is zero or odd and in range, digits re-sum to every scalar below the group order, length within the buffer',
            'read':lambda:f'{CFG[a[0]].rd}: the table entry of every odd digit and sign is the multiple of the base point',
            'main':lambda:f'{CFG[a[0]].fn}: {a[1]} digits of S, {a[2]} of h: every digit pattern gives [S]B-[h]A'}[k]()
        groups.setdefault(nm,[]).append(r)
    for nm,rs in groups.items():
        b=[r for r in rs if not r['ok']]
        if b: c.undec(nm,f"{b[0]['why']} {b[0].get('failed','')}")
        elif len({r.get('n') for r in rs})>1: c.undec(nm,'iterations differ between runs')
        else: c.good(nm,f"{sum(r.get('paths',0) or 0 for r in rs)} paths, {sum(r.get('calls',0) for r in rs)} group operations, {sum(r.get('sec',0) for r in rs):.0f} s")
    c.bounds=['every S and h below the group order','loops are cut at their header: one iteration from an arbitrary state at every digit position','pairs of digit counts listed in the checks, the full one included; the loop depends on the counts only through which digits are zero']
    c.assume=['point operations, encodings and the isogeny by their contracts (C10, C11), division by four by its contract (C15), all re-proved at the digit ranges met here' ,'the operands lie in a subgroup without points at infinity, so the addition formulas have no exceptions (Ed25519: complete formulas)','Ed448: the component of the key of order dividing four is removed by the isogeny']
if __name__=='__main__':
    import sys
    a=(sys.argv[2],)+tuple(map(eval,sys.argv[3:]))
    r=globals()[sys.argv[1]+'_job'](a); r['fns']=len(r['fns']) if 'fns' in r else 0; print(r)
