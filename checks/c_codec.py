"""C05/C06: encode, decode, compare, sign, select and the prime are canonical."""
import random,time
import terms as tm
from terms import T,M
import ex as exm, api, build, nat, kern, kcheck, solve
from fields import REPS,P25519,P448
from intdom import ID,padd,pscale,pconst,ZERO,Poly
def nbytes(f): return 32 if f=='25519' else 56
def rname(pre): return {'_1w_full':'1f','_1w_red':'1r','_2w_red':'2r','_4w_red':'4r'}[pre]
def prof(rep,d):
    if rep.full: return kcheck.full(rep)
    return [[(0,(1<<(w+d))+(1<<(w-3))) for w in rep.nat] for _ in range(rep.lanes)]
def sym(e,rep,name,I=None,rg=None,align=32):
    p=e.alloc(name,rep.size,align)
    for o in range(0,rep.size,8): e.wr_(p.o,o,8,tm.var(f'{name}.{o}',64))
    if I:
        for l in range(rep.lanes):
            for (o,_),(lo,hi) in zip(rep.digs[l],rg[l]): I.declare(tm.var(f'{name}.{o}',64),lo,hi)
    return p
def lanewords(e,p,n,l): return [e._int(e.rd_(p.o,l*n+8*i,8)) for i in range(n//8)]
def val(I,e,p,rep,l):
    P=ZERO
    for o,ee in rep.digs[l]: P=padd(P,I.exact(e._int(e.rd_(p.o,o,8)))[0],1<<ee)
    return P
def abstract(words,others):
    """replace the leaf terms the words are made of by fresh variables, in words and others"""
    env={}
    for w in words:
        if isinstance(w,int): continue
        for x,lo,n in tm.segs(w,0,w.w):
            if x is not None and x not in env: env[x]=tm.var(f'!abs{len(env)}',x.w)
    r=tm.subst(list(words)+list(others),env)
    return r[:len(words)],r[len(words):]
def lanes_of(rep,r):
    """result of cmp/sgn per lane"""
    if rep.lanes==1: return [r]
    # __m256i returned as <4 x i64>
    return [r[0],r[2]] if rep.lanes==2 else list(r)
def unptr(e,ret,rep,aslist): return ret
def job(j):
    field,pre,op,d,seed,thorough=j
    s0=dict(solve.STAT); t0=time.time(); m=build.module(True); slot=f'Fp{field}.{pre}.arith.{op}'
    rep=REPS[field,rname(pre)]; p=rep.p; n=nbytes(field); e=exm.Ex(m); fn=api.irfn(e,slot); res=[]; I=ID()
    I.macro=256 if field=='25519' else 448
    S=solve.Solver(30000)
    def ob(name,ok,why=''): res.append((name,bool(ok),str(why)[:300]))
    if fn is None: return {'res':[('slot',True,'absent')],'fns':[],'steps':0,'asm':0,'stat':{}}
    rg=prof(rep,d)
    try:
        if op=='misc.ser':
            a=sym(e,rep,'a',I,rg); V=[val(I,e,a,rep,l) for l in range(rep.lanes)]
            b=e.alloc('buf',n*rep.lanes,32); e.call(fn,b,a)
            for l in range(rep.lanes):
                P=ZERO
                for i,w in enumerate(lanewords(e,b,n,l)): P=padd(P,I.exact(w)[0],1<<(64*i))
                z=I.is_zero(padd(P,V[l],-1),p,20000); ob(f'lane {l} congruent',z is True,z)
                # below p: the words, as integers in [0,2^64), sum to at most p-1
                ok=I.tighten(P,lo=0,hi=p-1,to=20000,intvars=True) or I.tighten(P,lo=0,hi=p-1,to=20000)
                ob(f'lane {l} canonical',ok)
        elif op=='misc.unser':
            b=e.alloc('buf',n*rep.lanes,32)
            for o in range(0,n*rep.lanes,8): e.wr_(b.o,o,8,tm.var(f'b.{o}',64))
            a=e.alloc('a',rep.size,32); e.call(fn,a,b)
            for l in range(rep.lanes):
                P=ZERO
                for i in range(n//8): P=padd(P,I.exact(tm.var(f'b.{l*n+8*i}',64))[0],1<<(64*i))
                z=I.is_zero(padd(val(I,e,a,rep,l),P,-1),p,20000); ob(f'lane {l} congruent',z is True,z)
                if not rep.full:
                    ok=all(I.exact(e._int(e.rd_(a.o,o,8)))[2]<=(1<<w) and I.exact(e._int(e.rd_(a.o,o,8)))[1]>=0 for (o,_),w in zip(rep.digs[l],rep.nat))
                    ob(f'lane {l} digits reduced',ok)
            for o in range(0,n*rep.lanes,8):
                if e.rd_(b.o,o,8) is not tm.var(f'b.{o}',64): ob('input unchanged',False)
        elif op in('sgn','cmp'):
            ser=api.irfn(e,f'Fp{field}.{pre}.arith.misc.ser')
            a=sym(e,rep,'a'); b=sym(e,rep,'b'); A=e.alloc('A',n*rep.lanes,32); B=e.alloc('B',n*rep.lanes,32)
            def cp(x):
                c=e.alloc('c',rep.size,32)
                for o in range(0,rep.size,8): e.wr_(c.o,o,8,e.rd_(x.o,o,8))
                return c
            e.call(ser,A,cp(a)); e.call(ser,B,cp(b))
            a2,b2=cp(a),cp(b)
            r=e.call(fn,a2) if op=='sgn' else e.call(fn,a2,b2)
            R=lanes_of(rep,r)
            for l in range(rep.lanes):
                wa=lanewords(e,A,n,l); wb=lanewords(e,B,n,l); w=R[l].w if isinstance(R[l],T) else 32
                ws,(rr,)=abstract(wa+wb,[R[l]])
                ws=[x for x in ws]
                if op=='sgn': g=tm.eq(w,rr,tm.zext(tm.ext(ws[0],0,1,64),1,w))
                else:
                    same=tm.and_(1,*[tm.eq(64,x,y) for x,y in zip(ws[:n//8],ws[n//8:])])
                    g=tm.not_(1,tm.xor(1,tm.eq(w,rr,0),same))
                v,mdl=S.valid([],g) if not isinstance(g,int) else (bool(g),None)
                ob(f'lane {l}',v,'solver: '+('unknown' if v is None else 'countermodel over the canonical words'))
            if rep.full: pass
            else:
                for x,y in ((a,a2),(b,b2)):
                    ob('operand unchanged',all(e.rd_(y.o,o,8) is e.rd_(x.o,o,8) for o in range(0,rep.size,8)))
        elif op=='cmv':
            a=sym(e,rep,'a'); b=sym(e,rep,'b'); c=e.alloc('c',rep.size,32)
            bits=[tm.var(f'bit{l}',1) for l in range(rep.lanes)]
            if rep.lanes==1: e.call(fn,tm.zext(bits[0],1,32),c,a,b)
            else:
                z=lambda x:tm.zext(x,1,64)
                vec=(z(bits[0]),0,z(bits[1]),0) if rep.lanes==2 else tuple(z(x) for x in bits)
                e.call(fn,vec,c,a,b)
            for l in range(rep.lanes):
                g=tm.and_(1,*[tm.eq(64,e._int(e.rd_(c.o,o,8)),tm.ite(64,bits[l],tm.var(f'b.{o}',64),tm.var(f'a.{o}',64))) for o,_ in rep.digs[l]])
                v,mdl=S.valid([],g) if not isinstance(g,int) else (bool(g),None); ob(f'lane {l}',v)
        elif op=='prime':
            a=e.alloc('a',rep.size,32); e.call(fn,a)
            v=sum(e.rd_(a.o,o,8)<<ee for o,ee in rep.digs[0]); ob('value is p',v==p,hex(v))
        elif op in('misc.copy','misc.zero'):
            a=sym(e,rep,'a'); c=sym(e,rep,'c')
            e.call(fn,c,a) if op=='misc.copy' else e.call(fn,c)
            for l in range(rep.lanes):
                ob(f'lane {l}',all((e.rd_(c.o,o,8) is tm.var(f'a.{o}',64)) if op=='misc.copy' else e.rd_(c.o,o,8)==0 for o,_ in rep.digs[l]))
    except (exm.Unsupported,exm.Fault) as x: ob('execution',False,f'{type(x).__name__} {x}')
    wit=None
    if not all(x[1] for x in res):
        g,o=api.where(slot); N=nat.lib(); q=nat.forked(search,N.slot(g,o),N.slot(g,api.where(f'Fp{field}.{pre}.arith.misc.ser')[1]),j,random.Random(seed),4000,timeout=120)
        if q[0]=='ok': wit=q[1]
        elif q[0]=='crash': wit=({},f'crashes with signal {q[1]}')
    else:
        q=nat.forked(search,nat.lib().slot(*api.where(slot)),nat.lib().slot(*api.where(f'Fp{field}.{pre}.arith.misc.ser')),j,random.Random(seed),20,timeout=60)
        if q[0]=='ok' and q[1]: res.append(('encoding validation',False,'native run contradicts the proof: '+str(q[1])[:200]))
    return {'res':res,'fns':sorted(e.fnset),'steps':e.steps,'asm':e.inlineasm,'wit':wit,'slot':slot,'stat':{x:solve.STAT[x]-s0[x] for x in s0},'sec':time.time()-t0,'val':20}
class M256(__import__('ctypes').Structure):
    _fields_=[('x',__import__('ctypes').c_uint64*4)]
_vw=None
def vecwrap():
    """C shims that pass and return vectors through memory"""
    src='''#include <immintrin.h>
void vf_v1(void*f,unsigned long*o,void*a){__m256i r=((__m256i(*)(void*))f)(a);_mm256_storeu_si256((__m256i*)o,r);}
void vf_v2(void*f,unsigned long*o,void*a,void*b){__m256i r=((__m256i(*)(void*,void*))f)(a,b);_mm256_storeu_si256((__m256i*)o,r);}
void vf_v4(void*f,unsigned long*o,void*c,void*a,void*b){((void(*)(__m256i,void*,void*,void*))f)(_mm256_loadu_si256((__m256i*)o),c,a,b);}
'''
    import os,ctypes
    d=build.tmp(); c=os.path.join(d,'vw.c'); so=os.path.join(d,'vw.so')
    if not os.path.exists(so):
        open(c,'w').write(src); build.sh(['gcc','-O2','-mavx2','-shared','-fPIC',c,'-o',so])
    return ctypes.CDLL(so)
def elems(rep,rg,rng,p,n):
    """(digits per lane, value per lane) with values near the edges"""
    def mk(x,l):
        ds=rep.split(x)
        if all(lo<=v<=hi for v,(lo,hi) in zip(ds,rg[l])): return ds
    out=[]
    top=[sum(hi<<e for (o,e),(lo,hi) in zip(rep.digs[l],rg[l])) for l in range(rep.lanes)]
    for t in range(n):
        L=[]
        for l in range(rep.lanes):
            d=None; mode=rng.randrange(6)
            if mode==0: d=mk(rng.choice((0,p,2*p,p-1,p+1,1<<rng.randrange(1,top[l].bit_length())))+rng.randrange(-45,46)&~0 if True else 0,l) if True else None
            if mode==1: d=[rng.choice((lo,hi)) for lo,hi in rg[l]]
            if mode==2: d=[rng.choice((lo,hi,max(lo,hi-1),(1<<w)-1 if not rep.full else M(64),rng.randint(lo,hi))) for (lo,hi),w in zip(rg[l],rep.nat)]
            if mode==3: d=[hi for lo,hi in rg[l]]
            if mode==4:
                # top carry into an all-ones low part
                d=mk((top[l]>>255<<255)+(1<<128)-1-rng.randrange(80),l)
                if d is None: d=mk((1<<256)+(1<<128)-1-rng.randrange(40),l)
            if d is None or any(not lo<=v<=hi for v,(lo,hi) in zip(d,rg[l])): d=[rng.randint(lo,hi) for lo,hi in rg[l]]
            L.append(d)
        yield L
def search(addr,serad,j,rng,n):
    import ctypes
    field,pre,op,d,seed,th=j; rep=REPS[field,rname(pre)]; p=rep.p; nb=nbytes(field); rg=prof(rep,d)
    F=build._Fn(addr,ctypes.c_int); V=vecwrap()
    def buf(L): return build.Buf(rep.size,rep.enc(L),32)
    def v(L): return [kern.digval(rep,l,L[l])%p for l in range(rep.lanes)]
    def vec(fn,*a):
        o=build.Buf(32,align=32); getattr(V,f'vf_v{len(a)}')(ctypes.c_void_p(addr),o.p,*[x.p for x in a]); w=o.words(); return [w[0],w[2]] if rep.lanes==2 else w
    gen=elems(rep,rg,rng,p,10**9)
    for t in range(n):
        a=next(gen)
        if op=='misc.ser':
            B=build.Buf(nb*rep.lanes,align=32); F(B,buf(a)); g=B.get()
            for l in range(rep.lanes):
                if int.from_bytes(g[l*nb:(l+1)*nb],'little')!=v(a)[l]: return {'digits':a,'lane':l},f'encodes {g[l*nb:(l+1)*nb].hex()} for value {v(a)[l]:#x}'
            if not B.guards_ok(): return {'digits':a},'wrote outside the buffer'
        elif op=='misc.unser':
            xs=[rng.choice((rng.randrange(1<<8*nb),rng.choice((p,0,(1<<8*nb)-1,2*p))+rng.randrange(-40,41)))%(1<<8*nb) for _ in range(rep.lanes)]
            B=build.Buf(nb*rep.lanes,b''.join(x.to_bytes(nb,'little') for x in xs),32); R=build.Buf(rep.size,align=32); F(R,B)
            for l in range(rep.lanes):
                if (rep.val(R.get(),l)-xs[l])%p: return {'bytes':xs[l].to_bytes(nb,'little').hex()},f'decodes to a different residue in lane {l}'
                if not rep.full and any(int.from_bytes(R.get()[o:o+8],'little')>(1<<w) for (o,_),w in zip(rep.digs[l],rep.nat)): return {'bytes':xs[l].to_bytes(nb,'little').hex()},f'digit out of range in lane {l}'
        elif op in('sgn','cmp'):
            k=rng.randrange(5); b=[list(x) for x in a]
            if k==1: b=next(gen)
            if k>=2:
                for l in range(rep.lanes):
                    i=rng.randrange(len(b[l])); w=rep.nat[i]
                    b[l][i]=min(max(b[l][i]^(1<<rng.randrange(w)),rg[l][i][0]),rg[l][i][1])
                    if k==4:
                        q=rep.split(v(a)[l]^(1<<rng.randrange(8*nb-2)))
                        if all(lo<=x<=hi for x,(lo,hi) in zip(q,rg[l])): b[l]=q
                        if rng.random()<.4:
                            q=rep.split(v(a)[l]+p)
                            if all(lo<=x<=hi for x,(lo,hi) in zip(q,rg[l])): b[l]=q
            if op=='sgn': r=[F(buf(a))] if rep.lanes==1 else vec(None,buf(a)); want=[x&1 for x in v(a)]; 
            else: r=[F(buf(a),buf(b))] if rep.lanes==1 else vec(None,buf(a),buf(b)); want=[int(x!=y) for x,y in zip(v(a),v(b))]
            for l in range(rep.lanes):
                if op=='sgn' and r[l]!=want[l] or op=='cmp' and (r[l]!=0)!=(want[l]!=0): return {'a':a,'b':b if op=='cmp' else None,'lane':l},f'{op} returned {r[l]:#x} for values {v(a)[l]:#x}'+(f' and {v(b)[l]:#x}' if op=='cmp' else '')
        elif op=='cmv':
            b=next(gen); bits=[rng.randrange(2) for _ in range(rep.lanes)]; c=build.Buf(rep.size,align=32)
            if rep.lanes==1: build._Fn(addr,None)(bits[0],c,buf(a),buf(b))
            else:
                o=build.Buf(32,b''.join(x.to_bytes(8,'little') for x in ([bits[0],0,bits[1],0] if rep.lanes==2 else bits)),32); ka,kb=buf(a),buf(b); V.vf_v4(ctypes.c_void_p(addr),o.p,c.p,ka.p,kb.p)
            for l in range(rep.lanes):
                w=[int.from_bytes(c.get()[o:o+8],'little') for o,_ in rep.digs[l]]
                if w!=(b if bits[l] else a)[l]: return {'a':a,'b':b,'bits':bits},'selected a different value'
        elif op=='prime':
            c=build.Buf(rep.size,align=32); F(c)
            if rep.val(c.get(),0)!=p: return {},f'prime() stores {rep.val(c.get(),0):#x}'
            return None
        elif op in('misc.copy','misc.zero'):
            c=build.Buf(rep.size,align=32)
            F(c,buf(a)) if op=='misc.copy' else F(c)
            for l in range(rep.lanes):
                if [int.from_bytes(c.get()[o:o+8],'little') for o,_ in rep.digs[l]]!=(a[l] if op=='misc.copy' else [0]*len(a[l])): return {'a':a},f'{op} lane {l} differs'
    return None
def run(c,field):
    api.offsets(); build.module(True); nat.lib(); vecwrap(); jobs=[]
    for pre in ('_1w_full','_1w_red','_2w_red','_4w_red'):
        for op in ('misc.ser','misc.unser','sgn','cmp','cmv','prime','misc.copy','misc.zero'):
            if ('Fp',f'{pre}.arith.{op}') not in api.offsets(): continue
            for d in ((0,) if pre=='_1w_full' or op not in('misc.ser',) else (0,1)): jobs.append((field,pre,op,d,c.seed,c.thorough))
    out=nat.parallel(job,jobs,8,timeout=max(60,c.left()-30))
    for j,o in zip(jobs,out):
        name=f'Fp{field}.{j[1]}.arith.{j[2]} digits<=2^(w+{j[3]})+2^(w-3)'
        if o[0]!='ok': c.undec(name,o); continue
        r=o[1]
        for x in r['stat']: solve.STAT[x]+=r['stat'][x]
        c.funcs|=set(r['fns']); c.steps+=r['steps']; c.asm+=r['asm']; c.paths+=1; c.validated+=r.get('val',0)
        for nm,ok,why in r['res']:
            if ok: c.good(name+': '+nm)
            elif not r.get('wit'): c.undec(name+': '+nm,why)
        if r.get('wit'):
            d,w=r['wit']; c.violation(f'{j[0]}.{j[1]}.{j[2]}',f'{name}: {w}',{'slot':r['slot'],'input':d,'observed':w,'failed':[x for x in r['res'] if not x[1]]})
    c.bounds=['full radix: all limb vectors; reduced radix: all digits up to 2^w+2^(w-3) (encoding also 2^(w+1)+2^(w-3)); cmv selector in {0,1}']
def run_C05(c): run(c,'25519')
def run_C06(c): run(c,'448')
