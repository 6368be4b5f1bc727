"""C18 (SHA-512/384, streaming and two-way) and C19 (SHA-3/SHAKE).

1. The compression function / permutation of the real code is executed on symbolic state and block and merged with the
   FIPS specification by solver sweeping.
2. One streaming step (update, close) is executed from an arbitrary reachable context -- symbolic chaining value, symbolic
   buffered bytes, symbolic block count -- with the compression function replaced by an uninterpreted function (justified by 1),
   and compared with the specification; by induction over updates this covers every split of every message.
3. One call whose input has a symbolic number of blocks: induction over the block loop (engine/longloop.py)."""
import os,ctypes,hashlib,time
import build,ex as exm,terms as tm,nat,sweep,longloop as ll
from solve import Solver,STAT
from ex import Ptr
M64=tm.M(64)
K512=[0x428a2f98d728ae22,0x7137449123ef65cd,0xb5c0fbcfec4d3b2f,0xe9b5dba58189dbbc,0x3956c25bf348b538,0x59f111f1b605d019,0x923f82a4af194f9b,0xab1c5ed5da6d8118,0xd807aa98a3030242,0x12835b0145706fbe,0x243185be4ee4b28c,0x550c7dc3d5ffb4e2,0x72be5d74f27b896f,0x80deb1fe3b1696b1,0x9bdc06a725c71235,0xc19bf174cf692694]
def _consts():
    """FIPS 180-4 constants from their definition: fractional parts of cube/square roots of primes"""
    def primes(n):
        p=[];x=2
        while len(p)<n:
            if all(x%q for q in p): p.append(x)
            x+=1
        return p
    def root(x,k):
        n=x<<(64*k); lo=0;hi=1<<(64+8)
        while lo<hi:
            m=(lo+hi+1)//2
            if m**k<=n: lo=m
            else: hi=m-1
        return lo&M64
    P=primes(80)
    return [root(p,3) for p in P],[root(p,2) for p in P[:8]],[root(p,2) for p in P[8:16]]
K,IV512,IV384=_consts()
assert K[:16]==K512
def _rotr(x,n):
    if isinstance(x,int): return ((x>>n)|(x<<(64-n)))&M64
    return tm.concat([(tm.ext(x,n,64-n,64),64-n),(tm.ext(x,0,n,64),n)])
def _x(*a): 
    if all(isinstance(v,int) for v in a):
        r=0
        for v in a: r^=v
        return r
    return tm.xor(64,*a)
def _n(a,b): return a&b if isinstance(a,int) and isinstance(b,int) else tm.and_(64,a,b)
def _o(a,b): return a|b if isinstance(a,int) and isinstance(b,int) else tm.or_(64,a,b)
def _a(*a):
    r=0
    for v in a: r=tm.add(64,r,v) if not(isinstance(r,int) and isinstance(v,int)) else (r+v)&M64
    return r
def _shr(x,n): return x>>n if isinstance(x,int) else tm.lshr(64,x,n)
def sha512_f(h,m):
    """FIPS 180-4 6.4.2, over integers or terms"""
    W=list(m)
    for i in range(16,80):
        s0=_x(_rotr(W[i-15],1),_rotr(W[i-15],8),_shr(W[i-15],7)); s1=_x(_rotr(W[i-2],19),_rotr(W[i-2],61),_shr(W[i-2],6))
        W.append(_a(s1,W[i-7],s0,W[i-16]))
    a,b,c,d,e,f,g,hh=h
    for i in range(80):
        S1=_x(_rotr(e,14),_rotr(e,18),_rotr(e,41)); ch=_x(_n(_x(f,g),e),g); t1=_a(hh,S1,ch,K[i],W[i])
        S0=_x(_rotr(a,28),_rotr(a,34),_rotr(a,39)); mj=_o(_n(a,b),_n(_o(a,b),c)); t2=_a(S0,mj)
        hh,g,f,e,d,c,b,a=g,f,e,_a(d,t1),c,b,a,_a(t1,t2)
    return [_a(x,y) for x,y in zip(h,(a,b,c,d,e,f,g,hh))]
def _rc():
    R=1; out=[]
    for r in range(24):
        v=0
        for j in range(7):
            if R&1: v|=1<<((1<<j)-1)
            R=(R<<1)^((R>>7)*0x171)
        out.append(v)
    return out
RC=_rc()
ROT={}
def _rots():
    x,y=1,0
    for t in range(24):
        ROT[x,y]=((t+1)*(t+2)//2)%64; x,y=y,(2*x+3*y)%5
    ROT[0,0]=0
_rots()
def keccak_f(s):
    """FIPS 202 3.3: state as 25 lanes, s[x+5y]"""
    A=list(s); rol=lambda x,n: _rotr(x,(64-n)%64) if n%64 else x
    nt=lambda x: x^M64 if isinstance(x,int) else tm.xor(64,M64,x)
    for r in range(24):
        C=[_x(*[A[x+5*y] for y in range(5)]) for x in range(5)]
        D=[_x(C[(x-1)%5],rol(C[(x+1)%5],1)) for x in range(5)]
        A=[_x(A[i],D[i%5]) for i in range(25)]
        B=[0]*25
        for x in range(5):
            for y in range(5): B[y+5*((2*x+3*y)%5)]=rol(A[x+5*y],ROT[x,y])
        A=[_x(B[i],_n(nt(B[(i%5+1)%5+5*(i//5)]),B[(i%5+2)%5+5*(i//5)])) for i in range(25)]
        A[0]=_x(A[0],RC[r])
    return A
# ------------------------------------------------------------------ uninterpreted functions
class UF:
    def __init__(s,name): s.n=name; s.m={}; s.keep=[]
    def __call__(s,ins,nout):
        k=tuple(b if isinstance(b,int) else ('t',b.id) for x in ins for b in ((x>>8*i&255 if isinstance(x,int) else tm.ext(x,8*i,8,64)) for i in range(8)))
        r=s.m.get(k)
        if r is None:
            r=[tm.var(f'{s.n}{len(s.m)}.{i}',64) for i in range(nout)]; s.m[k]=r; s.keep.append(ins)
        return r
def be64(bs): return tm.concat([(b,8) for b in reversed(bs)])
def le64(bs): return tm.concat([(b,8) for b in bs])
def bytes_be(w): return [tm.ext(w,56-8*i,8,64) for i in range(8)]
def bytes_le(w): return [tm.ext(w,8*i,8,64) for i in range(8)]
def same(S,got,want,w=8):
    """True / list of differing positions / None"""
    d=[i for i,(a,b) in enumerate(zip(got,want)) if not(a is b or (isinstance(a,int) and isinstance(b,int) and a==b))]
    if not d:
        # every component is the same node after normalisation of both executions; the verdict itself is the solver's
        return True if S.same([(a,b) for a,b in zip(got,want) if not isinstance(a,int)])=='unsat' else None
    bad=[]
    for i in d[:40]:
        v,_=S.valid([],tm.eq(w,got[i],want[i]),4000)
        if v is None: return None
        if not v: bad.append(i)
    return bad or True
# ------------------------------------------------------------------ SHA-512
LAYOUT='''#include <stdio.h>
#include <stddef.h>
#include "sha512.h"
#include "sha3.h"
int main(void){printf("%zu %zu %zu %zu\\n",offsetof(sph_sha512_context,buf),offsetof(sph_sha512_context,val),offsetof(sph_sha512_context,count),sizeof(sph_sha512_context));
printf("%zu %zu %zu %zu %zu\\n",offsetof(hashState,s),offsetof(hashState,hashbitlen),offsetof(hashState,statebitlen),offsetof(hashState,r),sizeof(hashState));return 0;}
'''
_lay=None
def layout():
    global _lay
    if _lay is None:
        d=build.tmp(); c=os.path.join(d,'lay.c'); x=os.path.join(d,'lay'); open(c,'w').write(LAYOUT)
        build.sh(['gcc']+build.GCC[1:]+['-O0',c,'-o',x]); l=build.sh([x]).split('\n')
        _lay=[list(map(int,l[0].split())),list(map(int,l[1].split()))]
    return _lay
def sha_round_name(mod): return 'sha3_round' if 'sha3_round' in mod.funcs else None
def ctx512(e,val,buf,count,al=8):
    b,v,c,n=layout()[0]; p=e.alloc('ctx',n,al)
    for i,x in enumerate(buf):
        if x is not None: e.wr_(p.o,b+i,1,x)
    for i,x in enumerate(val): e.wr_(p.o,v+8*i,8,x)
    e.wr_(p.o,c,8,count); return p
def rd512(e,p):
    b,v,c,n=layout()[0]
    return [e._int(e.rd_(p.o,v+8*i,8)) for i in range(8)],e._int(e.rd_(p.o,c,8)),lambda k:[e._int(e.rd_(p.o,b+i,1)) for i in range(k)]
def h_round(F):
    def h(e,data,r):
        blk=[e._int(e.rd(e.padd(data,8*i),8)) for i in range(16)]
        st=[e._int(e.rd(e.padd(r,8*i),8)) for i in range(8)]
        m=[le64(bytes_be(w)) if not isinstance(w,int) else int.from_bytes(w.to_bytes(8,'little'),'big') for w in blk]
        o=F(st+m,8)
        for i,x in enumerate(o): e.wr(e.padd(r,8*i),8,x)
    return h
def spec_update(F,val,tail,data):
    """absorb data after the tail bytes"""
    b=list(tail)+list(data); v=list(val)
    while len(b)>=128:
        blk=b[:128]; b=b[128:]
        v=F(list(v)+[be64(blk[8*i:8*i+8]) for i in range(16)],8)
    return v,b
def spec_close(F,val,tail,count,nd,ub=0,nb=0):
    """padding with the 128-bit length of count bytes (+nb bits)"""
    b=list(tail)+[(ub&(0xff<<(8-nb))&0xff)|(0x80>>nb)]
    while len(b)%128!=112: b.append(0)
    hi=tm.lshr(64,count,61) if not isinstance(count,int) else count>>61; lo=tm.shl(64,count,3) if not isinstance(count,int) else (count<<3)&M64
    lo=tm.add(64,lo,nb) if nb else lo
    b+=bytes_be(hi)+bytes_be(lo)
    v,r=spec_update(F,val,[],b)
    out=[]
    for x in v: out+=bytes_be(x)
    return out[:nd]
def Fc(ins,nout): return sha512_f(ins[:8],ins[8:])
def nat_sha(fn,params):
    """replay on the gcc build; returns a description of the difference or None"""
    L=ctypes.CDLL(build_lib()); bo,vo,co,n=layout()[0]
    if fn=='update':
        v,init,k,m,q,al,data,buf,val=params
        c=build.Buf(n,bytes(n),8); c.set(bytes(buf),bo); c.set(b''.join(x.to_bytes(8,'little') for x in val),vo); c.set((128*q+k).to_bytes(8,'little'),co)
        raw=build.Buf(m+64,bytes(m+64),64); raw.set(data,al)
        getattr(L,v)(c.p,ctypes.c_void_p(raw.p.value+al),ctypes.c_size_t(m))
        wv,wb=spec_update(Fc,val,list(buf[:k]),list(data))
        gv=[int.from_bytes(c.get(vo+8*i,8),'little') for i in range(8)]; gc=int.from_bytes(c.get(co,8),'little')
        if gv!=wv: return 'chaining value differs'
        if gc!=(128*q+k+m)&M64: return f'count {gc} instead of {128*q+k+m}'
        if list(c.get(bo,len(wb)))!=wb: return 'buffered bytes differ'
        if not c.guards_ok(): return 'wrote outside the context'
        if raw.get(al,m)!=bytes(data): return 'message modified'
    if fn=='close':
        v,nd,k,q,buf,val,ub,nb,iv=params
        c=build.Buf(n,bytes(n),8); c.set(bytes(buf),bo); c.set(b''.join(x.to_bytes(8,'little') for x in val),vo); c.set((128*q+k).to_bytes(8,'little'),co)
        o=build.Buf(nd,bytes(nd),1)
        if nb is None: getattr(L,v)(c.p,o.p)
        else: getattr(L,v)(c.p,ctypes.c_uint(ub),ctypes.c_uint(nb),o.p)
        w=spec_close(Fc,val,list(buf[:k]),(128*q+k)&M64,nd,ub,nb or 0)
        if list(o.get())!=w: return 'digest differs'
        if not o.guards_ok(): return 'wrote outside the digest'
        gv=[int.from_bytes(c.get(vo+8*i,8),'little') for i in range(8)]
        if gv!=iv or c.get(co,8)!=bytes(8): return 'context not ready for reuse'
    return None
_lib=[None]
def build_lib():
    if _lib[0] is None:
        so=os.path.join(build.tmp(),'hash.so')
        build.sh(build.GCC+['-march=native','-shared','-o',so]+[os.path.join(build.REPO,'third_party',f) for f in('sha512.c','sha3.c','sha512_2way.c')])
        _lib[0]=so
    return _lib[0]
class Job: pass
def _worker(item):
    kind,a=item
    mod=build.module(); res=[]; fns=set(); steps=asm=0; st0=dict(STAT)
    try: r=globals()['job_'+kind](mod,a,fns)
    except exm.Fault as x: r=('fault',str(x))
    except (exm.Unsupported,KeyError) as x: r=('undec',f'{type(x).__name__}: {x}')
    return {'r':r,'fns':sorted(fns),'stat':{k:STAT[k]-st0.get(k,0) for k in STAT},'steps':_steps[0],'asm':_steps[1]}
_steps=[0,0]
def note(e,fns):
    fns|=e.fnset; _steps[0]+=e.steps; _steps[1]+=e.inlineasm
def job_update(mod,a,fns):
    v,k,m,al=a; S=Solver(6000); F=UF('F'); rn=sha_round_name(mod)
    e=exm.Ex(mod,hooks={rn:h_round(F)} if rn else {},solver=S)
    if not rn: Fx=lambda i,n:sha512_f(i[:8],i[8:])
    else: Fx=F
    q=tm.var('q',57); cnt=tm.concat([(k,7),(q,57)])
    val=[tm.var(f'v{i}',64) for i in range(8)]; buf=[tm.var(f'b{i}',8) for i in range(128)]; data=[tm.var(f'd{i}',8) for i in range(m)]
    p=ctx512(e,val,buf,cnt); d=e.alloc('data',m+al,1 if al%2 else 8)
    for i,x in enumerate(data): e.wr_(d.o,al+i,1,x)
    e.call(v,p,Ptr(d.o,al),m); note(e,fns)
    wv,wb=spec_update(Fx,val,buf[:k],data); gv,gc,gb=rd512(e,p)
    for n,g,w,ww in (('chaining value',gv,wv,64),('count',[gc],[tm.add(64,cnt,m)],64),('buffered bytes',gb(len(wb)),wb,8),('message',[e._int(e.rd_(d.o,al+i,1)) for i in range(m)],data,8)):
        s=same(S,g,w,ww)
        if s is None: return ('undec',n)
        if s is not True: return ('bad',n)
    return ('ok',None)
def job_close(mod,a,fns):
    v,nd,k,nb,iv=a; S=Solver(6000); F=UF('F'); rn=sha_round_name(mod)
    e=exm.Ex(mod,hooks={rn:h_round(F)} if rn else {},solver=S)
    Fx=F if rn else (lambda i,n:sha512_f(i[:8],i[8:]))
    q=tm.var('q',57); cnt=tm.concat([(k,7),(q,57)])
    val=[tm.var(f'v{i}',64) for i in range(8)]; buf=[tm.var(f'b{i}',8) for i in range(128)]
    p=ctx512(e,val,buf,cnt); o=e.alloc('digest',nd,1)
    if nb is None: e.call(v,p,o); ubv=0
    else: ubv=tm.var('ub',32); e.call(v,p,ubv,nb,o)
    note(e,fns)
    if nb:
        # final partial byte: high nb bits of ub, then a one
        tail=buf[:k]; last=tm.concat([(0,8-nb-1),(1,1),(tm.ext(ubv,8-nb,nb,32),nb)]) if nb<7 else tm.concat([(1,1),(tm.ext(ubv,1,7,32),7)])
        b=list(tail)+[last]
        while len(b)%128!=112: b.append(0)
        b+=bytes_be(tm.lshr(64,cnt,61))+bytes_be(tm.add(64,tm.shl(64,cnt,3),nb))
        vv,_=spec_update(Fx,val,[],b); w=[]
        for x in vv: w+=bytes_be(x)
        w=w[:nd]
    else: w=spec_close(Fx,val,buf[:k],cnt,nd)
    g=[e._int(e.rd_(o.o,i,1)) for i in range(nd)]
    s=same(S,g,w,8)
    if s is None: return ('undec','digest')
    if s is not True: return ('bad','digest')
    gv,gc,_=rd512(e,p)
    s=same(S,gv+[gc],list(iv)+[0],64)
    if s is not True: return ('bad','context not ready for reuse') if s is not None else ('undec','reuse')
    return ('ok',None)
def job_init(mod,a,fns):
    v,iv=a; S=Solver(6000); e=exm.Ex(mod,solver=S); p=e.alloc('ctx',layout()[0][3],8); e.call(v,p); note(e,fns)
    gv,gc,_=rd512(e,p)
    return ('ok',None) if gv+[gc]==list(iv)+[0] else ('bad','initial state')
def job_round(mod,a,fns):
    rn=sha_round_name(mod)
    if not rn: return ('undec','compression function not found')
    e=exm.Ex(mod,solver=Solver(6000)); d=e.alloc('blk',128,8); r=e.alloc('st',64,8)
    bs=[tm.var(f'b{i}',8) for i in range(128)]; st=[tm.var(f'v{i}',64) for i in range(8)]
    for i,x in enumerate(bs): e.wr_(d.o,i,1,x)
    for i,x in enumerate(st): e.wr_(r.o,8*i,8,x)
    e.call(rn,d,r); note(e,fns)
    got=[e._int(e.rd_(r.o,8*i,8)) for i in range(8)]; want=sha512_f(st,[be64(bs[8*i:8*i+8]) for i in range(16)])
    bad,mg=sweep.equal([(x,y,64) for x,y in zip(got,want)])
    return ('ok',f'{mg} merges') if not bad else ('bad',f'compression function differs from FIPS 180-4 in words {bad}')
def h_perm2(F):
    def h(e,state,blk):
        B=[e.rd(e.padd(blk,8*i),8) for i in range(32)]; s=[e.rd(e.padd(state,8*i),8) for i in range(16)]
        B=[e._int(x) for x in B]; s=[e._int(x) for x in s]
        o=[F([s[2*i+l] for i in range(8)]+[B[2*i+l] for i in range(16)],8) for l in (0,1)]
        for i in range(8):
            for l in (0,1): e.wr(e.padd(state,16*i+8*l),8,o[l][i])
    return h
def job_perm2(mod,a,fns):
    if 'sha512_permutation' not in mod.funcs: return ('undec','two-way compression function not found')
    e=exm.Ex(mod,solver=Solver(6000)); st=e.alloc('state',128,16); b=e.alloc('blk',16*80,16)
    sv=[tm.var(f's{i}',64) for i in range(16)]; bv=[tm.var(f'm{i}',64) for i in range(32)]
    for i,x in enumerate(sv): e.wr_(st.o,8*i,8,x)
    for i,x in enumerate(bv): e.wr_(b.o,8*i,8,x)
    e.call('sha512_permutation',st,b); note(e,fns)
    ps=[]
    for l in (0,1):
        w=sha512_f([sv[2*i+l] for i in range(8)],[bv[2*i+l] for i in range(16)])
        ps+=[(e._int(e.rd_(st.o,16*i+8*l,8)),w[i],64) for i in range(8)]
    bad,mg=sweep.equal(ps)
    return ('ok',f'{mg} merges') if not bad else ('bad',f'two-way compression differs from FIPS 180-4 in words {bad}')
def job_two(mod,a,fns):
    m=32 if a=='256b' else a; S=Solver(6000); F=UF('F'); hk={}
    if 'sha512_permutation' in mod.funcs: hk['sha512_permutation']=h_perm2(F); Fx=F
    else: Fx=lambda i,n:sha512_f(i[:8],i[8:])
    e=exm.Ex(mod,hooks=hk,solver=S); ms=[];ds=[];data=[]
    mp=e.alloc('msgs',16,8); dp=e.alloc('digs',16,8)
    for l in (0,1):
        d=e.alloc(f'msg{l}',m,1); dt=[tm.var(f'd{l}.{i}',8) for i in range(m)]
        for i,x in enumerate(dt): e.wr_(d.o,i,1,x)
        o=e.alloc(f'dig{l}',64,1); e.wr_(mp.o,8*l,8,d); e.wr_(dp.o,8*l,8,o); data.append(dt); ds.append(o); ms.append(d)
    if a=='256b': e.call('sha512_2w_avx_256b',mp,dp)
    else: e.call('sha512_2w_avx',mp,m,dp)
    note(e,fns)
    for l in (0,1):
        n=len(data[l]); v,t=spec_update(Fx,IV512,[],data[l]); w=spec_close(Fx,v,t,n,64)
        g=[e._int(e.rd_(ds[l].o,i,1)) for i in range(64)]
        s=same(S,g,w,8)
        if s is None: return ('undec','digest')
        if s is not True: return ('bad',f'digest of lane {l}')
        if same(S,[e._int(e.rd_(ms[l].o,i,1)) for i in range(m)],data[l],8) is not True: return ('bad',f'message {l} modified')
    return ('ok',None)
def nat_two(ms,als,f256=False):
    L=ctypes.CDLL(build_lib()); m=len(ms[0]); bs=[];os_=[]
    for d,al in zip(ms,als):
        b=build.Buf(m+32,bytes(m+32),64); b.set(d,al); bs.append((b,al)); os_.append(build.Buf(64,bytes(64),1))
    mp=(ctypes.c_void_p*2)(*[b.p.value+al for b,al in bs]); dp=(ctypes.c_void_p*2)(*[o.p.value for o in os_])
    if f256: L.sha512_2w_avx_256b(mp,dp)
    else: L.sha512_2w_avx(mp,ctypes.c_uint(m),dp)
    for l in (0,1):
        if os_[l].get()!=hashlib.sha512(ms[l]).digest(): return f'lane {l} digest differs from SHA-512'
        if not os_[l].guards_ok(): return 'wrote outside the digest'
        if bs[l][0].get(bs[l][1],m)!=ms[l]: return 'message modified'
    return None
def rep_update(c,a,tries=6):
    v,k,m,al=a; R=c.rng
    for t in range(tries):
        q=[0,1,3][t%3]; args=(v,None,k,m,q,al,R.randbytes(m),R.randbytes(128),[R.getrandbits(64) for _ in range(8)])
        r=nat.forked(nat_sha,'update',args,timeout=60)
        if r!=('ok',None): return {'function':v,'buffered':k,'len':m,'offset':al,'count':128*q+k,'data':args[6].hex(),'buf':args[7].hex(),'val':args[8],'observed':str(r)}
def rep_close(c,a,tries=8):
    v,nd,k,nb,iv=a; R=c.rng
    for t in range(tries):
        q=[0,1,(1<<53)+1,(1<<57)-1,1<<54,R.getrandbits(57)][t%6]; args=(v,nd,k,q,R.randbytes(128),[R.getrandbits(64) for _ in range(8)],R.getrandbits(8),nb,list(iv))
        r=nat.forked(nat_sha,'close',args,timeout=60)
        if r!=('ok',None): return {'function':v,'buffered':k,'count':128*q+k,'buf':args[4].hex(),'val':args[5],'ub':args[6],'nbits':nb,'observed':str(r)}
def rep_two(c,a,tries=6):
    R=c.rng
    for t in range(tries):
        ms=[R.randbytes(32 if a=='256b' else a) for _ in (0,1)]; r=nat.forked(nat_two,ms,[t%3,(t*5)%17],a=='256b',timeout=60)
        if r!=('ok',None): return {'function':'sha512_2w_avx','messages':[x.hex() for x in ms],'observed':str(r)}
def rep_init(c,a,tries=1):
    def go():
        L=ctypes.CDLL(build_lib()); bo,vo,co,n=layout()[0]; x=build.Buf(n,b'\xa5'*n,8); getattr(L,a[0])(x.p)
        if [int.from_bytes(x.get(vo+8*i,8),'little') for i in range(8)]!=list(a[1]) or x.get(co,8)!=bytes(8): return 'initial state differs'
    r=nat.forked(go,timeout=60)
    if r!=('ok',None): return {'function':a[0],'observed':str(r)}
def rep_round(c,a,tries=40):
    for t in range(tries):
        r=rep_update(c,('sph_sha384',0,128,0),1)
        if r: return r
def rep_perm2(c,a,tries=40):
    for t in range(tries):
        r=rep_two(c,200,1)
        if r: return r
REP={'update':rep_update,'close':rep_close,'two':rep_two,'init':rep_init,'round':rep_round,'perm2':rep_perm2}
def drive(c,jobs,jobn=8):
    build.module(); layout(); build_lib()
    out=nat.parallel(_worker,jobs,jobn,timeout=max(60,c.left()-30)); groups={}; done=set(); queued=[]
    for (kind,a),r in zip(jobs,out):
        if r[0]!='ok': queued.append((kind,a,str(r)[:200])); continue
        d=r[1]; c.funcs|=set(d['fns']); c.steps+=d['steps']; c.asm+=d['asm']; c.paths+=1
        for k,v in d['stat'].items(): STAT[k]=STAT.get(k,0)+v
        if d['r'][0]=='ok': groups.setdefault(kind,[]).append(a); c.good(f'{kind} {a if not isinstance(a,tuple) else a[:4]}')
        else: queued.append((kind,a,f"{d['r'][0]}: {d['r'][1]}"))
    for kind,l in groups.items():
        # the encoding is built from the front end's IR; the binary users run comes from another compiler and -O3: run it too
        for a in [l[i] for i in sorted({0,1,len(l)//3,len(l)//2,2*len(l)//3,len(l)-2,len(l)-1}) if 0<=i<len(l)]:
            w=REP[kind](c,a,1)
            if not w: c.validated+=1; continue
            key=f'{kind}:{a if not isinstance(a,tuple) else a[0]}:native'
            if key not in done: done.add(key); c.violation(key,f'{kind} {str(a)[:80]}: {w["observed"][:120]} (as compiled by gcc; the source relies on undefined behaviour)',w)
    for kind,a,why in queued:
        if len(done)<6:
            w=REP[kind](c,a)
            if w:
                key=f'{kind}:{a if not isinstance(a,tuple) else a[0]}'
                if key in done: continue
                done.add(key); c.violation(key,f'{kind} {str(a)[:80]}: {w["observed"][:120]} ({why[:100]})',w); continue
        elif c.viol: continue
        c.undec(f'{kind} {str(a)[:80]}',why)
def validate512(c):
    """the reference and the encoding's concrete semantics agree with hashlib and the native code"""
    for n in (0,1,111,112,127,128,129,240,1000):
        d=c.rng.randbytes(n); v,t=spec_update(Fc,IV512,[],list(d)); w=spec_close(Fc,v,t,n,64)
        if bytes(w)!=hashlib.sha512(d).digest(): c.undec('reference','SHA-512 reference differs from hashlib')
        v,t=spec_update(Fc,IV384,[],list(d)); w=spec_close(Fc,v,t,n,48)
        if bytes(w)!=hashlib.sha384(d).digest(): c.undec('reference','SHA-384 reference differs from hashlib')
        c.validated+=2
def run_C18(c):
    validate512(c)
    UPD=[n for n in ('sph_sha384','sph_sha512') if n in build.module().funcs]
    ms=[0,1,2,7,8,63,64,100,111,112,126,127,128,129,135,136,200,239,240,241,255,256,257,260,383,384,385,400,511,512,513,520]
    ks=[0,1,2,8,60,64,100,111,112,113,120,126,127]
    if c.thorough: ms=list(range(0,521)); ks=list(range(0,128,3))+[126,127,112]
    jobs=[('round',0),('perm2',0)]+[('init',('sph_sha512_init',IV512)),('init',('sph_sha384_init',IV384))]
    for v in UPD: jobs+=[('update',(v,k,m,al)) for k in ks for m in sorted(set(ms)|{128-k,127-k,129-k,256-k}) for al in ((0,) if (k+m)%3 else (0,1))]
    for v,nd,iv in (('sph_sha512_close',64,IV512),('sph_sha384_close',48,IV384)): jobs+=[('close',(v,nd,k,None,iv)) for k in range(128)]
    for v,nd,iv in (('sph_sha512_addbits_and_close',64,IV512),('sph_sha384_addbits_and_close',48,IV384)): jobs+=[('close',(v,nd,k,nb,iv)) for k in (0,1,110,111,112,113,127) for nb in range(8)]
    two=list(range(0,300)) if not c.thorough else list(range(0,1100))
    jobs+=[('two',m) for m in two]+[('two',m) for m in (367,368,383,384,385,495,496,511,512,513,520) if m not in two]
    if 'sha512_2w_avx_256b' in build.module().funcs: jobs.append(('two','256b'))
    lr=range(128) if c.thorough else (0,1,64,111,112,127)
    lj=[('longu',(v,k,r)) for v in UPD for k in ((0,1,8,56,64,111,112,127) if c.thorough else (0,1,64,120,127)) for r in (lr if not k else list(lr)[::2])]
    if 'sha512_2w_avx' in build.module().funcs: lj+=[('longtwo',r) for r in (range(128) if c.thorough else (0,1,5,64,111,112,120,127))]
    jobs=lj+jobs
    c.bounds+=[f'inputs of every length from 4 blocks up to 2^62 bytes (two-way: 2^32-1, all its 32-bit length argument can express) for the listed residues mod 128 and buffered lengths ({len(lj)} cases), by induction over the number of blocks']
    c.bounds+=[f'update: {len(ks)} buffered lengths x {len(ms)}+4 update lengths up to {max(ms)} bytes, aligned and unaligned source; all contents, chaining values and block counts (57-bit) symbolic',
               'close: all 128 buffered lengths, all contents, chaining values and counts symbolic; addbits with 0..7 extra bits','two-way: every length '+f'{two[0]}..{two[-1]}, both messages symbolic',
               'compression functions: all states and blocks symbolic']
    c.assume+=['message shorter than 2^64 bytes','in the streaming steps the compression function is uninterpreted; its own obligation shows it equals FIPS 180-4']
    drive(c,jobs)
    if not UPD: c.undec('update','entry points not found')
# ------------------------------------------------------------------ SHA-3 / SHAKE
def kname(mod): return 'KeccakF2' if 'KeccakF2' in mod.funcs else None
def h_keccak(F):
    def h(e,p):
        s=[e._int(e.rd(e.padd(p,8*i),8)) for i in range(25)]
        for i,x in enumerate(F(s,25)): e.wr(e.padd(p,8*i),8,x)
    return h
def Gc(ins,n): return keccak_f(ins)
def absorb(F,st,pos,data,rate):
    """st: 200 byte terms; absorb data at position pos"""
    st=list(st)
    for b in data:
        st[pos]=tm.xor(8,st[pos],b) if not(isinstance(st[pos],int) and isinstance(b,int)) else st[pos]^b
        pos+=1
        if pos==rate: st=perm(F,st); pos=0
    return st,pos
def perm(F,st):
    o=F([le64(st[8*i:8*i+8]) if not all(isinstance(x,int) for x in st[8*i:8*i+8]) else int.from_bytes(bytes(st[8*i:8*i+8]),'little') for i in range(25)],25); r=[]
    for w in o: r+=bytes_le(w) if not isinstance(w,int) else list(w.to_bytes(8,'little'))
    return r
def squeeze(F,st,pos,rate,dom,n):
    st=list(st)
    x=lambda a,b: a^b if isinstance(a,int) else tm.xor(8,a,b)
    st[pos]=x(st[pos],dom); st[rate-1]=x(st[rate-1],0x80); st=perm(F,st); out=[]
    while len(out)<n:
        out+=st[:rate]
        if len(out)<n: st=perm(F,st)
    return out[:n]
def mkstate(e,st,rbits,hb,pos):
    so,ho,bo,ro,n=layout()[1]; p=e.alloc('state',n,32)
    for i,x in enumerate(st): e.wr_(p.o,so+i,1,x)
    e.wr_(p.o,ho,4,hb); e.wr_(p.o,bo,4,8*pos); e.wr_(p.o,ro,4,rbits); return p
def rdstate(e,p):
    so,ho,bo,ro,n=layout()[1]
    return [e._int(e.rd_(p.o,so+i,1)) for i in range(200)],[e._int(e.rd_(p.o,o,4)) for o in (ho,bo,ro)]
def setup3(mod,S):
    F=UF('P'); kn=kname(mod)
    return exm.Ex(mod,hooks={kn:h_keccak(F)} if kn else {},solver=S),(F if kn else (lambda i,n:keccak_f(i)))
def job_keccak(mod,a,fns):
    kn=kname(mod)
    if not kn: return ('undec','permutation not found')
    e=exm.Ex(mod,solver=Solver(6000)); p=e.alloc('s',200,8); s=[tm.var(f'a{i}',64) for i in range(25)]
    for i,x in enumerate(s): e.wr_(p.o,8*i,8,x)
    e.call(kn,p); note(e,fns)
    w=keccak_f(s); bad,mg=sweep.equal([(e._int(e.rd_(p.o,8*i,8)),w[i],64) for i in range(25)])
    return ('ok',f'{mg} merges') if not bad else ('bad',f'permutation differs from FIPS 202 in lanes {bad}')
def job_kinit(mod,hb,fns):
    e,F=setup3(mod,Solver(6000)); n=layout()[1][4]; p=e.alloc('state',n,32); e.call('Init',p,hb); note(e,fns)
    st,f=rdstate(e,p)
    return ('ok',None) if st==[0]*200 and f==[hb,0,1600-2*hb] else ('bad','initial state')
def job_kupd(mod,a,fns):
    hb,pos,m,al=a; S=Solver(6000); e,F=setup3(mod,S); rate=(1600-2*hb)//8
    st=[tm.var(f's{i}',8) for i in range(200)]; data=[tm.var(f'd{i}',8) for i in range(m)]
    p=mkstate(e,st,8*rate,hb,pos); d=e.alloc('data',m+al,1 if al%2 else 8)
    for i,x in enumerate(data): e.wr_(d.o,al+i,1,x)
    e.call('Update',p,Ptr(d.o,al),8*m); note(e,fns)
    ws,wp=absorb(F,st,pos,data,rate); gs,f=rdstate(e,p)
    s=same(S,gs,ws,8)
    if s is None: return ('undec','state')
    if s is not True: return ('bad','state bytes')
    if f!=[hb,8*wp,8*rate]: return ('bad','state position')
    return ('ok',None)
def job_kfin(mod,a,fns):
    hb,pos=a; S=Solver(6000); e,F=setup3(mod,S); rate=(1600-2*hb)//8
    st=[tm.var(f's{i}',8) for i in range(200)]; p=mkstate(e,st,8*rate,hb,pos); o=e.alloc('digest',hb//8,1)
    e.call('Final',p,o); note(e,fns)
    s=same(S,[e._int(e.rd_(o.o,i,1)) for i in range(hb//8)],squeeze(F,st,pos,rate,0x06,hb//8),8)
    return ('ok',None) if s is True else ('undec','digest') if s is None else ('bad','digest')
def job_kfin2(mod,a,fns):
    hb,pos,n=a; S=Solver(6000); e,F=setup3(mod,S); rate=(1600-2*hb)//8
    st=[tm.var(f's{i}',8) for i in range(200)]; p=mkstate(e,st,8*rate,hb,pos); o=e.alloc('out',n,1)
    e.call('Final2',p,o,n); note(e,fns)
    s=same(S,[e._int(e.rd_(o.o,i,1)) for i in range(n)],squeeze(F,st,pos,rate,0x1f,n),8)
    return ('ok',None) if s is True else ('undec','output') if s is None else ('bad','output')
def job_konce(mod,a,fns):
    fn,hb,m,n,al=a; S=Solver(6000); e,F=setup3(mod,S); rate=(1600-2*hb)//8
    data=[tm.var(f'd{i}',8) for i in range(m)]; d=e.alloc('data',m+al,1 if al%2 else 8); o=e.alloc('out',n,1)
    for i,x in enumerate(data): e.wr_(d.o,al+i,1,x)
    if fn=='Hash': e.call(fn,hb,Ptr(d.o,al),8*m,o)
    elif fn=='Hash2': e.call(fn,hb,Ptr(d.o,al),8*m,o,n)
    else: e.call(fn,Ptr(d.o,al),8*m,o,n)
    note(e,fns); st,pos=absorb(F,[0]*200,0,data,rate)
    s=same(S,[e._int(e.rd_(o.o,i,1)) for i in range(n)],squeeze(F,st,pos,rate,0x06 if fn=='Hash' else 0x1f,n),8)
    if s is not True: return ('undec','output') if s is None else ('bad','output')
    if same(S,[e._int(e.rd_(d.o,al+i,1)) for i in range(m)],data,8) is not True: return ('bad','message modified')
    return ('ok',None)
def nat3(kind,a,st,data):
    L=ctypes.CDLL(build_lib()); so,ho,bo,ro,n=layout()[1]
    def mk(hb,pos):
        rate=(1600-2*hb)//8; c=build.Buf(n,bytes(n),32); c.set(st,so); c.set(hb.to_bytes(4,'little'),ho); c.set((8*pos).to_bytes(4,'little'),bo); c.set((8*rate).to_bytes(4,'little'),ro); return c,rate
    if kind=='kinit':
        c=build.Buf(n,b'\xa5'*n,32); L.Init(c.p,a)
        if c.get(so,200)!=bytes(200) or c.get(ho,4)!=a.to_bytes(4,'little') or c.get(bo,4)!=bytes(4) or c.get(ro,4)!=(1600-2*a).to_bytes(4,'little'): return 'initial state differs'
    if kind=='kupd':
        hb,pos,m,al=a; c,rate=mk(hb,pos); b=build.Buf(m+64,bytes(m+64),64); b.set(data[:m],al)
        L.Update(c.p,ctypes.c_void_p(b.p.value+al),ctypes.c_ulonglong(8*m)); ws,wp=absorb(Gc,list(st),pos,list(data[:m]),rate)
        if list(c.get(so,200))!=ws: return 'state differs'
        if c.get(bo,4)!=(8*wp).to_bytes(4,'little'): return 'position differs'
    if kind=='kfin':
        hb,pos=a; c,rate=mk(hb,pos); o=build.Buf(hb//8,bytes(hb//8),1); L.Final(c.p,o.p)
        if list(o.get())!=squeeze(Gc,list(st),pos,rate,6,hb//8): return 'digest differs'
        if not o.guards_ok(): return f'wrote beyond the {hb//8}-byte digest'
    if kind=='kfin2':
        hb,pos,k=a; c,rate=mk(hb,pos); o=build.Buf(k,bytes(k),1); L.Final2(c.p,o.p,ctypes.c_uint(k))
        if list(o.get())!=squeeze(Gc,list(st),pos,rate,0x1f,k): return 'output differs'
        if not o.guards_ok(): return 'wrote beyond the output'
    if kind=='konce':
        fn,hb,m,k,al=a; b=build.Buf(m+64,bytes(m+64),64); b.set(data[:m],al); o=build.Buf(k,bytes(k),1); d=ctypes.c_void_p(b.p.value+al); bl=ctypes.c_ulonglong(8*m)
        if fn=='Hash': L.Hash(hb,d,bl,o.p)
        elif fn=='Hash2': L.Hash2(hb,d,bl,o.p,k)
        else: getattr(L,fn)(d,bl,o.p,ctypes.c_uint(k))
        x=data[:m]
        w=hashlib.new('sha3_%d'%hb,x).digest() if fn=='Hash' else getattr(hashlib,'shake_%d'%hb)(x).digest(k)
        if o.get()!=w: return 'output differs from FIPS 202'
        if not o.guards_ok(): return 'wrote beyond the output'
    return None
def rep3(kind):
    def f(c,a,tries=5):
        for t in range(tries):
            st=c.rng.randbytes(200); data=c.rng.randbytes(4096); r=nat.forked(nat3,kind,a,st,data,timeout=60)
            if r!=('ok',None): return {'function':kind,'arguments':list(a) if isinstance(a,tuple) else a,'state':st.hex(),'data':data[:1200].hex(),'observed':str(r)}
    return f
for _k in ('kinit','kupd','kfin','kfin2','konce'): REP[_k]=rep3(_k)
def rep_keccak(c,a,tries=40):
    for t in range(tries):
        r=REP['kfin2'](c,(256,0,200),1)
        if r: return r
REP['keccak']=rep_keccak
# ------------------------------------------------------------------ inputs of every length (induction over the number of blocks)
class _CB:
    """what the general iteration must satisfy: the input has L bytes, k bytes were already buffered, B bytes go into each call of the compression function"""
    def __init__(s,e,L,B,k,streams): s.e=e; s.L=L; s.B=B; s.k=k; s.st=streams; s.last=[]; s.n=0; s.marks=[]
    def chain(s): return list(s.last)
    def called(s,words): s.last=words; s.n+=1
    def stride(s):
        a,b,c=s.marks; s.c=b-a
        if c-b!=s.c or s.c<1: raise exm.Unsupported('iterations differ')
        return s.c*s.B
    def off(s,t): return tm.add(64,s.loop.u,s.B*s.marks[0]-s.k)
    def general(s,t,V): s.e.assume(tm.ult(64,s.loop.u,1<<62)); s.e.assume(tm.not_(1,tm.ult(64,s.L,s.off(t))))
    def bytes(s,l,o,n): return [s.st[l].byte(tm.add(64,o,i)) for i in range(n)]
    def block(s,t,l=0): return s.bytes(l,s.off(t),s.B*s.c)
    def rest(s,t):
        r=s.e.solver.values(s.e.pc,tm.sub(64,s.L,s.off(t)),64,1)
        if not r or len(r)!=1 or r[0]>1<<16: raise exm.Unsupported('remaining length')
        return r[0]
    def eq(s,what,g,w,wd):
        for a,b in zip(g,w):
            if a is b or (isinstance(a,int) and isinstance(b,int) and a==b): continue
            ok,m=s.e.solver.valid(s.e.pc,tm.eq(wd,a,b),4000)
            if ok is None: raise exm.Unsupported(what)
            if not ok: raise ll.Wrong(what,m)
def _long(mk,call,fns):
    try: n,e=ll.run(mk,call)
    except ll.Wrong as x: return ('bad',f'{x}')
    note(e,fns); return ('ok',f'{n} paths')
def job_longu(mod,a,fns):
    """sph update, k bytes buffered, 128*N+r bytes of input for every N"""
    v,k,r=a; rn=sha_round_name(mod)
    if not rn: return ('undec','compression function not found')
    box={}
    def mk():
        F=UF('F'); S=Solver(6000); box.clear()
        L=tm.concat([(r,7),(tm.var('N',55),55),(0,2)])
        q=tm.var('q',57); cnt=tm.concat([(k,7),(q,57)])
        def hr(e,data,rr):
            h_round(F)(e,data,rr); cb.called([e._int(e.rd(e.padd(rr,8*i),8)) for i in range(8)])
        e=ll.LEx(mod,hooks={rn:hr},solver=S); e.assume(tm.not_(1,tm.ult(64,L,384)))
        val=[tm.var(f'v{i}',64) for i in range(8)]; buf=[tm.var(f'b{i}',8) for i in range(128)]
        p=ctx512(e,val,buf,cnt); d=e.stream('data',L)
        class CB(_CB):
            def step(s,t,V): return spec_update(F,list(V),[],s.block(t))[0]
            def ret(s,t,V,value):
                n=s.rest(t); wv,wb=spec_update(F,list(V),[],s.bytes(0,s.off(t),n)); gv,gc,gb=rd512(e,p)
                s.eq('chaining value',gv,wv,64); s.eq('count',[gc],[tm.add(64,cnt,L)],64); s.eq('buffered bytes',gb(len(wb)),wb,8)
        cb=CB(e,L,128,k,[e.of(d.o)]); box.update(p=p,d=d,L=L); return e,cb
    return _long(mk,lambda e:e.call(v,box['p'],box['d'],box['L']),fns)
def job_longtwo(mod,r,fns):
    """two-way SHA-512 of two messages of 128*N+r bytes, every N the 32-bit length allows"""
    if 'sha512_permutation' not in mod.funcs: return ('undec','two-way compression function not found')
    box={}
    def mk():
        F=UF('F'); S=Solver(6000); L=tm.concat([(r,7),(tm.var('N',25),25),(0,32)])
        def hp(e,state,blk):
            h_perm2(F)(e,state,blk); w=[e._int(e.rd(e.padd(state,8*i),8)) for i in range(16)]; cb.called(w)
        e=ll.LEx(mod,hooks={'sha512_permutation':hp},solver=S); e.assume(tm.not_(1,tm.ult(64,L,384)))
        mp=e.alloc('msgs',16,8); dp=e.alloc('digs',16,8); ms=[];ds=[]
        for l in (0,1):
            d=e.stream(f'msg{l}',L); o=e.alloc(f'dig{l}',64,1); e.wr_(mp.o,8*l,8,d); e.wr_(dp.o,8*l,8,o); ms.append(d); ds.append(o)
        class CB(_CB):
            def step(s,t,V):
                w=[spec_update(F,[V[2*i+l] for i in range(8)],[],s.block(t,l))[0] for l in (0,1)]; return [w[i%2][i//2] for i in range(16)]
            def ret(s,t,V,value):
                n=s.rest(t)
                for l in (0,1):
                    v,b=spec_update(F,[V[2*i+l] for i in range(8)],[],s.bytes(l,s.off(t),n))
                    s.eq(f'digest of lane {l}',[e._int(e.rd_(ds[l].o,i,1)) for i in range(64)],spec_close(F,v,b,L,64),8)
        cb=CB(e,L,128,0,[e.of(d.o) for d in ms]); box.update(mp=mp,dp=dp,L=L); return e,cb
    return _long(mk,lambda e:e.call('sha512_2w_avx',box['mp'],tm.ext(box['L'],0,32,64),box['dp']),fns)
def job_longk(mod,a,fns):
    """sponge input of any number of whole blocks plus m bytes, pos bytes already in the block; fn: Update, or a one-shot function"""
    fn,hb,pos,m=a; kn=kname(mod); rate=(1600-2*hb)//8
    if not kn: return ('undec','permutation not found')
    box={}
    def mk():
        F=UF('P'); S=Solver(6000); X=tm.var('L',61); L=tm.concat([(X,61),(0,3)])
        def hk(e,p):
            h_keccak(F)(e,p); cb.called([e._int(e.rd(e.padd(p,8*i),8)) for i in range(25)])
        e=ll.LEx(mod,hooks={kn:hk},solver=S); e.assume(tm.not_(1,tm.ult(64,L,2*rate)))
        d=e.stream('data',L); bits=tm.concat([(0,3),(X,61)]); st=[tm.var(f's{i}',8) for i in range(200)]
        if fn=='Update': p=mkstate(e,st,8*rate,hb,pos); box['args']=(p,d,bits)
        else: o=e.alloc('out',64,1); box['args']=(d,bits,o,64)
        def bs(V): return [tm.ext(w,8*i,8,64) for w in V for i in range(8)]
        class CB(_CB):
            def general(s,t,V):
                _CB.general(s,t,V); x=tm.sub(64,L,s.off(t)); e.assume(tm.not_(1,tm.and_(1,tm.ult(64,x,rate),tm.not_(1,tm.eq(64,x,m)))))
            def step(s,t,V):
                st2,_=absorb(F,bs(V),0,s.block(t),rate); return [le64(st2[8*i:8*i+8]) for i in range(25)]
            def ret(s,t,V,value):
                n=s.rest(t); ws,wp=absorb(F,bs(V),0,s.bytes(0,s.off(t),n),rate)
                if fn=='Update':
                    gs,f=rdstate(e,p); s.eq('state',gs,ws,8); s.eq('position',f,[hb,8*wp,8*rate],32)
                else: s.eq('output',[e._int(e.rd_(o.o,i,1)) for i in range(64)],squeeze(F,ws,wp,rate,0x1f,64),8)
        cb=CB(e,L,rate,pos,[e.of(d.o)]); return e,cb
    return _long(mk,lambda e:e.call(fn,*box['args']),fns)
def _big(n,salt,lead=0):
    """n bytes at offset lead of a mapping of zero pages with random patches at the ends and around the powers of two"""
    import mmap,random
    m=mmap.mmap(-1,n+lead+4096,flags=mmap.MAP_PRIVATE|mmap.MAP_ANONYMOUS); R=random.Random(salt)
    for o in [0,n-300]+[x+d for k in range(12,34) for x in [1<<k] for d in (-300,0)]:
        if 0<=o<=n-300: m[lead+o:lead+o+300]=R.randbytes(300)
    return m,ctypes.addressof(ctypes.c_char.from_buffer(m))+lead,memoryview(m)[lead:lead+n]
def nat_long(kind,a,n):
    L=ctypes.CDLL(build_lib())
    if kind=='longu':
        v,k,r=a; m,p,b=_big(n,1,k); x=build.Buf(layout()[0][3],bytes(layout()[0][3]),8); o=build.Buf(48,bytes(48),1); L.sph_sha384_init(x.p); pre=bytes(range(k)); q=build.Buf(k+1,pre+b'\0',8)
        getattr(L,v)(x.p,q.p,ctypes.c_size_t(k)); getattr(L,v)(x.p,ctypes.c_void_p(p),ctypes.c_size_t(n)); L.sph_sha384_close(x.p,o.p); h=hashlib.sha384(pre); h.update(b)
        if o.get()!=h.digest(): return 'digest differs from SHA-384'
    if kind=='longtwo':
        bs=[_big(n,s) for s in (2,3)]; os_=[build.Buf(64,bytes(64),1) for _ in bs]
        L.sha512_2w_avx((ctypes.c_void_p*2)(*[p for _,p,_ in bs]),ctypes.c_uint(n),(ctypes.c_void_p*2)(*[o.p.value for o in os_]))
        for l in (0,1):
            if os_[l].get()!=hashlib.sha512(bs[l][2]).digest(): return f'lane {l} digest differs from SHA-512'
    if kind=='longk':
        fn,hb,pos,r=a; m,p,b=_big(n,4); pre=bytes(range(pos)); S=layout()[1]; hx=hashlib.shake_128 if hb==128 else hashlib.shake_256
        if fn!='Update': o=build.Buf(64,bytes(64),1); getattr(L,fn)(ctypes.c_void_p(p),ctypes.c_ulonglong(8*n),o.p,ctypes.c_uint(64)); w=hx(b).digest(64)
        else:
            x=build.Buf(S[4],bytes(S[4]),32); q=build.Buf(pos+1,pre+b'\0',8); L.Init(x.p,hb); L.Update(x.p,q.p,ctypes.c_ulonglong(8*pos)); L.Update(x.p,ctypes.c_void_p(p),ctypes.c_ulonglong(8*n))
            if hb==128: o=build.Buf(64,bytes(64),1); L.Final2(x.p,o.p,ctypes.c_uint(64)); h=hx(pre)
            else: o=build.Buf(hb//8,bytes(hb//8),1); L.Final(x.p,o.p); h=hashlib.new(f'sha3_{hb}',pre)
            h.update(b); w=h.digest(64) if hb==128 else h.digest()
        if o.get()!=w: return 'output differs from FIPS 202'
    return None
def rep_long(kind):
    def f(c,a,tries=6):
        st=128 if kind!='longk' else (1600-2*a[1])//8; r=a if kind=='longtwo' else a[-1]
        for N in ((1<<20),) if tries==1 else (1<<20,1<<29,1<<31,(1<<32)-1,1<<32):
            n=N//st*st+r
            if tries>1 and n<N: n+=st
            if kind=='longtwo' and n>=1<<32: n-=st*((n-(1<<32))//st+1)
            z=nat.forked(nat_long,kind,a,n,timeout=150)
            if z!=('ok',None): return {'function':kind,'arguments':a if isinstance(a,int) else list(a),'length':n,'message':'zero bytes with the patches of _big()','observed':f'{n} bytes: {z}'}
            if c.left()<120: return
    return f
for _k in ('longu','longtwo','longk'): REP[_k]=rep_long(_k)
def run_C19(c):
    for n in (0,1,135,136,137,400):
        d=c.rng.randbytes(n); st,p=absorb(Gc,[0]*200,0,list(d),136)
        if bytes(squeeze(Gc,st,p,136,0x1f,300))!=hashlib.shake_256(d).digest(300) or bytes(squeeze(Gc,st,p,136,6,32))!=hashlib.sha3_256(d).digest(): c.undec('reference','Keccak reference differs from hashlib')
        c.validated+=2
    th=c.thorough; jobs=[('keccak',0)]; H=[224,256,384,512]; X=[128,256]
    jobs+=[('kinit',h) for h in sorted(set(H+X))]
    for h in sorted(set(H+X)):
        r=(1600-2*h)//8
        ps=range(r) if th else sorted({0,1,7,8,57,r//2,r-9,r-8,r-2,r-1})
        for pos in ps:
            for m in sorted({0,1,8,r-pos-1,r-pos,r-pos+1,r,r+1,2*r-pos,2*r-pos-1,57,114}|(set(range(0,300,7)) if th else set())):
                if m>=0: jobs.append(('kupd',(h,pos,m,(pos+m)%2)))
        if h in H: jobs+=[('kfin',(h,pos)) for pos in range(r)]
        if h in X:
            jobs+=[('kfin2',(h,pos,n)) for pos in range(r) for n in ((64,114) if pos%8 else (0,1,64,114,r-1,r,r+1,2*r,2*r+1))]
    for fn,hb in (('SHAKE128',128),('SHAKE256',256),('Hash2',128),('Hash2',256)):
        r=(1600-2*hb)//8; base=fn!='Hash2'
        lens=range(0,2*r+3) if base else (0,1,r-1,r,r+1,2*r)
        for m in lens:
            for n in ((32,64,r+1) if m%16 else (0,1,32,64,114,r-1,r,r+1,2*r,3*r+5)): jobs.append(('konce',(fn,hb,m,n,m%2)))
    for hb in H:
        r=(1600-2*hb)//8
        jobs+=[('konce',('Hash',hb,m,hb//8,m%2)) for m in (range(0,2*r+2) if th else sorted({0,1,3,64,r-2,r-1,r,r+1,2*r-1,2*r,2*r+1}))]
    lj=[]
    for h in sorted(set(H+X)):
        r=(1600-2*h)//8
        if h in X: lj+=[('longk',(f'SHAKE{h}',h,0,m)) for m in (range(r) if th else (0,1,r//2,r-1))]
        lj+=[('longk',('Update',h,p,m)) for p,m in ([(0,0),(9,10),(r-1,0)] if not th else [(p,m) for p in (0,1,8,r-8,r-1) for m in (0,1,8,r//2,r-1)])]
    jobs=lj+jobs
    c.bounds+=[f'inputs of every length up to 2^61 bytes for {len(lj)} combinations of function, residue and position, by induction over the number of blocks']
    mod=build.module(); jobs=[(k,a) for k,a in jobs if not(k in('konce','longk') and a[0] not in mod.funcs)]
    c.bounds+=['permutation: all states','update: every variant (224..512, SHAKE128/256), the listed positions and lengths (around every block boundary), state and data symbolic','final/final2: every position of every rate; output lengths 0..2 blocks+1',
               'one-shot SHAKE: every message length up to two blocks, output lengths up to 3 blocks+5; one-shot SHA-3 around block boundaries']
    c.assume+=['byte-granular messages','in the sponge steps the permutation is uninterpreted; its own obligation shows it equals FIPS 202']
    drive(c,jobs)
