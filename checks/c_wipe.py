"""C24: no stack or heap object a Diffie-Hellman call used still holds a byte of the (clamped) private scalar when it returns.

The call runs symbolically with every key byte a variable (field kernels replaced by arbitrary results: they never receive the key).
Each byte left in a dead local, and each byte that only a removable store covers (a non-volatile store nobody reads before the
object dies), is compared with each byte of the raw and of the clamped key: it is a copy when the solver finds no key that tells
them apart."""
import os,ctypes,random
import build,ex as exm,terms as tm,api,nat,kern,solve
from fields import REPS
from solve import Solver
from ex import Ptr
FN=[('X25519','keygen'),('X25519','shared'),('X25519_x64','keygen'),('X25519_x64','shared'),('X448','keygen'),('X448','shared')]
SIZE={'X25519':32,'X25519_x64':32,'X448':56}
def clamp(tab,b):
    b=list(b)
    if tab=='X448': b[0]&=0xfc; b[55]|=0x80
    else: b[0]&=0xf8; b[31]=(b[31]&0x7f)|64
    return bytes(b)
class Shadow:
    """values a removable store may leave behind"""
    def __init__(s,keep): s.stale={}; s.keep=keep; s.e=None
    def read(s,o,off,n):
        d=s.stale.get(o)
        if d:
            for i in range(off,off+n): d.pop(i,None)
    def write(s,o,off,n,vol):
        if o.kind in('arg','global'): return
        if vol:
            s.read(o,off,n); return
        for i in range(off,off+n):
            v=byte(o,i)
            if v is not None and not isinstance(v,int) and s.keep(v): s.stale.setdefault(o,{}).setdefault(i,set()).add(v)
def byte(o,i):
    for b in range(i,i-8,-1):
        c=o.cells.get(b)
        if c is not None:
            if b+c[0]<=i or isinstance(c[1],Ptr): return None
            return tm.ext(c[1],8*(i-b),8,8*c[0])
    return None
def havoc_hooks(mod):
    e=exm.Ex(mod); hk={}; n=[0]
    def fresh(e,p,k):
        n[0]+=1
        e.wr(p,k,tm.var(f'!h{n[0]}',8*k))
    def mk(outs):
        def h(e,*a):
            for i,offs,k in outs:
                for o in offs: fresh(e,e.padd(a[i],o),k)
            return None
        return h
    def dig(k,rn): return [o for l in REPS[k,rn].digs for o,_ in l]
    for slot,k in kern.K.items():
        f=api.irfn(e,slot)
        if f: hk.setdefault(f,mk([(i,dig(k.field,rn),8) for i,(nm,rn,md) in enumerate(k.ops) if md in 'ox']))
    for f in ('25519','448'):
        nb=32 if f=='25519' else 56
        for r,pre in (('1f','_1w_full'),('1r','_1w_red')):
            for slot,outs in ((f'Fp{f}.{pre}.arith.inv',[(0,dig(f,r),8)]),(f'Fp{f}.{pre}.arith.misc.ser',[(0,range(0,nb,8),8)]),(f'Fp{f}.{pre}.arith.misc.unser',[(0,dig(f,r),8)])):
                fn=api.irfn(e,slot)
                if fn: hk.setdefault(fn,mk(outs))
    return hk
def job(item):
    tab,op=item; nb=SIZE[tab]; mod=build.module(); st0=dict(solve.STAT); r={'left':[],'undec':None}
    try:
        e=exm.Ex(mod,hooks=havoc_hooks(mod),solver=Solver(10000)); e.max_steps=200_000_000
        key=[tm.var(f'k{i}',8) for i in range(nb)]; rng=random.Random(5)
        envs=[{k:rng.randrange(256) for k in key} for _ in range(6)]
        cl=[clamp(tab,bytes(v[k] for k in key)) for v in envs]
        sigs={}
        for i in range(nb):
            sigs.setdefault(tuple(v[key[i]] for v in envs),[]).append((i,'raw'))
            sigs.setdefault(tuple(c[i] for c in cl),[]).append((i,'clamped'))
        pref={s[:j] for s in sigs for j in range(1,7)}; memo={}; memos=[{} for _ in envs]
        def cand(v):
            """key bytes that v agrees with on the sample keys (only these need the solver)"""
            x=memo.get(v)
            if x is None:
                g=()
                for en,mm in zip(envs,memos):
                    g+=(tm.evalt([v],en,0,mm)[0],)
                    if g not in pref: break
                x=memo[v]=sigs.get(g,[])
            return x
        sh=Shadow(cand); 
        ks=e.alloc('priv',nb,1); out=e.alloc('out',nb,32); peer=e.alloc('peer',nb,32)
        for i in range(nb): e.wr_(ks.o,i,1,key[i]); e.wr_(peer.o,i,1,tm.var(f'u{i}',8))
        e.shadow=sh; fn=api.irfn(e,f'{tab}.{op}')
        if fn is None: raise exm.Unsupported('no such entry')
        if op=='keygen': e.call(fn,out,ks)
        else: e.call(fn,out,peer,ks)
        e.shadow=None; nobj=nbytes=nq=0; found={}
        ref={}
        for i in range(nb):
            ref[i,'raw']=key[i]; c=key[i]
            if tab=='X448': c=tm.and_(8,c,0xfc) if i==0 else tm.or_(8,c,0x80) if i==55 else c
            else: c=tm.and_(8,c,0xf8) if i==0 else tm.or_(8,tm.and_(8,c,0x7f),64) if i==31 else c
            ref[i,'clamped']=c
        sol=Solver(10000); dec={}; sup={}; kix={k:i for i,k in enumerate(key)}
        def support(v):
            for t in tm.topo([v],sup):
                z=frozenset((kix.get(t,-1),)) if t.op=='var' else frozenset().union(*[sup[x.id] for x in tm.kids(t)])
                sup[t.id]=z if len(z)<3 else frozenset((-1,-2,-3))
            return sup[v.id]
        for o in e.objs:
            if o.kind in('arg','global') or o.func is not None or o in(ks.o,out.o,peer.o): continue
            if o.name in ('priv','out','peer'): continue
            nobj+=1; stale=sh.stale.get(o,{})
            for i in range(o.size):
                nbytes+=1; v=byte(o,i); vs=[(t,1) for t in stale.get(i,())]
                if v is not None and not isinstance(v,int): vs.append((v,0))
                for t,st in vs:
                    z=support(t); one=[(j,w) for j in z for w in('raw','clamped')] if len(z)==1 and -1 not in z else []
                    for q in set(cand(t)+one):
                        kq=(t,q)
                        if kq not in dec:
                            d=tm.eq(8,t,ref[q])
                            if isinstance(d,int): dec[kq]=bool(d)
                            else:
                                nq+=1; dec[kq]=sol.valid([],d)[0]
                        if dec[kq] is None: r['undec']='solver gave no answer'
                        elif dec[kq]: found.setdefault(o.name,{}).setdefault(i,(q,st))
        for nm,d in found.items(): r['left'].append((nm,sorted((i,q[0],q[1],st) for i,(q,st) in d.items())))
        # the private key itself is not modified
        for i in range(nb):
            if e.rd_(ks.o,i,1) is not key[i]: r['undec']=f'private key byte {i} modified'
        r.update(nobj=nobj,nbytes=nbytes,nq=nq,compared=len(memo),fns=sorted(e.fnset),steps=e.steps,asm=e.inlineasm)
    except (exm.Unsupported,exm.Fault,KeyError) as x: r['undec']=f'{type(x).__name__}: {x}'
    r['stat']={k:v-st0.get(k,0) for k,v in solve.STAT.items()}
    return r
# ------------------------------------------------------------------ the real code on a stack of our own
DRV='''
#define _GNU_SOURCE
#include <pthread.h>
#include <string.h>
#include <stdint.h>
struct j{int(*f2)(void*,void*);int(*f3)(void*,void*,void*);void*a,*b,*c;};
static void*go(void*p){struct j*j=p; if(j->f3) j->f3(j->a,j->b,j->c); else j->f2(j->a,j->b); return 0;}
int vf_on_stack(void*f,int n,void*a,void*b,void*c,void*stk,size_t sz){ pthread_attr_t at; pthread_t t; struct j j={0,0,a,b,c};
 if(n==3) j.f3=(int(*)(void*,void*,void*))f; else j.f2=(int(*)(void*,void*))f;
 memset(stk,0x5c,sz); pthread_attr_init(&at); if(pthread_attr_setstack(&at,stk,sz)) return 1; if(pthread_create(&t,&at,go,&j)) return 2; pthread_join(t,0); pthread_attr_destroy(&at); return 0; }
'''
def scan(tab,op,flags=()):
    """stack positions that hold the same key byte after every one of 12 calls: [(position, byte index)]"""
    import mmap
    d=build.tmp(); c=os.path.join(d,'stk.c'); so=os.path.join(d,'stk.so'); open(c,'w').write(DRV)
    build.sh(['gcc','-O1','-w','-shared','-fPIC',c,'-o',so,'-lpthread'])
    D=ctypes.CDLL(so); N=nat.lib(flags=flags); g,o=api.where(f'{tab}.{op}'); f=N.slot(g,o); nb=SIZE[tab]; sz=1<<20
    mm=mmap.mmap(-1,sz); base=ctypes.addressof(ctypes.c_char.from_buffer(mm)); rng=random.Random(9); surv=None
    for _ in range(12):
        k=bytes(rng.randrange(256) for _ in range(nb)); ck=clamp(tab,k)
        K=build.Buf(nb,k,32); O=build.Buf(nb,None,32); U=build.Buf(nb,bytes(rng.randrange(1,255) for _ in range(nb)),32)
        a=(O.p,K.p,None) if op=='keygen' else (O.p,U.p,K.p)
        if D.vf_on_stack(ctypes.c_void_p(f),2 if op=='keygen' else 3,*a,ctypes.c_void_p(base),ctypes.c_size_t(sz)): return None
        st=mm[:]
        if surv is None:
            pos={}
            for i in range(nb): pos.setdefault(ck[i],[]).append(i); 
            surv={(p,i) for p in range(sz) if st[p]!=0x5c for i in pos.get(st[p],())}
        else: surv={(p,i) for p,i in surv if st[p]==ck[i]}
    return sorted(surv)
HOOK='''
#include <stdint.h>
#include <string.h>
void*vf_target; long vf_len; uint8_t vf_snap[1<<17];
__attribute__((no_instrument_function)) void __cyg_profile_func_enter(void*f,void*c){(void)f;(void)c;}
__attribute__((no_instrument_function)) void __cyg_profile_func_exit(void*f,void*c){ (void)c; if(f==vf_target){ uint8_t*lo=(uint8_t*)__builtin_frame_address(0)+16,*hi=*(uint8_t**)__builtin_frame_address(0); long n=hi-lo,i; if(n<0)n=0; if(n>(long)sizeof vf_snap) n=sizeof vf_snap; for(i=0;i<n;i++) vf_snap[i]=lo[i]; vf_len=n; } }
'''
def frame(tab,op,fn):
    """bytes of fn's own frame, at its last return, that hold the same key byte in every one of 12 calls"""
    N=nat.lib((fn,),extra=HOOK,flags=('-O0','-w','-finstrument-functions','-fno-omit-frame-pointer','-Wl,-Bsymbolic'),tag='ins'); a=N.addr(fn)
    if not a: return []
    g,o=api.where(f'{tab}.{op}'); f=build._Fn(N.slot(g,o),ctypes.c_int); nb=SIZE[tab]; rng=random.Random(9); surv=None
    ctypes.c_void_p.in_dll(N.lib,'vf_target').value=a; ln=ctypes.c_long.in_dll(N.lib,'vf_len')
    for _ in range(12):
        k=bytes(rng.randrange(256) for _ in range(nb)); ck=clamp(tab,k); ln.value=0
        K=build.Buf(nb,k,32); O=build.Buf(nb,None,32); U=build.Buf(nb,bytes(rng.randrange(1,255) for _ in range(nb)),32)
        f(*((O,K) if op=='keygen' else (O,U,K)))
        st=bytes((ctypes.c_uint8*(1<<17)).in_dll(N.lib,'vf_snap'))[:ln.value]
        if surv is None: surv={(p,i) for p in range(len(st)) for i in range(nb) if ck[i]==st[p] or k[i]==st[p]}
        surv={(p,i) for p,i in surv if p<len(st) and st[p] in(ck[i],k[i])}
    return sorted(surv)
def replay(tab,op,left):
    """leftover bytes the native build shows (restricted to the key bytes the symbolic run found left), and where"""
    want={i for nm,l in left for _,i,_,_ in l}; err=None
    for fl in ((),('-O2','-fno-inline'),('-O1',),('-O0',)):
        r=nat.forked(scan,tab,op,fl,timeout=120)
        if r[0]!='ok' or r[1] is None: err=r; continue
        h=[(p,i) for p,i in r[1] if i in want]
        if len({i for _,i in h})>=min(len(want),12): return h,'on the stack after the call'+(f' (gcc {" ".join(fl)})' if fl else '')
    for nm,l in left:
        fn=nm.split('.')[0]; r=nat.forked(frame,tab,op,fn,timeout=120); want={i for _,i,_,_ in l}
        if r[0]!='ok': err=r; continue
        h=[(p,i) for p,i in r[1] if i in want]
        if h: return h,f'in the frame of {fn} when it returns (gcc -O0)'
    return None,err
def run_C24(c):
    c.bounds+=['every private key and every peer value; all ladder steps and table scans of the six entry points; one call each',
               'locals and heap objects of every function in the call tree except the field kernels, whose operands never carry the key',
               'bytes equal to the raw or the clamped scalar; encodings of it (recoded digits, quotients) are not looked for','x86-64, as compiled by clang -O0 with removable stores treated as removed']
    c.assume+=['a store counts as not removable when it is volatile or when its bytes are read before the object dies']
    res=nat.parallel(job,FN,jobs=6,timeout=int(c.left()))
    for (tab,op),r in zip(FN,res):
        w=f'{tab}.{op}'
        if r[0]!='ok': c.undec(w,str(r)[:300]); continue
        r=r[1]; solve.STAT.update({k:solve.STAT.get(k,0)+v for k,v in r['stat'].items()})
        c.funcs|=set(r.get('fns',())); c.steps+=r.get('steps',0); c.asm+=r.get('asm',0)
        if r['undec']: c.undec(w,r['undec'])
        elif not r['left']: c.good(w,f"{r['nobj']} objects, {r['nbytes']} bytes, {r['compared']} distinct byte values screened, {r['nq']} solver comparisons")
        if r['left']:
            hit,where=replay(tab,op,r['left'])
            txt='; '.join(f'{nm}: {len(l)} byte(s), e.g. offset {l[0][0]} = {l[0][2]} key byte {l[0][1]}'+(' under a removable store' if l[0][3] else '') for nm,l in r['left'])
            if hit: c.violation(w+':'+r['left'][0][0],f'{w} returns with key bytes left in a local: {txt}; native: {len(set(i for _,i in hit))} of {SIZE[tab]} key bytes found {where}',
                                {'entry':w,'left':r['left'],'native':hit[:80],'where':where})
            else: c.undec(w,f'leftover not seen in the native build ({txt}) {where or ""}')
