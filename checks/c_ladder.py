"""C08/C09: X25519 and X448 are the RFC 7748 functions."""
import random,time,ctypes
import build,ex as exm,terms as tm,api,nat,kern,solve,fe
from terms import M
from ex import Ptr
from solve import Solver
P25,P448=fe.P25519,fe.P448
CFG={'X25519':dict(f='25519',bits=255,nb=32,a24=121665,top=255,ub=255),'X448':dict(f='448',bits=448,nb=56,a24=39081,top=448,ub=448)}
CFG['X25519_x64']=CFG['X25519']
# ------------------------------------------------------------------ RFC 7748, on integers
def clamp(tab,k):
    k=bytearray(k)
    if tab=='X448': k[0]&=252; k[55]|=128
    else: k[0]&=248; k[31]&=127; k[31]|=64
    return bytes(k)
def rfc(tab,k,u):
    c=CFG[tab]; p=fe.PR[c['f']]; k=int.from_bytes(clamp(tab,k),'little'); u=int.from_bytes(u,'little')&((1<<c['ub'])-1)
    x1=u%p; x2,z2,x3,z3=1,0,x1,1; sw=0
    for t in range(c['bits']-1,-1,-1):
        kt=k>>t&1; sw^=kt
        if sw: x2,x3,z2,z3=x3,x2,z3,z2
        sw=kt; A=x2+z2; B=x2-z2; AA=A*A; BB=B*B; E=AA-BB; C=x3+z3; D=x3-z3; DA=D*A; CB=C*B
        x3=(DA+CB)**2%p; z3=x1*(DA-CB)**2%p; x2=AA*BB%p; z2=E*(AA+c['a24']*E)%p
    if sw: x2,x3,z2,z3=x3,x2,z3,z2
    return (x2*pow(z2,p-2,p)%p).to_bytes(c['nb'],'little')
# ------------------------------------------------------------------ RFC 7748, symbolically
def reference(F,tab,U,bit,start=False):
    """names every intermediate state; returns (X2,Z2) after the last step.  bit(t): semantic value of clamped key bit t"""
    S=F.S; c=CFG[tab]; one=S.const(1); x2,z2,x3,z3=U if start else one,S.const(0),U,one; sw=S.const(0)
    xor=lambda a,b:S.add(S.add(a,b),S.mul(a,b),-2)
    for t in range(c['bits']-1,-1,-1):
        kt=bit(t); w=xor(sw,kt); sw=kt
        x2,x3=S.ite(w,x3,x2),S.ite(w,x2,x3); z2,z3=S.ite(w,z3,z2),S.ite(w,z2,z3)
        A=S.add(x2,z2);B=S.add(x2,z2,-1);AA=S.mul(A,A);BB=S.mul(B,B);E=S.add(AA,BB,-1);C=S.add(x3,z3);D=S.add(x3,z3,-1);DA=S.mul(D,A);CB=S.mul(C,B)
        s=S.add(DA,CB); d=S.add(DA,CB,-1)
        # the first step leaves small polynomials in u that occur as intermediate values too: names start with the second
        D_=S.define if t<c['bits']-1 else (lambda n,P:P)
        x3=D_(f'X3_{t}',S.mul(s,s)); z3=D_(f'Z3_{t}',S.mul(U,S.mul(d,d)))
        x2=D_(f'X2_{t}',S.mul(AA,BB)); z2=D_(f'Z2_{t}',S.mul(E,S.add(AA,S.scale(E,c['a24']))))
    return S.ite(sw,x3,x2),S.ite(sw,z3,z2)
def job1(item,start):
    tab,op,verbose=item; c=CFG[tab]; f=c['f']; nb=c['nb']; mod=build.module(); st0=dict(solve.STAT); r={'ok':False,'why':None}
    pv=fe.Prover(mod,log=(lambda *a:print(*a,flush=True)) if verbose else None); e=None; F=None; t0=time.time()
    try:
        S=fe.Sem(fe.PR[f]); F=fe.FE(mod,f,S,pv); e=exm.Ex(mod,hooks=F.hooks(),solver=Solver(5000)); e.max_steps=500_000_000
        kb=[tm.var(f'k{i}',1) for i in range(8*nb)]; priv=e.alloc('priv',nb,1); out=e.alloc('out',nb,1); peer=e.alloc('peer',nb,1)
        for i in range(nb): e.wr_(priv.o,i,1,tm.concat([(b,1) for b in kb[8*i:8*i+8]]))
        n=nb//8; us=[tm.var(f'u{i}',64) for i in range(n)]; lo=us[:]
        if c['ub']%64: lo[-1]=tm.var('ulast',c['ub']%64); us[-1]=tm.concat([(lo[-1],c['ub']%64),(tm.var('utop',64-c['ub']%64),64-c['ub']%64)])
        for i in range(n): e.wr_(peer.o,8*i,8,us[i])
        U=S.var('u'); P=F.newval(U)
        for i in range(1,n): P=fe.padd(P,F.I.declare(lo[i],0,M(lo[i].w)) and F.I.memo[lo[i]][0],-(1<<64*i))
        F.I.memo[lo[0]]=F.I.memo['e',lo[0]]=(P,0,M(64))
        bm={}
        def bit(t):
            if t<(2 if tab=='X448' else 3): return S.const(0)
            if t==c['bits']-1: return S.const(1)
            if t not in bm: F.I.declare(kb[t],0,1); bm[t]=F.lift(F.I.exact(kb[t])[0])
            return bm[t]
        X,Z=reference(F,tab,U,bit,start); want=F.words(S.canon(S.mul(X,S.inv(Z))))
        r['ref']=time.time()-t0
        fn=api.irfn(e,f'{tab}.{op}')
        if fn is None: raise exm.Unsupported('no such entry')
        e.call(fn,out,peer,priv)
        got=[e._int(e.rd_(out.o,8*i,8)) for i in range(n)]
        bad=[i for i in range(n) if got[i] is not want[i]]
        if bad: r['why']=f'result is the encoding of another value: '+next((S.show(k if isinstance(k,dict) else dict(k)) for k,w in F.sers.items() if w==got),'?')[:200]
        elif any(e.rd_(peer.o,8*i,8) is not us[i] for i in range(n)) or any(e.rd_(priv.o,i,1) is not tm.concat([(b,1) for b in kb[8*i:8*i+8]]) for i in range(nb)): r['why']='a caller buffer is modified'
        else: r['ok']=True
    except (exm.Unsupported,exm.Fault,fe.TooBig,KeyError,AttributeError) as x: r['why']=f'{type(x).__name__}: {x}'
    r.update(fns=sorted(pv.fns|(e.fnset if e else set())),steps=pv.steps+(e.steps if e else 0),asm=pv.asm+(e.inlineasm if e else 0),kernels=pv.n,calls=F.calls if F else 0,sec=time.time()-t0,failed=[(a,w) for a,_,_,w in pv.failed])
    r['stat']={k:v-st0.get(k,0) for k,v in solve.STAT.items()}
    return r
def job(item):
    t=None
    for start in ((True,False) if 'x64' not in item[0] else (False,True)):
        r=job1(item,start); r['start']='u' if start else '1'
        if t:
            r['steps']+=t['steps']; r['kernels']+=t['kernels']; r['sec']+=t['sec']
            for k in t['stat']: r['stat'][k]=r['stat'].get(k,0)+t['stat'][k]
        if r['ok']: return r
        if t: r['why']=f"{r['why']} | started from ({t['start']}:0): {t['why']}"
        t=r
    return t
def projective(tab):
    """a ladder started from (u:0) ends in the same u-coordinate as one started from (1:0)"""
    c=CFG[tab]; p=fe.PR[c['f']]; S=fe.Sem(p); n=['x2','z2','x3','z3','u','a','b']; v={k:S.var(k) for k in n}; m=S.mul
    def step(x2,z2,x3,z3,u,sw):
        if sw: x2,x3,z2,z3=x3,x2,z3,z2
        A=S.add(x2,z2);B=S.add(x2,z2,-1);AA=m(A,A);BB=m(B,B);E=S.add(AA,BB,-1);C=S.add(x3,z3);D=S.add(x3,z3,-1);DA=m(D,A);CB=m(C,B);s=S.add(DA,CB);d=S.add(DA,CB,-1)
        return m(AA,BB),m(E,S.add(AA,S.scale(E,c['a24']))),m(s,s),m(u,m(d,d))
    bad=[]
    for sw in(0,1):
        r=step(v['x2'],v['z2'],v['x3'],v['z3'],v['u'],sw); q=step(m(v['a'],v['x2']),m(v['a'],v['z2']),m(v['b'],v['x3']),m(v['b'],v['z3']),v['u'],sw)
        l=v['b'] if sw else v['a']; l=m(m(l,l),m(l,l)); k=m(v['a'],v['b']); k=m(k,k)
        bad+=[(sw,i) for i in range(4) if m(r[i],l if i<2 else k)!=q[i]]
    z={}
    if step(S.const(1),z,z,S.const(1),z,1)!=step(z,z,z,S.const(1),z,1): bad.append('u=0')
    return bad
# ------------------------------------------------------------------ the native build
SPECIAL={'25519':[0,1,2,9,P25-1,P25,P25+1,P25+9,2*P25-1,2*P25,2*P25+1,2**255-1,2**255,2**256-1,2**255+9,325606250916557431795983626356110631294008115727848805560023387167927233504,39382357235489614581723060781553021112529911719440698176882885853963445705823,2**128,2**64-1],
 '448':[0,1,2,5,P448-1,P448,P448+1,P448+5,2**448-1,2**448-2,2**224,2**224-1,2**64-1,2**447]}
def points(tab,rng,n):
    c=CFG[tab]; nb=c['nb']; top=1<<8*nb
    K=[0,top-1,1,top>>1,int('aa'*nb,16),int('55'*nb,16)]+[rng.randrange(top) for _ in range(3)]
    for u in SPECIAL[c['f']]:
        for k in K: yield k.to_bytes(nb,'little'),(u%top).to_bytes(nb,'little')
    for i in range(n): yield rng.randbytes(nb),(rng.randbytes(nb) if i%3 else ((fe.PR[c['f']]+rng.randrange(-2**9,2**9))%top).to_bytes(nb,'little'))
def native(tab,op):
    N=nat.lib(); g,o=api.where(f'{tab}.{op}'); return build._Fn(N.slot(g,o),ctypes.c_int)
def search(tab,op,seed,n,limit):
    f=native(tab,op); c=CFG[tab]; nb=c['nb']; rng=random.Random(seed); t0=time.time(); done=0
    base=((9 if c['f']=='25519' else 5).to_bytes(nb,'little'))
    for k,u in points(tab,rng,n):
        if time.time()-t0>limit: break
        o=build.Buf(nb); K=build.Buf(nb,k); U=build.Buf(nb,u)
        if op=='shared': f(o,U,K); w=rfc(tab,k,u)
        else: f(o,K); w=rfc(tab,k,base)
        a={'entry':f'{tab}.{op}','private':k.hex(),'peer':u.hex() if op=='shared' else None,'returned':o.get().hex(),'RFC 7748':w.hex()}
        if o.get()!=w: return a,done
        if K.get()!=k or U.get()!=u: a['what']='a caller buffer was modified'; return a,done
        if not(o.guards_ok() and K.guards_ok() and U.guards_ok()): a['what']='memory next to a buffer was modified'; return a,done
        done+=1
    return None,done
def merge(c,r):
    c.funcs|=set(r.get('fns',())); c.steps+=r.get('steps',0); c.asm+=r.get('asm',0); c.paths+=1
    for k,v in r.get('stat',{}).items(): solve.STAT[k]=solve.STAT.get(k,0)+v
def run(c,tabs,pid):
    build.module(); nat.lib(); api.offsets()
    for t in tabs[:1]:
        b=projective(t)
        if not b: c.good('starting the ladder from (u:0) instead of (1:0) scales every later state, for every u, state and key bit')
    items=[(t,'shared',False) for t in tabs]
    out=nat.parallel(job,items,8,timeout=max(60,c.left()-120))
    for (t,op,_),o in zip(items,out):
        r=o[1] if o[0]=='ok' else {'ok':False,'why':str(o)[:300]}
        merge(c,r); label=f'{t}.{op} = RFC 7748 for every scalar and every u-coordinate'
        n=nat.forked(search,t,op,c.rng.random(),300 if r['ok'] else 6000,25 if r['ok'] else 150,timeout=240)
        if n[0]=='ok' and n[1][0]: c.violation(f'{t}.{op}',f"{t}.{op}: {n[1][0].get('what','another u-coordinate than RFC 7748 prescribes')}",n[1][0]); continue
        if n[0]=='crash': c.violation(f'{t}.{op}',f'{t}.{op} crashes (signal {n[1]})',{'entry':f'{t}.{op}'}); continue
        if n[0]=='ok': c.validated+=n[1][1]
        if r['ok']: c.good(label,f"{CFG[t]['bits']} ladder steps, {r.get('calls',0)} field-kernel calls, {r['kernels']} kernels proved over their actual digit ranges, {r['sec']:.1f} s; initial state ({r['start']}:0)")
        else: c.undec(label,f"{r['why']} {r.get('failed','')}")
    keygen(c,tabs)
    c.bounds=['every private key, every peer u-coordinate (all 256, respectively 448 bits); complete ladders, no unrolling limit']
    c.assume=['the inversion kernel is x^(p-2) (proved in the same run on power products)','ladder states are compared as polynomials over GF(p) in the previous state, equal polynomials give equal values']
def keygen(c,tabs): pass
def run_C08(c): run(c,['X25519','X25519_x64'],'C08')
def run_C09(c): run(c,['X448'],'C09')
if __name__=='__main__':
    import sys
    r=job((sys.argv[1],'shared',True)); r['fns']=len(r['fns']); print(r)
