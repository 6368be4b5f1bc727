"""C15: arithmetic modulo the two group orders, and multi-word multiply-accumulate.

The functions run symbolically with the whole operand as one wide variable; the integer domain turns their carry chains into
floors of integer polynomials, and linear integer queries show  output == input (mod order)  and  0 <= output < order.
word64_multiplier is first proved exact on its own, then used through that contract."""
import build,ex as exm,terms as tm,nat,wide,solve
from intdom import ID,padd,pconst,ZERO,TooBig
from solve import Solver
from ex import Ptr
L25=(1<<252)+0x14def9dea2f79cd65812631a5cf5d3ed
L448=(1<<446)-0x8335dc163bb124b65129c96fde933d8d723a70aadc873d6d54a7bb0d
NAMES=['modular_reduction_ed25519','modular_reduction_ed448','calculate_s_ed25519','calculate_s_ed448','div4','reduce64bits','word64_multiplier']
# name -> ([(argument,bytes,zero tail)], output (arg index, bytes), order, reference)
SPEC={
 'modular_reduction_ed25519':([('a',64,0)],(0,32),L25,lambda a:a,1),
 'modular_reduction_ed448':([('a',114,0)],(0,57),L448,lambda a:a,1),
 'calculate_s_ed25519':([('s',32,0),('r',32,0),('k',32,0),('a',32,0)],(0,32),L25,lambda s,r,k,a:r+k*a,1),
 'calculate_s_ed448':([('s',57,0),('r',56,1),('k',56,1),('a',56,1)],(0,57),L448,lambda s,r,k,a:r+k*a,1),
 'div4':([('o',57,0),('n',56,0)],(0,57),L448,lambda o,n:n,4),
 'reduce64bits':([('a',40,0)],(0,32),L25,lambda a:a,1),
}
PRE={'reduce64bits':'the low part is below 2^252 and the fifth word below 2^6'}
def setup(nm,e):
    args,(oi,on),q,ref,mu=SPEC[nm]; ps=[];vs=[]
    for n,nb,z in args:
        if nm=='reduce64bits':
            p=e.alloc(n,64,32); lo=tm.var('lo',252); hi=tm.var('hi',6)
            for i in range(8):
                e.wr_(p.o,8*i,8,tm.ext(lo,64*i,64,252) if i<3 else tm.concat([(tm.ext(lo,192,60,252),60),(0,4)]) if i==3 else tm.concat([(hi,6),(0,58)]) if i==4 else 0)
            ps.append(p); vs+=[lo,hi]; continue
        p,v=wide.bytes_in(e,n,nb,32,z); ps.append(p); vs.append(v)
    return ps,vs
def job(item):
    nm,hooked=item; mod=build.module(); st0=dict(solve.STAT); fns=set(); steps=asm=0; r=None
    try:
        if nm[0]=='mac': r,fns,steps,asm=job_mac(mod,nm[1],nm[2])
        else:
            args,(oi,on),q,ref,mu=SPEC[nm]
            e=exm.Ex(mod,hooks={'word64_multiplier':wide.h_mac} if hooked and 'word64_multiplier' in mod.funcs else {},solver=Solver(6000))
            ps,vs=setup(nm,e); e.call(nm,*ps); fns=e.fnset; steps=e.steps; asm=e.inlineasm
            I=ID()
            for v in vs: I.declare(v,0,tm.M(v.w))
            A=[I.rep(v)[0] for v in vs]
            if nm=='reduce64bits': src=padd(A[0],A[1],1<<252)
            elif len(A)==4: src=padd(A[1],I.pmul(A[2],A[3]))
            else: src=A[-1]
            outs=[e._int(e.rd_(ps[oi].o,8*i,8)) for i in range(on//8)]
            if on%8: outs.append(e._int(e.rd_(ps[oi].o,on//8*8,on%8)))
            r=wide.decide(I,outs,src,q,mu)
            if r[0] is True:
                for k,(n,nb,z) in enumerate(args):
                    if k!=oi:
                        for i in range(nb):
                            if e._int(e.rd_(ps[k].o,i,1)) is not tm.ext(vs[k],8*i,8,8*nb): r=(None,f'argument {n} modified')
    except (exm.Unsupported,exm.Fault,TooBig,KeyError) as x: r=(None,f'{type(x).__name__}: {x}')
    return {'r':r,'fns':sorted(fns),'steps':steps,'asm':asm,'stat':{k:v-st0.get(k,0) for k,v in solve.STAT.items()}}
def job_mac(mod,na,nb):
    n=na+nb+1; e=exm.Ex(mod,solver=Solver(6000))
    def arr(x,k):
        p=e.alloc(x,8*k,32); v=[tm.var(f'{x}{i}',64) for i in range(k)]
        for i,t in enumerate(v): e.wr_(p.o,8*i,8,t)
        return p,v
    C,c=arr('C',n); A,a=arr('A',na); B,b=arr('B',nb)
    e.call('word64_multiplier',C,A,na,B,nb)
    I=ID()
    for v in c+a+b: I.declare(v,0,tm.M(64))
    num=lambda v: wide.total(I,v)
    src=padd(num(c),I.pmul(num(a),num(b)))
    D=I.modp(padd(wide.total(I,wide.limbs(e,C,n)),src,-1),1<<64*n)
    if D.d: z=I.is_zero(D,1<<64*n); r=(True,None) if z is True else (None,f'not shown exact: {z}'[:300])
    else: r=(True,None)
    if r[0] and not(wide.limbs(e,A,na)==a and wide.limbs(e,B,nb)==b): r=(None,'operand modified')
    return r,e.fnset,e.steps,e.inlineasm
# ------------------------------------------------------------------ the real code
def run_native(nm,vals):
    """vals: integers per argument; returns a description of the failure or None"""
    N=nat.lib(NAMES); 
    if nm[0]=='mac':
        na,nb=nm[1:]; c,a,b=vals; n=na+nb+1
        C=build.Buf(8*n,c.to_bytes(8*n,'little'),32); A=build.Buf(8*na,a.to_bytes(8*na,'little'),32); B=build.Buf(8*nb,b.to_bytes(8*nb,'little'),32)
        build._Fn(N.addr('word64_multiplier'),None)(C,A,na,B,nb)
        g=int.from_bytes(C.get(),'little')
        if c+a*b<1<<(64*(na+nb)) and g!=c+a*b: return f'C+A*B gives {g:#x}, expected {c+a*b:#x}'
        if not C.guards_ok(): return 'wrote outside the accumulator'
        return None
    args,(oi,on),q,ref,mu=SPEC[nm]; bs=[]
    for (n,nb,z),v in zip(args,vals):
        if nm=='reduce64bits':
            bs.append(build.Buf(64,(v&tm.M(252)).to_bytes(32,'little')+(v>>252).to_bytes(8,'little')+bytes(24),32))
        else: bs.append(build.Buf(nb+z,v.to_bytes(nb+z,'little'),32))
    build._Fn(N.addr(nm),None)(*bs)
    g=int.from_bytes(bs[oi].get(0,on),'little'); w=ref(*vals)%q
    if mu!=1: w=w*pow(mu,-1,q)%q
    if g!=w: return f'gives {g:#x}, expected {w:#x}'
    if not all(b.guards_ok() for b in bs): return 'wrote outside its buffers'
    for k,(n,nb,z) in enumerate(args):
        if k!=oi and int.from_bytes(bs[k].get(),'little')!=vals[k]: return f'argument {n} modified'
    return None
def inputs(nm,rng,n):
    def big(bits):
        k=rng.randrange(6); top=1<<bits
        if k==0: return rng.randrange(top)
        if k==1: return top-1-rng.randrange(4)
        if k==2: return sum(rng.choice((0,0,1,M,M,M-1,1<<63))<<64*i for i in range((bits+63)//64))%top
        if k==3: return rng.choice((0,1,2,3))
        return None
    M=tm.M(64)
    for t in range(n):
        if nm[0]=='mac': yield [x if x is not None else rng.randrange(1<<b) for b in (64*(nm[1]+nm[2]),64*nm[1],64*nm[2]) for x in [big(b)]]; continue
        args,_,q,ref,mu=SPEC[nm]; v=[]
        for i,(nn,nb,z) in enumerate(args):
            bits=8*nb if nm!='reduce64bits' else 258
            x=big(bits)
            if x is None:
                m=rng.randrange(5); j=rng.choice((0,1,2,3,4,7,8,15,16,rng.randrange(1<<20),rng.randrange(max(1,(1<<bits)//q))))
                x=(q*j+rng.choice((-2,-1,0,1,2,5)) if m<2 else (rng.randrange(1<<max(1,bits-250))<<rng.choice((252,254,255,256,446,448,508)))+rng.randrange(40))%(1<<bits)
            v.append(x)
        if len(v)==4 and rng.random()<.6: # make the exact sum land near a multiple of the order
            v[2]=1; v[3]=rng.choice((0,1,2)); v[1]=(q*rng.choice((0,1,2))+rng.randrange(-2,3))%(1<<8*args[1][1])
        yield v
def search(nm,rng,n,first=()):
    for v in list(first)+list(inputs(nm,rng,n)):
        r=run_native(nm,v)
        if r: return {'function':str(nm),'arguments':[hex(x) for x in v],'observed':r}
    return None
def model_args(nm,m):
    if m is None: return []
    if nm=='reduce64bits': return [[m.get('lo',0)+(m.get('hi',0)<<252)]]
    return [[m.get(n,0) for n,nb,z in SPEC[nm][0]]]
def run_C15(c,fs=('25519','448')):
    mod=build.module(); nat.lib(NAMES); mine=[n for n in SPEC if (L25 if '25519' in fs else 0)==SPEC[n][2] or (L448 if '448' in fs else 0)==SPEC[n][2]]
    have=[n for n in mine if n in mod.funcs]
    for n in mine:
        if n not in mod.funcs and n!='reduce64bits': c.undec(n,'function not found')
    sizes=[(4,4),(4,8),(4,1),(4,2),(7,7),(1,1),(2,2),(1,4),(8,8)] if 'word64_multiplier' in mod.funcs else []
    if c.thorough: sizes=[(a,b) for a in range(1,9) for b in range(1,9)]
    macs=[('mac',a,b) for a,b in sizes]
    out=nat.parallel(job,[(m,False) for m in macs],8,timeout=max(60,c.left()-60)); exact=bool(macs)
    def take(nm,o,label,native=True):
        if o[0]!='ok': r=(None,str(o)[:200])
        else:
            d=o[1]; r=d['r']; c.funcs|=set(d['fns']); c.steps+=d['steps']; c.asm+=d['asm']; c.paths+=1
            for k,v in d['stat'].items(): solve.STAT[k]=solve.STAT.get(k,0)+v
        f=nat.forked(search,nm,c.rng,400 if r[0] is True else 60000,model_args(nm,r[1]) if r[0] is False else [],timeout=120)
        if f[0]=='ok' and f[1] is None: c.validated+=400
        if f[0]=='ok' and f[1]: c.violation(f'{nm if isinstance(nm,str) else nm[0]}',f'{label}: {f[1]["observed"]}'[:300],f[1])
        elif f[0]=='crash': c.violation(f'{nm if isinstance(nm,str) else nm[0]}',f'{label}: crashes (signal {f[1]})',{'function':str(nm)})
        elif r[0] is True: c.good(label)
        else: c.undec(label,r[1] if r[0] is None else f'solver counterexample not reproduced {r[1]}')
        return r[0] is True
    for m,o in zip(macs,out): exact&=take(m,o,f'word64_multiplier {m[1]}x{m[2]} words')
    out=nat.parallel(job,[(n,exact) for n in have],8,timeout=max(60,c.left()-60))
    for n,o in zip(have,out): take(n,o,n+(f' ({PRE[n]})' if n in PRE else ''))
    c.bounds=['every 64-byte (114-byte) value, every r, k, a of 32 (56) bytes, every 56-byte number for the division by four; multiply-accumulate for the listed word counts, all contents']
    c.assume=['product monomials are unconstrained within their ranges (over-approximation)']
