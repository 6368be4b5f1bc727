"""C21/C22: symbolic execution of whole entry points with field kernels (and hashes) replaced by arbitrary results that carry the taint of what was read.
C21: every branch condition and address whose formula mentions a secret is given to the solver twice, with two different secrets and equal public data.
C22: every access is checked against its object, reads of uninitialised bytes are followed to branches and outputs, alignment and leaks are recorded."""
import os,random,time,ctypes
import build,ex as exm,terms as tm,api,nat,kern,solve,pt,fe
from fields import REPS
from ex import Ptr,Unsupported,Fault
from solve import Solver
from c_edw import ERR,merge
import c_eddsa
TAG={}
_memo={}
def tags(t):
    """letters of the variables a term mentions: s secret, u uninitialised"""
    if isinstance(t,int): return ''
    if isinstance(t,Ptr): return tags(t.off)
    if isinstance(t,tuple): return ''.join(sorted(set(''.join(map(tags,t)))))
    for x in tm.topo([t],_memo):
        if x.op=='var': _memo[x.id]=TAG.get(x) if x in TAG else 'u' if x.args[0].startswith('undef') else ''
        else:
            z=''
            for y in tm.kids(x):
                if not isinstance(y,int): 
                    for c in _memo[y.id]:
                        if c not in z: z+=c
            _memo[x.id]=z
    return _memo[t.id]
_n=[0]
def newvar(w,tg):
    _n[0]+=1; v=tm.var(f'!{_n[0]}',w)
    if tg: TAG[v]=tg
    return v
def rdtags(e,p,offs,k=8):
    z=set()
    for o in offs: z|=set(tags(e.rd(e.padd(p,o),k)))
    return ''.join(sorted(z))
def digs(f,rn): return [o for l in REPS[f,rn].digs for o,_ in l]
def kernel_hooks(mod,fields=('25519','448')):
    e=exm.Ex(mod); hk={}
    def mk(ins,outs,aligns):
        def h(e,*a):
            tg=set()
            for i,offs,k in ins: tg|=set(rdtags(e,a[i],offs,k))
            for i,al in aligns:
                p=a[i]
                if isinstance(p,Ptr) and isinstance(p.off,int) and (p.o.base+p.off)%al: e.out.append(('misaligned','kernel operand',al,p.o.name,p.off,e.stack[-1] if e.stack else ''))
            t=''.join(sorted(tg))
            for i,offs,k in outs:
                for o in offs: e.wr(e.padd(a[i],o),k,newvar(8*k,t))
            return None
        return h
    names={}
    for slot,k in kern.K.items():
        f=api.irfn(e,slot)
        if f and f not in hk:
            pre=len(k.pre)
            hk[f]=mk([(pre+i,digs(k.field,rn),8) for i,(nm,rn,md) in enumerate(k.ops) if md in 'ix'],[(pre+i,digs(k.field,rn),8) for i,(nm,rn,md) in enumerate(k.ops) if md in 'ox'],[(pre+i,32 if REPS[k.field,rn].lanes>1 or not REPS[k.field,rn].full else 8) for i,(nm,rn,md) in enumerate(k.ops)])
            names[f]=slot
    for f in ('25519','448'):
        for r,pre in (('1f','_1w_full'),('1r','_1w_red')):
            for slot in (f'Fp{f}.{pre}.arith.inv',):
                fn=api.irfn(e,slot)
                if fn and fn not in hk: hk[fn]=mk([(1,digs(f,r),8)],[(0,digs(f,r),8)],[]); names[fn]=slot
    return hk,names
class Flow:
    """one execution: records suspicious branches and addresses"""
    def __init__(s,e,sv,ct): s.e=e; s.sv=sv; s.ct=ct; s.br=0; s.ad=0; s.q=0; s.leak=[]; s.uninit=[]; e.on_branch=s.branch; e.on_addr=s.addr; s.done=set()
    def where(s): return s.e.stack[-1] if s.e.stack else '?'
    def check(s,c,w,what):
        t=tags(c)
        if not t: return
        k=(c,what)
        if k in s.done: return
        s.done.add(k)
        if 'u' in t and s.differs(c,w,'u'): s.uninit.append((s.where(),what))
        if s.ct and 's' in t and s.differs(c,w,'s'): s.leak.append((s.where(),what))
    def differs(s,c,w,letter):
        """two values of the variables carrying the letter, everything else equal: can the two terms differ?"""
        vs=[x for x in tm.topo([c]+[p for p in s.e.pc if not isinstance(p,int)]) if x.op=='var' and letter in tags(x)]
        env={x:tm.var(x.args[0]+"'",x.w) for x in vs}; pc=[p for p in s.e.pc if not isinstance(p,int)]
        r=tm.subst([c]+pc,env); s.q+=1
        ok=s.sv.sat(pc+list(r[1:])+[tm.not_(1,tm.eq(w,c,r[0]))])
        return ok!='unsat'
    def branch(s,c,what,e):
        s.br+=1
        if not isinstance(c,int): s.check(c,getattr(c,'w',1),what)
    def addr(s,off,what,e):
        s.ad+=1
        if not isinstance(off,int): s.check(off,64,'address of a '+what)
def hash_hooks(f):
    st={}
    def tg(e,p,n):
        z=set()
        for i in range(n): z|=set(tags(e.rd(e.padd(p,i),1)))
        return z
    def init(e,c,*a): e.wr(c,8,0); st[c.o,c.off]=set(); return 0
    def upd(bits):
        def g(e,c,p,n):
            if not isinstance(n,int): raise Unsupported('hash length')
            st[c.o,c.off]|=tg(e,p,n//8 if bits else n) if n else set(); return 0
        return g
    def fin(e,c,o,*n):
        n=n[0] if n else 64; t=''.join(sorted(st[c.o,c.off]))
        for i in range(n): e.wr(e.padd(o,i),1,newvar(8,t))
        return 0
    def shake(e,p,n,o,m):
        t=''.join(sorted(tg(e,p,n//8)))
        for i in range(m): e.wr(e.padd(o,i),1,newvar(8,t))
        return 0
    def fin384(e,c,o): return fin(e,c,o,48)
    return {'sph_sha512_init':init,'sph_sha384_init':init,'sph_sha384':upd(0),'sph_sha512_close':fin,'sph_sha384_close':fin384} if f=='25519' else {'Init':init,'Update':upd(1),'Final2':fin,'SHAKE256':shake}
DH={'X25519':32,'X25519_x64':32,'X448':56}
SHA={'sha512':('sph_sha384_init','sph_sha384','sph_sha512_close','sph_sha512_addbits_and_close'),'sha384':('sph_sha384_init','sph_sha384','sph_sha384_close','sph_sha384_addbits_and_close')}
def units(ct=False,thorough=False):
    """(unit, lengths)"""
    for t in DH:
        yield ('dh',t,'keygen'),None; yield ('dh',t,'shared'),None
    for f,v in c_eddsa.VAR:
        for op in ('keygen','sign') if ct else ('keygen','sign','verify'):
            for l in [(0,0)] if op=='keygen' else [(5,3)] if ct else [(5,3),(0,255),(300,0)]:
                yield ('sig',f,v,op),l
    for slot in kern.K: yield ('kern',slot),None
    for f in ('25519','448'):
        for rn,pre in (('1f','_1w_full'),('1r','_1w_red')): yield ('inv',f,rn,f'Fp{f}.{pre}.arith.inv'),None
    if ct:
        yield ('perm','sha'),None; yield ('perm','keccak'),None; yield ('perm','two'),None
    for n in (0,1,57,111,112,127,128,129,300,513) if not thorough else range(0,300):
        yield ('sha512',n),None; yield ('sha384',n),None
    for n in (0,1,16,31,32,111,112,127,128,129,300) if not thorough else range(0,300): yield ('two',n),None
    yield ('two','256b'),None
    for hb,r in ((224,144),(256,136),(384,104),(512,72)):
        for n in (0,1,r-1,r,r+1,2*r+3): yield ('sha3',hb,n),None
    for b,r in ((128,168),(256,136)):
        for n,m in ((0,32),(1,1),(r-1,r),(r,r+1),(2*r+1,2*r),(5,114),(57,0)):
            yield ('shake',b,n,m),None; yield ('xof',b,n,m),None
    if not ct:
        for f in ('25519','448'):
            yield ('dsm',f),None; yield ('dec',f),None
        for l in (0,5,200): yield ('h2c','h2c25519_x64',l),None; yield ('h2c','h2c25519_avx2',l),None
        for x in ('isOnCurve','areEqual'): yield ('pred',x),None
        yield ('perm','sha'),None; yield ('perm','keccak'),None; yield ('perm','two'),None
        for g,p in sorted(api.offsets()):
            m=p.rsplit('.',1)[-1]
            if m=='alloc' or m in('allocKey','allocSignature'):
                if g=='Fp':
                    for fn in ('25519','448'): yield ('alloc',f'Fp{fn}.{p}'),None
                elif g=='X':
                    for t in DH: yield ('alloc',f'{t}.{p}'),None
                else: yield ('alloc',f'{g}.{p}'),None
def buf(e,n,k,tg,al=1,ro=False):
    p=e.alloc(n,k,al); p.o.base+=al if al<32 else 0      # no more alignment than promised
    for i in range(k):
        v=tm.var(f'{n}{i}',8); 
        if tg: TAG[v]=tg
        e.wr_(p.o,i,1,v)
    p.o.ro=ro; return p
def outbuf(e,n,k,al=1):
    p=e.alloc(n,k,al); p.o.base+=al if al<32 else 0
    return p
def perm_hooks(mod):
    """compression functions as arbitrary results carrying the tags of what they read"""
    import c_hash
    def mk(ins,out):
        def h(e,*a):
            z=set()
            for i,n in ins:
                for j in range(n): z|=set(tags(e.rd(e.padd(a[i],8*j),8)))
            i,n=out; t=''.join(sorted(z))
            for j in range(n): e.wr(e.padd(a[i],8*j),8,newvar(64,t))
        return h
    hk={}
    if c_hash.sha_round_name(mod): hk[c_hash.sha_round_name(mod)]=mk([(0,16),(1,8)],(1,8))
    if c_hash.kname(mod): hk[c_hash.kname(mod)]=mk([(0,25)],(0,25))
    if 'sha512_permutation' in mod.funcs: hk['sha512_permutation']=mk([(0,16),(1,32)],(0,16))
    return hk
def need(mod,n):
    if n not in mod.funcs: raise Unsupported(n+' not found')
    return n
def calls(e,mod,u,lens,ct,sv,outs):
    """[(function, arguments)] of the unit; outs: objects whose bytes are results"""
    k=u[0]; S='s' if ct else ''; kh=lambda: kernel_hooks(mod)[0]
    def out(n,k,al=1): o=outbuf(e,n,k,al); outs.append((o,k)); return o
    if k=='prng':
        def rd(x,fd,p,ln):
            if x.truth(tm.eq(1,tm.var('short',1),1)) and isinstance(ln,int) and ln>3: ln=3
            for i in range(ln): x.wr(x.padd(p,i),1,newvar(8,''))
            return ln
        e.hooks.update({'open':lambda x,*a:5,'open64':lambda x,*a:5,'read':rd,'getrandom':lambda x,p,ln,fl:rd(x,0,p,ln),'close':lambda x,*a:0,'__errno_location':lambda x:x.alloc('errno',4,4)})
        return [(need(mod,'prgn_random_bytes'),(out('buf',40),40))]
    if k=='rand':
        def fill(x,p,n):
            for i in range(n): x.wr(x.padd(p,i),1,newvar(8,''))
        e.hooks['prgn_random_bytes']=fill
        fn=api.irfn(e,u[1]+'.'+u[2]); al=32 if u[1].startswith('Fp') else 1
        return [(fn,(outbuf(e,'out',512,al),))]
    if k=='dh':
        e.hooks.update(kh()); nb=DH[u[1]]; K=buf(e,'priv',nb,'s',ro=True); fn=api.irfn(e,f'{u[1]}.{u[2]}')
        return [(fn,(out('out',nb),K) if u[2]=='keygen' else (out('out',nb),buf(e,'peer',nb,'',ro=True),K))]
    if k=='sig':
        _,f,v,op=u; cf=c_eddsa.CFG[f]; nb=cf.nb; hasctx=c_eddsa.VAR[f,v][0]
        e.hooks.update(kh()); e.hooks.update(hash_hooks(f)); real=cf.enc
        def enc(e_,o,P,real=real): # what is encoded is published: the public key, and R
            for c,l in pt.layout('2w',f).items():
                if c!='T':
                    for off,rn,la in l[:1]: rdtags(e_,P,[off+x for x,_ in REPS[f,rn].digs[la]])
            for i in range(nb): e_.wr(e_.padd(o,i),1,newvar(8,''))
        if ct: e.hooks[need(mod,real)]=enc
        if op=='verify': e.hooks.update(verify_hooks(mod,f))
        priv=buf(e,'priv',nb,'s',ro=True); m,c=lens; msg=buf(e,'msg',max(m,1),'',ro=True); ctx=buf(e,'ctx',max(c,1),'',ro=True); ca=[ctx,c] if hasctx else []; msg.o.size=m; ctx.o.size=c
        fn=api.irfn(e,f'{cf.api}.{v}.{op}')
        if op=='keygen': return [(fn,(out('pub',nb),priv))]
        if op=='sign': return [(fn,(out('sig',2*nb),msg,m,*ca,buf(e,'pub',nb,'',ro=True),priv))]
        return [(fn,(msg,m,*ca,buf(e,'pub',nb,'',ro=True),buf(e,'sig',2*nb,'',ro=True)))]
    if k=='kern':
        kk=kern.K[u[1]]; fn=api.irfn(e,u[1]); a=list(kk.pre)
        if fn is None: raise Unsupported('table slot is empty')
        for n,rn,md in kk.ops:
            r=REPS[kk.field,rn]; p=outbuf(e,n,r.size,32)
            if md in 'ix':
                for i,o in enumerate(digs(kk.field,rn)):
                    v=tm.var(f'{n}{i}',64)
                    if S: TAG[v]=S
                    e.wr(e.padd(p,o),8,v)
            if md in 'ox': outs.append((p,(digs(kk.field,rn))))
            a.append(p)
        return [(fn,a)]
    if k in('sha512','sha384'):
        import c_hash
        e.hooks.update(perm_hooks(mod)); n=u[1]; ctx=e.alloc('ctx',c_hash.layout()[0][3],8); I,U,C,B=SHA[k]; nd=64 if k=='sha512' else 48
        if k=='sha512': I='sph_sha512_init' if 'sph_sha512_init' in mod.funcs else I
        d=buf(e,'data',max(n,1),S,ro=True); d.o.size=n; h=n//3
        return [(need(mod,I),(ctx,)),(need(mod,U),(ctx,d,h)),(U,(ctx,Ptr(d.o,h),n-h)),(need(mod,C),(ctx,out('digest',nd)))]
    if k=='two':
        e.hooks.update(perm_hooks(mod)); n=u[1]; m=32 if n=='256b' else n; mp=e.alloc('msgs',16,8); dp=e.alloc('digs',16,8)
        for l in (0,1):
            d=buf(e,f'm{l}',max(m,1),S,ro=True); d.o.size=m; e.wr(e.padd(mp,8*l),8,d); e.wr(e.padd(dp,8*l),8,out(f'd{l}',64))
        return [(need(mod,'sha512_2w_avx_256b'),(mp,dp)) if n=='256b' else (need(mod,'sha512_2w_avx'),(mp,m,dp))]
    if k in('sha3','shake','xof'):
        import c_hash
        e.hooks.update(perm_hooks(mod)); hb=u[1]; n=u[2]; d=buf(e,'data',max(n,1),S,ro=True); d.o.size=n; st=e.alloc('state',c_hash.layout()[1][4],32); h=n//3
        if k=='sha3': return [('Init',(st,hb)),('Update',(st,d,8*h)),('Update',(st,Ptr(d.o,h),8*(n-h))),('Final',(st,out('digest',hb//8))),('Hash',(hb,d,8*n,out('digest2',hb//8)))]
        if k=='xof': return [('Init',(st,hb)),('Update',(st,d,8*h)),('Update',(st,Ptr(d.o,h),8*(n-h))),('Final2',(st,out('digest',u[3]),u[3])),('Hash2',(hb,d,8*n,out('digest2',u[3]),u[3]))]
        return [(f'SHAKE{hb}',(d,8*n,out('digest',u[3]),u[3]))]
    if k=='perm':
        import c_hash
        fn={'sha':c_hash.sha_round_name(mod),'keccak':c_hash.kname(mod),'two':'sha512_permutation' if 'sha512_permutation' in mod.funcs else None}[u[1]]
        if fn is None: raise Unsupported('compression function not found')
        def arr(n,w,al):
            p=outbuf(e,n,8*w,al)
            for i in range(w):
                v=tm.var(f'{n}{i}',64); 
                if S: TAG[v]=S
                e.wr(e.padd(p,8*i),8,v)
            outs.append((p,[8*i for i in range(w)])); return p
        if u[1]=='sha': return [(fn,(arr('blk',16,8),arr('st',8,8)))]
        if u[1]=='keccak': return [(fn,(arr('st',25,32),))]
        b=outbuf(e,'blk',16*80,32); s0=arr('st',16,32)
        for i in range(32): e.wr(e.padd(b,8*i),8,tm.var(f'b{i}',64))
        return [(fn,(s0,b))]
    if k=='dsm':
        import c_dsm
        f=u[1]; cf=c_dsm.CFG[f]; e.hooks.update(kh()); e.hooks.update(wnaf_hook(mod,f)); A=outbuf(e,'A',pt.size('4w',f),32)
        for c,l in pt.layout('4w',f).items():
            for off,rn,la in l[:1]:
                for j,(x,_) in enumerate(REPS[f,rn].digs[la]): e.wr(e.padd(A,off+x),8,tm.var(f'{c}{j}',64))
        return [(need(mod,cf.fn),(out('Q',cf.nb,32),buf(e,'S',cf.nb,'',ro=True),buf(e,'h',cf.nb,'',32),A))]
    if k=='dec':
        f=u[1]; e.hooks.update(kh()); from c_edw import DEC
        P=outbuf(e,'P',pt.size('4w',f),32)
        return [(need(mod,DEC[f][0]),(P,0,buf(e,'pub',c_eddsa.CFG[f].nb,'',ro=True)))]
    if k=='inv':
        _,f,rn,slot=u; fn=api.irfn(e,slot)
        if fn is None: raise Unsupported('table slot is empty')
        h=kh(); h.pop(fn,None); e.hooks.update(h); n=REPS[f,rn].size; p=outbuf(e,'a',n,32); c=outbuf(e,'c',n,32)
        for i,o in enumerate(digs(f,rn)):
            v=tm.var(f'a{i}',64)
            if S: TAG[v]=S
            e.wr(e.padd(p,o),8,v)
        outs.append((c,digs(f,rn))); return [(fn,(c,p))]
    if k=='h2c':
        e.hooks.update(kh()); e.hooks.update(hash_hooks('25519')); e.hooks.update(h2c_hooks(mod)); m=u[2]; msg=buf(e,'msg',max(m,1),'',ro=True); msg.o.size=m
        return [(need(mod,u[1]),(out('P',64,32),msg,m))]
    if k=='pred':
        e.hooks.update(kh()); ps=[buf(e,n,64,'',32) for n in 'PQ'[:1 if u[1]=='isOnCurve' else 2]]
        return [(need(mod,u[1]),tuple(ps))]
    if k=='alloc':
        fn=api.irfn(e,u[1])
        if fn is None: raise Unsupported('table slot is empty')
        return [(fn,())]
    raise Unsupported(str(u))
def alloc_size(slot):
    g,p=slot.split('.',1); m=p.rsplit('.',1)[-1]
    if g in DH: return DH[g],1
    if g in('Ed25519','Ed448'):
        nb=32 if g=='Ed25519' else 57; return (2*nb if m=='allocSignature' else nb),1
    return REPS[g[2:],{'_1w_full':'1f','_1w_red':'1r','_2w_red':'2r','_4w_red':'4r'}[p.split('.')[0]]].size,32
def statics(e):
    """static storage that was written (thread-local storage is not shared)"""
    return [n for n,o in e.gobj.items() if o.func is None and o.written and not e.m.globals[n].tls]
def job(item):
    """(mode, unit, lens)"""
    mode,u,lens=item; ct=mode=='ct'; st=mode=='st'; mod=build.module(); tt=time.time(); st0=dict(solve.STAT); r={'ok':False,'why':None,'leak':[],'uninit':[],'mis':[],'fault':None,'paths':0,'static':[]}; fns=set(); steps=0; asm=0
    try:
        sv=Solver(20000); dec=exm.Decider(sv,400)
        for _ in dec:
            e=exm.Ex(mod,solver=sv,decider=dec); e.max_steps=60_000_000; e.hooks['bcmp']=exm.BUILTINS['memcmp']
            F=Flow(e,sv,ct); outs=[]
            try:
                for fn,a in calls(e,mod,u,lens,ct,sv,outs):
                    rc=e.call(fn,*a)
                    if rc is not None and 'u' in tags(rc) and F.differs(rc,getattr(rc,'w',64),'u'): F.uninit.append((fn,'return value'))
                if u[0]=='sig' and u[3]=='sign' and rc!=1: outs=[]
                if u[0]=='alloc':
                    n,al=alloc_size(u[1])
                    if not isinstance(rc,Ptr) or rc.o.size<n: r['fault']=f'allocated {rc.o.size if isinstance(rc,Ptr) else rc} bytes where {n} are needed'
                    elif (rc.o.base+rc.off)%al: r['fault']=f'allocation not aligned to {al}'
                    fr=u[1].replace('alloc','free'); ff=api.irfn(e,fr)
                    if ff: e.call(ff,rc)
                for o,n in outs:
                    for i,w in ([(i,1) for i in range(n)] if isinstance(n,int) else [(i,8) for i in n]):
                        x=e.rd(e.padd(o,i),w)
                        if 'u' in tags(x) and F.differs(x,8*w,'u'): F.uninit.append((fn,f'output {o.o.name}')); break
                for o in e.heap:
                    if not o.dead: r['fault']=r['fault'] or f'{o.name}: {o.size} bytes never released'
            except exm.Infeasible: continue
            except exm.Exit: pass
            except Fault as x: r['fault']=str(x)
            finally:
                if st: r['static']+=statics(e)
            if st and r['static']: r['init']=inputs_of(sv,e); r['paths']+=1; break
            if not r.get('init') and (r['fault'] or F.leak or F.uninit): r['init']=inputs_of(sv,e)
            r['paths']+=1; r['leak']+=F.leak; r['uninit']+=F.uninit; r['mis']+=[x[2:] for x in e.out if x[0]=='misaligned']; fns|=e.fnset; steps+=e.steps; asm+=e.inlineasm
            r['br']=r.get('br',0)+F.br; r['ad']=r.get('ad',0)+F.ad; r['q']=r.get('q',0)+F.q
            if r['fault'] or r['leak']: break
        for k in ('leak','uninit','mis','static'): r[k]=sorted(set(map(str,r[k])))
        r['ok']=not r['static'] if st else not(r['fault'] or r['uninit'] or r['mis'] or r['leak'])
        if st and r['fault'] and not r['static']: r['ok']=False; r['why']='the path was cut short: '+r['fault']
    except ERR as x:
        import traceback
        r['why']=f'{type(x).__name__}: {x}'; r['tb']=traceback.format_exc()[-600:]
        r['static']=sorted(set(r['static']))
        try: r['leak']=sorted(set(map(str,r['leak']+F.leak))); r['init']=r.get('init') or (inputs_of(sv,e) if r['leak'] else None)
        except Exception: r['leak']=[]
    r.update(fns=sorted(fns),steps=steps,asm=asm,sec=time.time()-tt,kernels=0); r['stat']={k:v-st0.get(k,0) for k,v in solve.STAT.items()}
    return r
def verify_hooks(mod,f):
    """decoding and the double-scalar multiplication are units of their own: here they read their operands and write results"""
    import c_dsm; from c_edw import DEC
    cf=c_dsm.CFG[f]
    def dec(e,P,Q,b):
        z=set()
        for i in range(cf.nb): z|=set(tags(e.rd(e.padd(b,i),1)))
        t=''.join(z)
        for p,kd in ((P,'4w'),(Q,'2w')):
            if isinstance(p,Ptr):
                for c,l in pt.layout(kd,f).items():
                    for off,rn,la in l[:1]:
                        for x,_ in REPS[f,rn].digs[la]: e.wr(e.padd(p,off+x),8,newvar(64,t))
        return newvar(32,t)
    def dsm(e,o,s,h,A):
        z=set()
        for p in (s,h):
            for i in range(cf.nb): z|=set(tags(e.rd(e.padd(p,i),1)))
        for c,l in pt.layout('4w',f).items():
            if c!='T':
                for off,rn,la in l[:1]:
                    z|=set(rdtags(e,A,[off+x for x,_ in REPS[f,rn].digs[la]]))
        t=''.join(z)
        for i in range(cf.nb): e.wr(e.padd(o,i),1,newvar(8,t))
    return {need(mod,DEC[f][0]):dec,need(mod,cf.fn):dsm}
def h2c_hooks(mod):
    def two(e,mp,n,dp):
        t=''
        for l in (0,1):
            m=e.rd(e.padd(mp,8*l),8); d=e.rd(e.padd(dp,8*l),8); z=set()
            for i in range(n): z|=set(tags(e.rd(e.padd(m,i),1)))
            for i in range(64): e.wr(e.padd(d,i),1,newvar(8,''.join(z)))
    return {need(mod,'sha512_2w_avx'):two}
def wnaf_hook(mod,f):
    """the recoding (C14) gives odd digits in range and never more of them than the longest scalar needs"""
    import c_dsm
    cf=c_dsm.CFG[f]
    def wnaf(e,K,p,w):
        if not isinstance(w,int): raise Unsupported('width')
        z=set()
        for i in range(cf.nb if f=='25519' else 56): z|=set(tags(e.rd(e.padd(p,i),1)))
        e.chk(K,cf.B+1,'write')
        d=tm.var(f'digit{K.o.name}',8); e.wr(K,1,d)
        if 'u' in z: TAG[d]='u'
        e.assume(tm.or_(1,tm.eq(8,d,0),tm.and_(1,tm.eq(1,tm.ext(d,0,1,8),1),tm.ult(8,tm.add(8,d,(1<<(w-1))-1),(1<<w)-1))))
        return 1
    return {need(mod,cf.wnaf):wnaf}
def inputs_of(sv,e):
    """bytes of the input buffers on the path taken"""
    if sv.sat([p for p in e.pc if not isinstance(p,int)],model=True)!='sat': return {}
    m={v.args[0]:x for v,x in (sv.model_ or {}).items()}; out={}
    for n in ('priv','pub','peer','msg','ctx','sig','data','S','h'):
        ks=[int(k[len(n):]) for k in m if k.startswith(n) and k[len(n):].isdigit()]
        if ks: out[n]=bytes(m.get(f'{n}{i}',0)&255 for i in range(max(ks)+1))
    if 'S' in out and 'sig' not in out: out['sig']=bytes(len(out['S']))+out['S']
    return out
def name(u,l): return '.'.join(map(str,u))+('' if l is None else f' lengths {l}')
def run(c,mode):
    import c_hash,flow_nat
    build.module(); api.offsets(); c_hash.layout(); J=[(mode,u,l) for u,l in units(mode=='ct',c.thorough)]
    if mode=='st': J+=[(mode,('prng',),None)]+[(mode,('rand',g,p),None) for g,p in rands()]
    J.sort(key=lambda j:{'dsm':0,'sig':1,'dh':2,'dec':2,'h2c':3}.get(j[1][0],4)); bad=[]
    for j,o in zip(J,nat.parallel(job,J,8,timeout=c.left()-120)):
        n=name(j[1],j[2])
        if o[0]!='ok': c.undec(n,str(o)[:300]); continue
        r=o[1]; solve.STAT.update({k:solve.STAT.get(k,0)+v for k,v in r['stat'].items()})
        c.funcs|=set(r['fns']); c.steps+=r['steps']; c.asm+=r['asm']; c.paths+=r['paths']
        if r['why'] and not r['leak'] and not r['static']: c.undec(n,r['why'])
        elif r['ok']: c.good(n,f"{r['paths']} path(s), {r.get('br',0)} symbolic branches, {r.get('ad',0)} symbolic addresses, {r.get('q',0)} two-run queries" if j[1][0] in('dh','sig','dsm','dec','h2c') else None)
        else: bad.append((j,r))
    seen=0
    for (_,u,l),r in bad:
        n=name(u,l); what='; '.join(filter(None,[r['fault'] and 'access: '+r['fault'],r['uninit'] and 'uninitialised data reaches '+', '.join(r['uninit'][:3]),r['mis'] and 'misaligned access '+', '.join(r['mis'][:3]),r['leak'] and 'secret decides '+', '.join(r['leak'][:3]),mode=='st' and r['static'] and 'writes static storage '+', '.join(r['static'][:3])]))
        if seen>=3 or c.left()<40: c.undec(n,'not replayed: '+what); continue
        q=nat.forked({'ct':flow_nat.ct,'mem':flow_nat.mem,'st':flow_nat.static}[mode],u,l,r,timeout=max(30,min(300,c.left()-20)))
        w=q[1] if q[0]=='ok' else None
        if w: seen+=1; c.violation('.'.join(map(str,u)),f'{n}: {what}; native: {w}',{'unit':n,'inputs':{k:v.hex() for k,v in (r.get('init') or {}).items()},'symbolic':what,'native':w,'driver':'regenerated by checks/flow_nat.py'})
        else: c.undec(n,f'{what} (not seen in the native build: {str(q)[:150]})')
COMMON=['field kernels inside larger functions are replaced by arbitrary results that carry the taint of what they read; every kernel, both inversions and every compression function is executed for real as a unit of its own','loops and lengths are concrete; contents of all buffers are symbolic']
def run_C21(c):
    c.bounds+=['X25519, X25519_x64, X448 key generation and shared secret; key generation and signing of all Ed25519 and Ed448 variants (message 5, context 3 bytes); all contents of keys, peers, messages; SHA-512/384, SHA-3, SHAKE and two-way SHA-512 on secret data of listed lengths']+COMMON
    c.assume+=['branches and addresses of the IR stand for those of the machine code: conditional moves the compiler turns into branches are outside','encodings of the public key and of R are published, so their encoding may depend on them','instructions of data-dependent latency are not considered']
    run(c,'ct')
def run_C22(c):
    c.bounds+=['message/context lengths (5,3), (0,255), (300,0) for signatures; listed lengths around every block boundary for the hashes; buffers of exactly the documented size with no more alignment than their type promises','verification: decoding, double-scalar multiplication and the rest are separate units; one recoded digit per scalar, all values (the loop body does not depend on how many)']+COMMON
    c.assume+=['objects are disjoint; a wild pointer into another object of the program counts as out of bounds']
    run(c,'mem')
def rands():
    out=[]
    for g,p in sorted(api.offsets()):
        m=p.rsplit('.',1)[-1]
        if g=='X' and m in('randKey','rand'): out+=[(t,p) for t in DH]
        elif g=='Fp' and m=='rand': out+=[(f'Fp{f}',p) for f in('25519','448')]
        elif g.startswith('Ed') and m in('randKey','rand'): out.append((g,p))
    return out
def run_C25(c):
    c.bounds+=['every function of the interface, the lengths of C22; all contents symbolic; every store on every path','static storage is everything outside the arguments, the frame and the heap objects of the call; thread-local storage is exempt']+COMMON[:1]
    c.assume+=['callers give concurrent calls disjoint buffers','the C library functions the code calls are thread-safe']
    run(c,'st')
if __name__=='__main__':
    import sys
    r=job((sys.argv[1],eval(sys.argv[2]),eval(sys.argv[3]) if len(sys.argv)>3 else None)); r['fns']=len(r.get('fns',())); print(str(r)[:2500])
