"""C16/C17: EdDSA key generation, signing and verification at protocol level. The compiled entry points are executed symbolically with the hash functions,
scalar arithmetic, point multiplications and encodings replaced by their contracts (C10-C15, C18, C19): a hash is an uninterpreted function of the byte
string fed to it, whatever the lengths; message, context, keys and signature are arbitrary. Every path's return code and output is compared with RFC 8032."""
import random,time,hashlib
import build,ex as exm,terms as tm,api,nat,solve,pt,fe
from ex import Ptr,Unsupported,Fault
from solve import Solver
from c_edw import ERR,result,merge
class Bad(Exception):
    def __init__(s,what,model=None): s.what=what; s.model=model
class Maybe(Unsupported):
    """not followed, but with a model worth trying on the native build"""
    def __init__(s,what,model): super().__init__(what); s.model=model
class CF: pass
A=CF(); A.f='25519'; A.nb=32; A.L=pt.L25; A.mul='point_multiplication_ed25519'; A.dsm='double_point_mult_4w_ed25519'; A.enc='point_encoding_ed25519'; A.dec='point_decoding_ed25519'; A.red='modular_reduction_ed25519'; A.calc='calculate_s_ed25519'; A.dg=64; A.kw=4; A.top=253; A.cv=pt.ED25; A.api='Ed25519'
Z=CF(); Z.f='448'; Z.nb=57; Z.L=pt.L448; Z.mul='fixed_point_multiplication_ed448'; Z.dsm='double_point_mult_4w_ed448'; Z.enc='point_encoding_ed448'; Z.dec='point_decoding_ed448'; Z.red='modular_reduction_ed448'; Z.calc='calculate_s_ed448'; Z.dg=114; Z.kw=7; Z.top=448; Z.cv=pt.ED448; Z.api='Ed448'
CFG={'25519':A,'448':Z}
OK={'keygen':0,'sign':1,'verify':2}; INVALID,EPK,ECTX=3,4,5
# variant: (ctx argument, domain flag or None, prehash)
VAR={('25519','Pure'):(False,None,False),('25519','PreHash'):(True,1,True),('25519','Context'):(True,0,False),('448','PureContext'):(True,0,False),('448','PreHash'):(True,1,True)}
def cat(bs): return tm.concat([(b,8) for b in bs])
class World:
    def __init__(s,cf,e,sv): s.cf=cf; s.e=e; s.sv=sv; s.uf={}; s.n=0; s.seg={}; s.hdl={}; s.contract_calls=0; s.cong=[]; s.hq={}
    # uninterpreted functions: arguments are compared semantically under the path condition
    def same(s,a,b):
        if len(a)!=len(b): return False
        q=1
        for x,y in zip(a,b):
            if x is y or x==y: continue
            if isinstance(x,str) or isinstance(y,str): return False
            (t,w),(u,v)=x,y
            if w!=v: return False
            if t is u: continue
            if isinstance(t,int) and isinstance(u,int):
                if t!=u:
                    if w!=32 or (t,u) not in s.hq: return False
                    q=tm.and_(1,q,s.hq[t,u])
                continue
            q=tm.and_(1,q,tm.eq(w,t,u))
        if q==1: return True
        if q==0: return False
        ok,_=s.sv.valid(s.e.pc,q)
        return True if ok is True else q
    def app(s,name,args,mk):
        near=[]
        for a,r in s.uf.setdefault(name,[]):
            q=s.same(a,args)
            if q is True: return r
            if q is not False: near.append((q,r))
        s.n+=1; r=mk(s.n); s.uf[name].append((args,r))
        for q,o in near:     # the arguments may still be equal: the results are, then (used for counterexamples only)
            if isinstance(r,int): s.hq[o,r]=s.hq[r,o]=q
            else: s.cong.append((q,o,r))
        return r
    def congruence(s):
        out=[]
        def eq(a,b,q):
            if isinstance(a,dict): a,b=zip(*[(a[i],b[i]) for i in a if i in b]) if set(a)&set(b) else ((),())
            if isinstance(a,tuple) and len(a)==2 and isinstance(a[1],int) and not isinstance(b[0],int):
                s.hq[a[1],b[1]]=s.hq[b[1],a[1]]=q; return tm.eq(32,a[0],b[0])
            return tm.and_(1,1,*[tm.eq(8,x,y) for x,y in zip(a,b)])
        for q,o,r in s.cong:
            c=tm.or_(1,tm.not_(1,q),eq(o,r,q))
            if not isinstance(c,int): out.append(c)
        return out
    def small(s,c):
        """a model in which c fails, with lengths as small as possible"""
        m=None
        for k in (300,1<<16,1<<20,(1<<29)+(1<<20),(1<<32)+(1<<20),None):
            ok,m=s.sv.valid(list(s.e.pc)+s.congruence()+([] if k is None else [tm.ult(64,v,k) for v in s.lens]),c)
            if ok is False: return m
        return m
    def bytes(s,p,n): return [s.e._int(s.e.rd(s.e.padd(p,i),1)) for i in range(n)]
    def put(s,p,bs):
        for i,b in enumerate(bs): s.e.wr(s.e.padd(p,i),1,b)
    def digest(s,kind,tr,n):
        """tr: list of transcript items; prefix-consistent for the XOF"""
        def mk(k): return {}
        d=s.app(kind,tr,mk)
        for i in range(n):
            if i not in d: s.n+=1; d[i]=tm.var(f'{kind}{s.n}.{i}',8)
        return [d[i] for i in range(n)]
    def items(s,p,n):
        """bytes at p, length n (a term)"""
        if isinstance(n,int):
            return [(b,8) for b in s.bytes(p,n)] if n else []
        if not isinstance(p,Ptr) or p.o.name not in s.seg or p.off!=0: raise Unsupported('hash of a buffer of symbolic length')
        return ['<'+p.o.name,(n,64),'>']
    def lt(s,bs,q): return tm.ult(8*len(bs),cat(bs),q)
    def reduced(s,v,w):
        """v mod L as a byte string (v: w-bit term)"""
        def mk(k):
            bs=[tm.var(f'mod{k}.{i}',8) for i in range(s.cf.nb)]
            if s.cf.f=='448': bs[56]=0
            return bs
        v=tm.zext(v,w,1024) if not isinstance(v,int) else v
        bs=s.app('mod',[(v,1024)],mk); c=s.lt(bs,s.cf.L)
        if c not in s.e.pcset: s.e.assume(c)
        return bs
    def handle(s,key,args):
        return s.app(key,args,lambda k:s.reg(k,key,args))
    def reg(s,k,key,args): s.hdl[k]=(key,args); return k
    def wpt(s,p,kind,k):
        for j in range(pt.size(kind,s.cf.f)//8): s.e.wr(s.e.padd(p,8*j),8,tm.var(f'H{k}.{j}',64))
    def rpt(s,p,kind):
        ks=set()
        for j in range(pt.size(kind,s.cf.f)//8):
            t=s.e.rd(s.e.padd(p,8*j),8)
            n=t.args[0] if not isinstance(t,(int,Ptr)) and t.op=='var' else ''
            if not n.startswith('H') or not n.endswith(f'.{j}'): raise Unsupported('not a point')
            ks.add(int(n[1:].split('.')[0]))
        if len(ks)!=1: raise Unsupported('mixed points')
        return ks.pop()
    def pmul(s,bs): return s.handle('mul',[(cat(bs[:8*s.cf.kw]),64*s.cf.kw)])
    def penc(s,k):
        return s.app('enc',[(k,32)],lambda n:[tm.var(f'enc{n}.{i}',8) for i in range(s.cf.nb)])
    def calcs(s,r,h,a):
        m=8*s.cf.kw
        def mk(n):
            bs=[tm.var(f'S{n}.{i}',8) for i in range(s.cf.nb)]
            if s.cf.f=='448': bs[56]=0
            return bs
        return s.app('calc',[(cat(x[:m]),8*m) for x in (r,h,a)],mk)
    def dsmul(s,S,h,k): return s.app('dsm',[(cat(S),8*len(S)),(cat(h),8*len(h)),(k,32)],lambda n:[tm.var(f'Q{n}.{i}',8) for i in range(s.cf.nb)])
    def decode(s,pk): return s.app('dec',[(cat(pk),8*len(pk))],lambda n:(tm.var(f'dec{n}',32),s.reg(n,'dec',n)))
def hooks(W):
    cf=W.cf; st={}
    def new(e,c,tr,kind):
        W.n+=1; st[W.n]=(kind,tr); e.wr(c,8,tm.var(f'T{W.n}',64))
    def state(e,c):
        t=e.rd(c,8); n=t.args[0] if not isinstance(t,(int,Ptr)) and t.op=='var' else ''
        if not n.startswith('T'): raise Unsupported('hash state not initialised')
        return st[int(n[1:])]
    def cnt(f):
        def g(*a): W.contract_calls+=1; return f(*a)
        return g
    hk={}
    def h_init(e,c,*a):
        if a and a[0]!=256: raise Bad('another capacity than SHAKE256')
        new(e,c,[],'sha512' if cf.f=='25519' else 'shake256'); return 0
    def mlen(p,n,bits):
        if not bits: return n
        if isinstance(n,int):
            if n%8: raise Unsupported('bits')
            return n//8
        # n = 8*len
        for v in W.lens:
            if n is tm.shl(64,v,3) or n is tm.mul(64,v,8) or W.sv.valid(W.e.pc,tm.eq(64,n,tm.mul(64,v,8)))[0] is True: return v
        for v in W.lens:
            if isinstance(p,Ptr) and v.args[0]==p.o.name+'len': raise Maybe('length in bits',W.small(tm.eq(64,n,tm.mul(64,v,8))))
        raise Unsupported('length in bits')
    def h_upd(bits):
        def g(e,c,p,n):
            k,tr=state(e,c); new(e,c,tr+W.items(p,mlen(p,n,bits)),k); return 0
        return g
    def h_close(e,c,o,*n):
        k,tr=state(e,c); m=n[0] if n else 64
        if not isinstance(m,int): raise Unsupported('digest length')
        W.put(o,W.digest(k,tr,m)); e.wr(c,8,0); return 0
    def h_shake(e,p,n,o,m):
        if not isinstance(m,int): raise Unsupported('digest length')
        W.put(o,W.digest('shake256',W.items(p,mlen(p,n,True)),m)); return 0
    if cf.f=='25519': hk.update({'sph_sha512_init':h_init,'sph_sha384':h_upd(0),'sph_sha512_close':h_close})
    else: hk.update({'Init':h_init,'Update':h_upd(1),'Final2':h_close,'SHAKE256':h_shake})
    def h_red(e,a):
        b=W.bytes(a,cf.dg); v=W.reduced(cat(b),8*cf.dg)
        W.put(a,v+[tm.var(f'junk{W.n}.{i}',8) for i in range(cf.nb,cf.dg)]); return None
    def h_red64(e,a):
        w=[e._int(e.rd(e.padd(a,8*i),8)) for i in range(5)]
        ok,m=W.sv.valid(e.pc,tm.and_(1,tm.ult(64,w[3],1<<60),tm.ult(64,w[4],64)))
        if ok is not True: raise Unsupported('operand of reduce64bits')
        v=tm.concat([(w[0],64),(w[1],64),(w[2],64),(tm.ext(w[3],0,60),60),(tm.ext(w[4],0,6),6)])
        W.put(a,W.reduced(v,258)+[tm.var(f'junk{W.n}.{i}',8) for i in range(32,40)]); return None
    def h_mul(e,P,k):
        b=W.bytes(k,8*cf.kw)
        ok,m=W.sv.valid(e.pc,tm.ult(8*len(b),cat(b),1<<cf.top)) if cf.top<8*len(b) else (True,None)
        if ok is False: raise Bad('fixed-base multiplication of a scalar beyond its range',m)
        if ok is None: raise Unsupported('solver gave up')
        W.wpt(P,'2w',W.pmul(b)); return None
    def h_enc(e,o,P): W.put(o,W.penc(W.rpt(P,'2w'))); return None
    def h_dec(e,o,xyz,pk):
        if xyz!=0: raise Unsupported('decoding with a second result')
        d,k=W.decode(W.bytes(pk,cf.nb)); W.wpt(o,'4w',k); return d
    def h_calc(e,o,r,h,a):
        m=8*cf.kw; n=cf.nb
        R,H,K=(W.bytes(x,n) for x in (r,h,a))
        for x in (R,H,K):
            for b in x[m:]:
                if W.sv.valid(e.pc,tm.eq(8,b,0))[0] is not True: raise Unsupported('operand of calculate_s')
        W.put(o,W.calcs(R,H,K)); return None
    def h_dsm(e,o,S,h,P):
        s=W.bytes(S,cf.nb); hh=W.bytes(h,cf.nb); k=W.rpt(P,'4w')
        ok,_=W.sv.valid(e.pc,tm.and_(1,W.lt(s,cf.L),W.lt(hh,cf.L)))
        if ok is True: q=W.dsmul(s,hh,k)
        else: W.n+=1; q=[tm.var(f'unspec{W.n}.{i}',8) for i in range(cf.nb)]
        W.put(o,q); return None
    hk.update({cf.red:h_red,'reduce64bits':h_red64,cf.mul:h_mul,cf.enc:h_enc,cf.dec:h_dec,cf.calc:h_calc,cf.dsm:h_dsm})
    for k in ('bcmp',): hk[k]=exm.BUILTINS['memcmp']
    return {k:cnt(v) for k,v in hk.items()}
def clamp(cf,d):
    a=list(d[:cf.nb])
    if cf.f=='25519': a[0]=tm.concat([(0,3),(tm.ext(a[0],3,5),5)]); a[31]=tm.concat([(tm.ext(a[31],0,6),6),(1,1),(0,1)])
    else: a[0]=tm.concat([(0,2),(tm.ext(a[0],2,6),6)]); a[55]=tm.concat([(tm.ext(a[55],0,7),7),(1,1)]); a[56]=0
    return a
def job(item):
    """(field, variant, operation, (message length, context length) or None)"""
    f,var,op,lens=item; cf=CFG[f]; mod=build.module(); tt=time.time(); r={'ok':False,'why':None,'paths':0,'codes':{}}; st0=dict(solve.STAT); pv=fe.Prover(mod); e=None
    hasctx,flag,ph=VAR[f,var]
    def hint(model):
        m={(k if isinstance(k,str) else k.args[0]):v for k,v in (model or {}).items()}
        r['hint']=(m.get('msglen',lens and lens[0]),m.get('ctxlen',lens and lens[1]),bytes(m.get(f'sig{i}',0)&255 for i in range(2*cf.nb)),bytes(m.get(f'pub{i}',0)&255 for i in range(cf.nb)))
    try:
        sv=Solver(30000); dec=exm.Decider(sv,4000)
        for _ in dec:
            e=exm.Ex(mod,solver=sv,decider=dec); W=World(cf,e,sv); e.hooks.update(hooks(W)); e.max_steps=4_000_000
            fn=api.irfn(e,f'{cf.api}.{var}.{op}')
            def buf(n,k,ro=True):
                p=e.alloc(n,k,1); bs=[tm.var(f'{n}{i}',8) for i in range(k)]
                for i,b in enumerate(bs): e.wr_(p.o,i,1,b)
                p.o.ro=ro; return p,bs
            def text(n,k):
                if k is not None: p,bs=buf(n,k); return p,k,[(b,8) for b in bs]
                p=e.alloc(n,1<<16,1); p.o.ro=True; W.seg[n]=1; v=tm.var(n+'len',64); W.lens.append(v)
                if f=='448': e.assume(tm.ult(64,v,1<<61))
                return p,v,['<'+n,(v,64),'>']
            W.lens=[]
            try:
                pub,pubb=buf('pub',cf.nb,op!='keygen'); priv,prvb=buf('priv',cf.nb); sig,sigb=buf('sig',2*cf.nb,op=='verify')
                msg,ml,mt=text('msg',None if lens is None else lens[0]); ctx,cl,ct=text('ctx',None if lens is None else lens[1])
                ca=[ctx,cl] if hasctx else []
                if op=='keygen': rc=e.call(fn,pub,priv)
                elif op=='sign': rc=e.call(fn,sig,msg,ml,*ca,pub,priv)
                else: rc=e.call(fn,msg,ml,*ca,pub,sig)
            except exm.Infeasible: continue
            except Fault as x: raise Bad(f'{x}',getattr(sv,'model_',None))
            r['paths']+=1; kind='sha512' if f=='25519' else 'shake256'
            def cases(rc):
                if isinstance(rc,int): return [(rc,1)]
                vs=sv.values(e.pc,rc,32,8)
                if not vs: raise Unsupported('return codes')
                return [(v,tm.eq(32,rc,v)) for v in vs]
            ctxbad=(tm.ult(64,255,cl) if not isinstance(cl,int) else int(cl>255)) if hasctx else 0
            def need(c,what):
                if c==1: return
                ok,m=sv.valid(e.pc,c)
                if ok is False: raise Bad(what,W.small(c) or m)
                if ok is None: raise Unsupported('solver gave up: '+what)
            def eqs(a,b): return tm.and_(1,*[tm.eq(8,x,y) for x,y in zip(a,b)])
            def h(*parts):
                t=[]
                if flag is not None:
                    t+=[(b,8) for b in (b'SigEd25519 no Ed25519 collisions' if f=='25519' else b'SigEd448')]+[(flag,8),(cl if isinstance(cl,int) else tm.ext(cl,0,8),8)]+ct
                for p in parts: t+=p
                return W.digest(kind,t,cf.dg)
            B=lambda bs:[(b,8) for b in bs]
            PH=B(W.digest(kind,mt,64)) if ph else mt
            for code,when in cases(rc):
                keep=(list(e.pc),set(e.pcset)); e.assume(when); r['codes'][code]=r['codes'].get(code,0)+1
                if op=='keygen':
                    if code!=OK[op]: raise Bad(f'key generation returns {code}')
                    a=clamp(cf,W.digest(kind,B(prvb),cf.dg)); out=W.bytes(pub,cf.nb)
                    q=0
                    for s_ in (W.reduced(cat(a),8*cf.nb),a):
                        q=tm.or_(1,q,eqs(out,W.penc(W.pmul(s_))))
                    need(q,'the public key is not the encoding of [clamped hash of the key]B')
                elif op=='sign':
                    if code==ECTX: need(ctxbad,'a permitted context is refused')
                    elif code!=OK[op]: raise Bad(f'signing returns {code}',sv.model_ if sv.sat(e.pc,model=True)=='sat' else None)
                    else:
                        need(tm.not_(1,ctxbad) if not isinstance(ctxbad,int) else 1-ctxbad,'a context longer than 255 bytes is signed')
                        d=W.digest(kind,B(prvb),cf.dg); a=clamp(cf,d); pre=d[cf.nb:2*cf.nb]; rr=W.reduced(cat(h(B(pre),PH)),8*cf.dg); R=W.penc(W.pmul(rr)); out=W.bytes(sig,2*cf.nb)
                        need(eqs(out[:cf.nb],R),'R is not the encoding of [r]B with r the hash of domain, prefix and message')
                        k=W.reduced(cat(h(B(R),B(pubb),PH)),8*cf.dg)
                        need(eqs(out[cf.nb:],W.calcs(rr,k,a)),'S is not r + k*a with k the hash of domain, R, public key and message')
                else:
                    d,k=W.decode(pubb); R,S=sigb[:cf.nb],sigb[cf.nb:]; nc=tm.not_(1,ctxbad) if not isinstance(ctxbad,int) else 1-ctxbad; okk=tm.eq(32,d,0); sl=W.lt(S,cf.L)
                    Q=W.dsmul(S,W.reduced(cat(h(B(R),B(pubb),PH)),8*cf.dg),k); eq=eqs(R,Q)
                    neg=lambda c:1-c if isinstance(c,int) else tm.not_(1,c)
                    if code==OK[op]:
                        need(nc,'a context longer than 255 bytes is accepted'); need(okk,'a public key that does not decode is accepted'); need(sl,'a scalar S not below the group order is accepted'); need(eq,'accepted although R is not the recomputed R of this variant')
                    elif code==ECTX: need(neg(nc),'a permitted context is refused')
                    elif code==EPK: need(neg(okk),'a public key that decodes is refused')
                    elif code==INVALID: need(neg(tm.and_(1,nc,okk,sl,eq)),'a valid signature is refused')
                    else: raise Bad(f'verification returns {code}')
                e.pc,e.pcset=keep
            r['calls']=r.get('calls',0)+W.contract_calls; pv.fns|=e.fnset; pv.steps+=e.steps
        want={0} if op=='keygen' else {OK[op]}|({ECTX} if hasctx and (lens is None or lens[1]>255) else set())|({INVALID,EPK} if op=='verify' else set())
        if lens and hasctx and lens[1]>255: want={ECTX}
        if not lens and not want<=set(r['codes']): raise Unsupported(f'return codes seen: {sorted(r["codes"])}')
        r['ok']=True
    except Bad as x:
        r['why']=x.what; r['bad']=True; hint(x.model)
    except Maybe as x: r['why']=f'Unsupported: {x}'; hint(x.model)
    except ERR as x: r['why']=f'{type(x).__name__}: {x}'
    except exm.Infeasible: r['why']='infeasible'
    return result(pv,tt,st0,r,None)
# ------------------------------------------------------------------ the native build against an RFC 8032 implementation of our own
def H(cf,b): return hashlib.sha512(b).digest() if cf.f=='25519' else hashlib.shake_256(b).digest(114)
def prehash(cf,m): return hashlib.sha512(m).digest() if cf.f=='25519' else hashlib.shake_256(m).digest(64)
def dom(cf,var,ctx):
    fl=VAR[cf.f,var][1]
    return b'' if fl is None else (b'SigEd25519 no Ed25519 collisions' if cf.f=='25519' else b'SigEd448')+bytes([fl,len(ctx)])+ctx
def rfc_key(cf,priv):
    d=H(cf,priv); a=bytearray(d[:cf.nb])
    if cf.f=='25519': a[0]&=248; a[31]=a[31]&63|64
    else: a[0]&=252; a[55]|=128; a[56]=0
    return int.from_bytes(a,'little'),d[cf.nb:2*cf.nb]
def encode(cf,P): return (P[1]|(P[0]&1)<<(8*cf.nb-1)).to_bytes(cf.nb,'little')
def rfc_pub(cf,priv): return encode(cf,cf.cv.mul(rfc_key(cf,priv)[0]%cf.L,cf.cv.B))
def rfc_sign(cf,var,m,ctx,pub,priv):
    a,pre=rfc_key(cf,priv); D=dom(cf,var,ctx); ph=prehash(cf,m) if VAR[cf.f,var][2] else m
    r=int.from_bytes(H(cf,D+pre+ph),'little')%cf.L; R=encode(cf,cf.cv.mul(r,cf.cv.B)); k=int.from_bytes(H(cf,D+R+pub+ph),'little')%cf.L
    return R+((r+k*a)%cf.L).to_bytes(cf.nb,'little')
def rfc_verify(cf,var,m,ctx,pub,sig):
    import c_edw
    hasctx=VAR[cf.f,var][0]
    if hasctx and len(ctx)>255: return {ECTX}
    A_=c_edw.rfc_decode(cf.cv,pub)
    R,S=sig[:cf.nb],int.from_bytes(sig[cf.nb:],'little'); bad=set()
    if A_ is None: bad.add(EPK)
    if S>=cf.L: bad.add(INVALID)
    if bad: return bad
    k=int.from_bytes(H(cf,dom(cf,var,ctx)+R+pub+(prehash(cf,m) if VAR[cf.f,var][2] else m)),'little')%cf.L
    if cf.f=='448': k=4*(k*pow(4,-1,cf.L)%cf.L)
    Q=cf.cv.add(cf.cv.mul(S,cf.cv.B),cf.cv.mul(k,cf.cv.neg(A_)))
    return {OK['verify']} if encode(cf,Q)==R else {INVALID}
def big(f,var,op,m,cl):
    """one message of m zero bytes (the zero page, mapped as often as needed)"""
    import ctypes,mmap
    cf=CFG[f]; N=nat.lib(); m=min(m or 33,(1<<32)+(1<<20)); cl=(cl or 0) if VAR[f,var][0] else 0
    if cl>255:     # refused whatever the message is
        cl=min(cl,(1<<33)+4096); mm=mmap.mmap(-1,cl+8,flags=mmap.MAP_PRIVATE|mmap.MAP_ANONYMOUS); p=ctypes.c_void_p(ctypes.addressof(ctypes.c_char.from_buffer(mm))); g=build._Fn(N.slot(*api.where(f'{cf.api}.{var}.{op}')),ctypes.c_int); B=build.Buf
        a=[B(33,bytes(33)),33,p,ctypes.c_uint64(cl)]; priv=bytes(range(cf.nb)); P=B(cf.nb,rfc_pub(cf,priv)); K=B(cf.nb,priv)
        rc=g(B(2*cf.nb),*a,P,K) if op=='sign' else g(*a,P,B(2*cf.nb,bytes(2*cf.nb)))
        return dict(entry=f'{cf.api}.{var}.{op}',context=f'{cl} zero bytes',message='33 zero bytes',returned=rc,what='a context longer than 255 bytes is not refused') if rc!=ECTX else None
    mm=mmap.mmap(-1,m+8,flags=mmap.MAP_PRIVATE|mmap.MAP_ANONYMOUS); adr=ctypes.addressof(ctypes.c_char.from_buffer(mm)); msg=memoryview(mm)[:m]
    def H(*p,ph=False):
        h=hashlib.sha512() if f=='25519' else hashlib.shake_256()
        for x in p: h.update(x)
        return h.digest() if f=='25519' else h.digest(64 if ph else 114)
    hasctx,flag,ph=VAR[f,var]; ctx=b'abc' if hasctx else b''; D=dom(cf,var,ctx); priv=bytes(range(cf.nb)); pub=rfc_pub(cf,priv); a,pre=rfc_key(cf,priv); M=H(msg,ph=True) if ph else msg; nb=cf.nb
    r=int.from_bytes(H(D,pre,M),'little')%cf.L; R=encode(cf,cf.cv.mul(r,cf.cv.B)); k=int.from_bytes(H(D,R,pub,M),'little')%cf.L; good=R+((r+k*a)%cf.L).to_bytes(nb,'little')
    g=build._Fn(N.slot(*api.where(f'{cf.api}.{var}.{op}')),ctypes.c_int); B=build.Buf; P,K,S,C=B(nb,pub),B(nb,priv),B(2*nb,good if op=='verify' else None),B(3,b'abc')
    ca=[C,ctypes.c_uint64(3)] if hasctx else []; p=ctypes.c_void_p(adr); n=ctypes.c_uint64(m); d={'entry':f'{cf.api}.{var}.{op}','message':f'{m} zero bytes','context':ctx.hex(),'private key':priv.hex(),'public key':pub.hex(),'RFC 8032 signature':good.hex()}
    if op=='sign':
        rc=g(S,p,n,*ca,P,K)
        if rc!=1 or S.get()!=good: return dict(d,what='not the signature RFC 8032 prescribes',returned=rc,signature=S.get().hex())
    else:
        rc=g(p,n,*ca,P,S)
        if rc!=2: return dict(d,what='a valid signature is refused',returned=rc)
def search(f,seed,n,limit,hints=()):
    import ctypes
    cf=CFG[f]; N=nat.lib(); rng=random.Random(seed); t0=time.time(); done=0; vs=[v for g,v in VAR if g==f]; F={}
    for v in vs:
        for op in OK: F[v,op]=build._Fn(N.slot(*api.where(f'{cf.api}.{v}.{op}')),ctypes.c_int)
    B=lambda b,al=1: build.Buf(max(1,len(b)),b or b'\0',al)
    def chk(v,op,rc,want,bufs,extra,what):
        a={'entry':f'{cf.api}.{v}.{op}','returned':rc,'RFC 8032':sorted(want)}
        for k,(b,x) in bufs.items():
            a[k]=x.hex()[:600]+(f'... ({len(x)} bytes)' if len(x)>300 else '')
        a.update(extra)
        if rc not in want: a['what']=what; return a
        for k,(b,x) in bufs.items():
            if b.get()[:len(x)]!=x: a['what']=f'{k}: not what RFC 8032 prescribes' if k.startswith('result') else f'{k} was modified'; return a
            if not b.guards_ok(): a['what']=f'memory next to {k} was modified'; return a
    ml=[0,1,2,3,31,32,33,63,64,65,79,80,81,95,96,97,110,111,112,113,127,128,129,135,136,137,143,144,145,200,239,240,241,255,256,257,271,272,273,511,512,1023,1024,4096,65535,65536,70000]; cl=[0,1,2,16,31,32,33,64,93,94,95,126,127,128,129,200,253,254,255,256,257,300,511,512,513,65535,65536,65537]
    def cases():
        for hh in hints:
            if hh:
                for v in vs: yield v,min(hh[0] if hh[0] is not None else 33,1<<20),min(hh[1] if hh[1] is not None else 5,1<<17),hh
        q=[(v,m,c,None) for v in vs for m in ml for c in ((cl if m in(0,1,33,64) else rng.sample(cl,2)) if VAR[f,v][0] else [0])]; rng.shuffle(q); yield from q
        while True: v=rng.choice(vs); yield v,rng.choice(ml+[rng.randrange(3000)]),rng.choice(cl+[rng.randrange(256)]),None
    for v,m,c,hint in cases():
        if done>=n or time.time()-t0>limit: break
        hasctx=VAR[f,v][0]; msg=rng.randbytes(m); ctx=rng.randbytes(c) if hasctx else b''; priv=rng.randbytes(cf.nb); nb=cf.nb
        pub=rfc_pub(cf,priv); o=B(b'\x5a'*nb); K=B(priv); rc=F[v,'keygen'](o,K)
        a=chk(v,'keygen',rc,{0},{'result public key':(o,pub),'private key':(K,priv)},{},'another return code')
        if a: return a,done
        P=B(pub) if rng.random()<.8 else None; pk=pub
        if P is None: pk=rng.randbytes(nb); P=B(pk)      # signing hashes whatever key it is given
        M,C=B(msg),B(ctx); sg=B(b'\x5a'*2*nb); ca=[C,ctypes.c_uint64(len(ctx))] if hasctx else []
        over=hasctx and len(ctx)>255
        rc=F[v,'sign'](sg,M,ctypes.c_uint64(m),*ca,P,K)
        io={'message':(M,msg),'context':(C,ctx),'public key':(P,pk),'private key':(K,priv)}
        if not over: io['result signature']=(sg,rfc_sign(cf,v,msg,ctx,pk,priv))
        a=chk(v,'sign',rc,{ECTX} if over else {1},io,{'message length':m,'context length':len(ctx)},'another return code'); done+=1
        if a: return a,done
        good=rfc_sign(cf,v,msg,ctx[:255],pub,priv); S=int.from_bytes(good[nb:],'little'); cc=[(pub,good,msg,ctx)]
        ncan=(good[:nb],)
        t=rng.randrange(10)
        for j in range(1,200):
            if S+j*cf.L>>(8*nb): break
            if j in (1,2,3,7,15) or rng.random()<.1: cc.append((pub,good[:nb]+(S+j*cf.L).to_bytes(nb,'little'),msg,ctx))
        for b in rng.sample(range(16*nb),3)+[8*nb-1,16*nb-1,16*nb-2,16*nb-3,16*nb-9,8*nb-2,8*nb-8]:
            x=bytearray(good); x[b//8]^=1<<b%8; cc.append((pub,bytes(x),msg,ctx))
        x=bytearray(pub); b=rng.randrange(8*nb); x[b//8]^=1<<b%8; cc.append((bytes(x),good,msg,ctx))
        if msg: x=bytearray(msg); b=rng.randrange(8*len(msg)); x[b//8]^=1<<b%8; cc.append((pub,good,bytes(x),ctx)); cc.append((pub,good,msg[:-1],ctx))
        if ctx and not over: x=bytearray(ctx); b=rng.randrange(8*len(ctx)); x[b//8]^=1<<b%8; cc.append((pub,good,msg,bytes(x))); cc.append((pub,good,msg,ctx[:-1])); cc.append((pub,good,msg+ctx[-1:],ctx[:-1]))
        for v2 in vs:
            if v2!=v: cc.append((pub,rfc_sign(cf,v2,msg,ctx[:255] if VAR[f,v2][0] else b'',pub,priv),msg,ctx))
        if hint: cc.append((hint[3],hint[2],msg,ctx)); cc.append((pub,good[:nb]+hint[2][nb:],msg,ctx))
        # small order keys and R: S=0 or r only
        idn=(1).to_bytes(nb,'little'); L=cf.L; i=rng.randrange(cf.L.bit_length()//8)
        ss=[rng.choice((L-1-rng.randrange(64),L+rng.randrange(64),L-(1<<8*i),L+(1<<8*i),(L>>8*i<<8*i)+rng.randrange(1<<8*i),rng.randrange(64)+rng.randrange(3)*L)) for _ in range(3)]+([int.from_bytes(hint[2][nb:],'little')] if hint else [])
        R_=bytes(nb)
        for S_ in ss:      # neutral key: any S can be had
            if S_>>(8*nb)==0:
                R_=encode(cf,cf.cv.mul(S_%L,cf.cv.B)); cc.append((idn,R_+S_.to_bytes(nb,'little'),msg,ctx))
        for b in (8*nb-1,8*nb-8,rng.randrange(8*nb-8),rng.randrange(8)):   # nearly the recomputed R
            x=bytearray(R_); x[b//8]^=1<<b%8; cc.append((idn,bytes(x)+(S_%L).to_bytes(nb,'little'),msg,ctx))
        cc.append((idn,idn+bytes(nb),msg,ctx)); cc.append((idn,idn+cf.L.to_bytes(nb,'little'),msg,ctx))
        for pk,sig,ms,cx in cc if done<40 or done%8==0 or hint else [cc[0]]+rng.sample(cc[1:],3):
            P,G,M,C=B(pk),B(sig),B(ms),B(cx); ca=[C,ctypes.c_uint64(len(cx))] if hasctx else []
            rc=F[v,'verify'](M,ctypes.c_uint64(len(ms)),*ca,P,G)
            a=chk(v,'verify',rc,rfc_verify(cf,v,ms,cx,pk,sig),{'message':(M,ms),'context':(C,cx),'public key':(P,pk),'signature':(G,sig)},{'message length':len(ms),'context length':len(cx)},'another decision than RFC 8032 prescribes'); done+=1
            if a: return a,done
    return None,done
def run(c,f):
    cf=CFG[f]; build.module(); nat.lib(); api.offsets(); vs=[v for g,v in VAR if g==f]
    jobs=[(f,v,op,None) for v in vs for op in OK]; out=nat.parallel(job,jobs,8,timeout=max(60,c.left()-250)); res={}
    for j,o in zip(jobs,out): res[j]=o[1] if o[0]=='ok' else {'ok':False,'why':str(o)[:300]}
    large=[(j[1],j[2],*r['hint'][:2]) for j,r in res.items() if r.get('hint') and max(r['hint'][0] or 0,r['hint'][1] or 0)>1<<17 and j[2]!='keygen']
    hints=[r.get('hint') for r in res.values() if r.get('hint')]
    # code that cannot be executed with lengths left open: the listed lengths instead
    again=[j for j,r in res.items() if not r['ok'] and not r.get('bad') and j[2]!='keygen']; LENS=[(0,0),(1,3),(70,255),(129,256),(5,300)]
    if again:
        jj=[j[:3]+((m,x),) for j in again for m,x in LENS]
        for j,o in zip(jj,nat.parallel(job,jj,8,timeout=max(60,c.left()-250))): res[j]=o[1] if o[0]=='ok' else {'ok':False,'why':str(o)[:300]}
        for j in again:
            if all(res[j[:3]+(l,)]['ok'] for l in LENS): c.bounds.append(f'{cf.api}.{j[1]}.{j[2]}: lengths {LENS} only'); del res[j]
    for r in res.values(): merge(c,r)
    bad=any(not r['ok'] for r in res.values()); hints+=[r.get('hint') for r in res.values() if r.get('hint') and r.get('hint') not in hints]
    for (v,op,*_),o in zip(large,nat.parallel(lambda a:big(f,*a),large,2,timeout=200)):
        if o[0]=='ok' and o[1]: c.violation(o[1]['entry'],f"{o[1]['entry']}: {o[1]['what']}",o[1])
    n=nat.forked(search,f,c.rng.random(),10**7 if bad else 400,120 if bad else 60,hints,timeout=200)
    if n[0]=='ok' and n[1][0]: a=n[1][0]; c.violation(a['entry'],f"{a['entry']}: {a['what']}",a)
    elif n[0]=='crash': c.violation(cf.api,f'{cf.api} crashes (signal {n[1]})',{'api':cf.api})
    elif n[0]=='ok': c.validated+=n[1][1]
    lab={'keygen':'the public key is the encoding of [clamped H(key)]B','sign':'R and S of RFC 8032 for every message, context, key; contexts above 255 bytes refused','verify':'accepts exactly the triples RFC 8032 accepts; return code names a condition that fails'}
    for j,r in res.items():
        nm=f'{cf.api}.{j[1]}.{j[2]}: {lab[j[2]]}'+(f' (lengths {j[3]})' if j[3] else '')
        if r['ok']: c.good(nm,f"{r['paths']} paths, {r.get('calls',0)} contract calls, {r['sec']:.1f} s")
        else: c.undec(nm,f"{r['why']}")
    c.bounds+=['messages and contexts of every length and content (hash input strings are kept symbolic, lengths as 64-bit variables'+('' if f=='25519' else ', below 2^61 bytes')+'), every key, every signature']
    c.assume=['hash functions, scalar arithmetic, point multiplication, encoding and decoding by their contracts (C10-C15, C18, C19); a hash is an uninterpreted function of its input string','scalar ranges required by those contracts are decided in this run']
def run_C16(c): run(c,'25519')
def run_C17(c): run(c,'448')
if __name__=='__main__':
    import sys
    a=(sys.argv[1],sys.argv[2],sys.argv[3],eval(sys.argv[4]) if len(sys.argv)>4 else None)
    r=job(a); r['fns']=len(r.get('fns',())); print(str(r)[:1500])
