"""Symbolic executor over the parsed LLVM IR (with the x86 inline assembly interpreted)."""
import sys
import terms as tm
from terms import T, M
from ir import Reg, GRef, UndefC, UNDEF
sys.setrecursionlimit(100000)

class Unsupported(Exception): pass
class Fault(Exception):
    """memory-safety fault on a feasible path"""
    def __init__(s,kind,msg): s.kind=kind; s.msg=msg; Exception.__init__(s,kind+': '+msg)
class Infeasible(Exception): pass
class Exit(Exception): pass

class Obj:
    __slots__=('name','size','align','base','cells','kind','ro','dead','func','written','maxread','lo','tag')
    def __init__(s,name,size,align,base,kind):
        s.name=name;s.size=size;s.align=align;s.base=base;s.cells={};s.kind=kind;s.ro=False;s.dead=False;s.func=None;s.written=False;s.tag=None
    def __repr__(s): return f'<{s.name}:{s.size}>'
class Ptr:
    __slots__=('o','off')
    def __init__(s,o,off): s.o=o; s.off=off
    def __repr__(s): return f'&{s.o.name}+{s.off}'

def flat(ty,v,off=0):
    k=ty.k
    if k=='i':
        if ty.bits==128:
            yield off,8,tm.ext(v,0,64,128); yield off+8,8,tm.ext(v,64,64,128)
        elif ty.bits in(8,16,32,64): yield off,ty.bits//8,v
        elif ty.bits<8: yield off,1,tm.zext(v,ty.bits,8)
        else: raise Unsupported('store i%d'%ty.bits)
    elif k=='ptr' or k=='f': yield off,ty.size,v
    elif k in('vec','arr'):
        es=ty.el.size
        if v.__class__ is int and v==0: v=(0,)*ty.n
        for i in range(ty.n): yield from flat(ty.el,v[i],off+i*es)
    elif k=='struct':
        if v.__class__ is int and v==0: v=(0,)*len(ty.el)
        for i,e in enumerate(ty.el): yield from flat(e,v[i],off+ty.offs[i])
    else: raise Unsupported('flat '+k)

class Ex:
    def __init__(s,mod,hooks=None,decider=None,solver=None):
        s.m=mod; s.hooks=hooks or {}; s.nobj=0; s.gobj={}; s.pc=[]; s.pcset=set()
        s.decider=decider; s.solver=solver; s.undefs=[]; s.steps=0; s.max_steps=20_000_000
        s.objs=[]; s.stack=[]; s.callcount={}; s.on_branch=None; s.on_addr=None; s.align_fault=True
        s.out=[]; s.byaddr={}; s.nextbase=0x10000; s.heap=[]; s.inlineasm=0; s.fnset=set(); s.trace=None
        s.undef_hook=None; s.on_block=None; s.on_ret=None; s.max_off=600; s.vol=False; s.shadow=None
    # ---------------------------------------------------------- objects
    def new(s,name,size,align=8,kind='stack'):
        a=max(align,1)
        b=(s.nextbase+a-1)//a*a
        # make the object exactly `align`-aligned, not more, so that alignment faults show
        if (b//a)&1==0: b+=a
        s.nextbase=b+size+64
        o=Obj(name,size,a,b,kind); s.nobj+=1; s.objs.append(o)
        return o
    def alloc(s,name,size,align=8,init=None):
        """harness-level buffer; init: list of 64-bit words / bytes"""
        o=s.new(name,size,align,'arg')
        return Ptr(o,0)
    def gptr(s,name,off=0):
        o=s.gobj.get(name)
        if o is None:
            f=s.m.funcs.get(name)
            if f is not None:
                o=Obj(name,1,16,0x7f0000000000+len(s.gobj)*4096,'func'); o.func=name
                s.gobj[name]=o
            else:
                g=s.m.globals[name]
                o=s.new(name,g.ty.size,g.align,'global'); o.ro=g.const
                s.gobj[name]=o
                if g.init is not None and not isinstance(g.init,UndefC):
                    for of,sz,v in flat(g.ty,g.init):
                        if isinstance(v,GRef): v=s.gptr(v.name,v.off)
                        elif isinstance(v,UndefC): continue
                        o.cells[of]=(sz,v)
        return Ptr(o,off)
    # ---------------------------------------------------------- memory
    def chk(s,p,n,what,al=1):
        if not isinstance(p,Ptr):
            raise Fault(what,f'through non-pointer {p}')
        o=p.o
        if o.func is not None: raise Fault(what,'code address')
        if o.dead: raise Fault(what,f'use after free/scope of {o.name}')
        if p.off<0 or p.off+n>o.size: raise Fault(what,f'{n} bytes at offset {p.off} of {o.name} (size {o.size})')
        if al>1 and s.align_fault and (o.base+p.off)%al: s.out.append(('misaligned',what,al,o.name,p.off,s.stack[-1] if s.stack else ''))
    def rd(s,p,n,al=1):
        """read n<=8(16) bytes"""
        if isinstance(p,Ptr) and not isinstance(p.off,int): return s.rd_sym(p,n,al)
        s.chk(p,n,'read',al)
        return s.rd_(p.o,p.off,n)
    def rd_(s,o,off,n):
        if s.shadow is not None: s.shadow.read(o,off,n)
        c=o.cells.get(off)
        if c is not None and c[0]==n: return c[1]
        if n==16: return tm.concat([(s.rd_(o,off,8),64),(s.rd_(o,off+8,8),64)])
        parts=[];i=off;end=off+n;cells=o.cells
        while i<end:
            c=cells.get(i)
            if c is None:
                # inside an earlier cell?
                st=None
                for b in range(i-1,i-8,-1):
                    c2=cells.get(b)
                    if c2 is not None:
                        if b+c2[0]>i: st=b
                        break
                if st is None:
                    # uninitialised up to the next cell
                    j=i+1
                    while j<end and j not in cells: j+=1
                    k=j-i
                    while k>0:
                        z=8 if k>=8 else 4 if k>=4 else 2 if k>=2 else 1
                        v=s.undef(8*z,f'{o.name}+{i}')
                        cells[i]=(z,v); parts.append((v,8*z)); i+=z; k-=z
                    continue
                sz,v=cells[st]
                lo=i-st; m=min(sz-lo,end-i)
                if isinstance(v,Ptr): v=s.p2i(v)
                parts.append((tm.ext(v,8*lo,8*m,8*sz),8*m)); i+=m
            else:
                sz,v=c; m=min(sz,end-i)
                if isinstance(v,Ptr):
                    if m==8 and n==8: return v
                    v=s.p2i(v)
                parts.append((tm.ext(v,0,8*m,8*sz),8*m)); i+=m
        return tm.concat(parts)
    def undef(s,w,why):
        v=tm.fresh('undef',w); s.undefs.append((v,why))
        return v
    def wr(s,p,n,v,al=1):
        if isinstance(p,Ptr) and not isinstance(p.off,int): return s.wr_sym(p,n,v,al)
        s.chk(p,n,'write',al)
        if p.o.ro: raise Fault('write',f'to read-only {p.o.name}')
        s.wr_(p.o,p.off,n,v)
    def wr_(s,o,off,n,v):
        if s.shadow is not None: s.shadow.write(o,off,n,s.vol)
        cells=o.cells
        if n==16:
            s.wr_(o,off,8,tm.ext(v,0,64,128)); s.wr_(o,off+8,8,tm.ext(v,64,64,128)); return
        o.written=True
        c=cells.get(off)
        if c is not None and c[0]==n: cells[off]=(n,v); return
        # remove overlaps
        for b in range(off-7,off+n):
            c=cells.get(b)
            if c is None: continue
            sz,ov=c
            if b+sz<=off: continue
            del cells[b]
            if isinstance(ov,Ptr): ov=s.p2i(ov)
            if b<off:   # keep head bytes
                s._put(o,b,tm.ext(ov,0,8*(off-b),8*sz),off-b)
            if b+sz>off+n:
                k=b+sz-(off+n)
                s._put(o,off+n,tm.ext(ov,8*(sz-k),8*k,8*sz),k)
        cells[off]=(n,v)
    def _put(s,o,off,v,n):
        i=0
        while i<n:
            z=4 if n-i>=4 else 2 if n-i>=2 else 1
            o.cells[off+i]=(z,tm.ext(v,8*i,8*z,8*n)); i+=z
    def offs(s,p,n,what):
        """enumerate feasible offsets of a symbolic pointer"""
        if s.on_addr: s.on_addr(p.off,what,s)
        vals=s.solver.values(s.pc,p.off,64,s.max_off)
        if vals is None: raise Unsupported('too many feasible offsets into '+p.o.name)
        for v in vals:
            sv=v-(1<<64) if v>>63 else v
            if sv<0 or sv+n>p.o.size:
                s.pc=s.pc+[tm.eq(64,p.off,v)]
                raise Fault(what,f'{n} bytes at offset {sv} of {p.o.name} (size {p.o.size})')
        return vals
    def rd_sym(s,p,n,al):
        vals=s.offs(p,n,'read'); r=None
        for v in vals:
            if al>1 and s.align_fault and (p.o.base+v)%al: raise Fault('misaligned',f'read {p.o.name}+{v}')
            x=s.rd_(p.o,v,n)
            r=x if r is None else tm.ite(8*n,tm.eq(64,p.off,v),x,r)
        return r
    def wr_sym(s,p,n,v,al):
        if p.o.ro: raise Fault('write','read-only')
        for k in s.offs(p,n,'write'):
            if al>1 and s.align_fault and (p.o.base+k)%al: raise Fault('misaligned',f'write {p.o.name}+{k}')
            old=s.rd_(p.o,k,n)
            s.wr_(p.o,k,n,tm.ite(8*n,tm.eq(64,p.off,k),v,old))
    def load(s,ty,p,al=1):
        if isinstance(p,Ptr) and p.o.func is None and isinstance(p.off,int): s.chk(p,ty.size,'read',al)
        return s.load_(ty,p,al)
    def load_(s,ty,p,al=1):
        k=ty.k
        if k=='i':
            b=ty.bits
            if b==128: return s.rd(p,16,al)
            if b in(8,16,32,64): return s._int(s.rd(p,b//8,al)) if b<64 else s.rd(p,8,al)
            if b<8: return tm.ext(s.rd(p,1,al),0,b,8)
            raise Unsupported('load i%d'%b)
        if k=='ptr':
            v=s.rd(p,8,al)
            return v
        if k=='f': return s.rd(p,ty.size,al)
        if k in('vec','arr'):
            es=ty.el.size
            return tuple(s.load_(ty.el,s.padd(p,i*es),al if i==0 else 1) for i in range(ty.n))
        if k=='struct':
            return tuple(s.load_(e,s.padd(p,ty.offs[i]),1) for i,e in enumerate(ty.el))
        raise Unsupported('load '+k)
    def _int(s,v): return s.p2i(v) if isinstance(v,Ptr) else v
    def padd(s,p,k):
        if k==0: return p
        if isinstance(p,Ptr):
            if isinstance(p.off,int) : return Ptr(p.o,p.off+k)
            return Ptr(p.o,tm.add(64,p.off,k&M(64)))
        if isinstance(p,int): return (p+k)&M(64)
        return tm.add(64,p,k&M(64))
    def store(s,ty,v,p,al=1):
        if isinstance(v,UndefC): v=s.undefval(ty)
        if isinstance(p,Ptr) and isinstance(p.off,int): s.chk(p,ty.size,'write',al)
        first=True
        for off,n,x in flat(ty,v):
            if isinstance(x,UndefC): x=s.undef(8*n,'undef')
            s.wr(s.padd(p,off),n,x,al if first else 1); first=False
    def undefval(s,ty):
        if ty.k in('i','f'): return s.undef(ty.bits,'undef value')
        if ty.k in('vec','arr'): return tuple(s.undefval(ty.el) for _ in range(ty.n))
        if ty.k=='struct': return tuple(s.undefval(e) for e in ty.el)
        if ty.k=='ptr': return 0
        raise Unsupported('undef '+ty.k)
    def p2i(s,p):
        if isinstance(p,Ptr):
            s.byaddr[p.o.base]=p.o
            return (p.o.base+p.off)&M(64) if isinstance(p.off,int) else tm.add(64,p.off,p.o.base)
        return p
    def i2p(s,v):
        if isinstance(v,int):
            if v==0: return 0
            for b,o in s.byaddr.items():
                if b<=v<=b+o.size: return Ptr(o,v-b)
            return v
        if isinstance(v,T) and v.op=='lin':
            for b,o in s.byaddr.items():
                if b<=v.aux<=b+o.size: return Ptr(o,tm.sub(64,v,b))
        return v
    # ---------------------------------------------------------- branching
    def truth(s,c,what='branch'):
        if isinstance(c,int): return bool(c)
        if s.on_branch: s.on_branch(c,what,s)
        if c in s.pcset: return True
        if tm.not_(1,c) in s.pcset: return False
        if s.decider is None: raise Unsupported('symbolic branch '+tm.show(c,5))
        r=s.decider.decide(s,c)
        s.assume(c if r else tm.not_(1,c))
        return r
    def assume(s,c):
        if isinstance(c,int):
            if not c: raise Infeasible()
            return
        s.pc=s.pc+[c]; s.pcset.add(c)
        if c.op=='and' and c.aux==1:
            for x in c.args: s.pcset.add(x)
    # ---------------------------------------------------------- calls
    def call(s,name,*args):
        h=s.hooks.get(name)
        if h is not None:
            r=h(s,*args)
            if r is not NotImplemented: return r
        if name.startswith('llvm.'): return s.intrinsic(name,args)
        f=s.m.get(name)
        if f is None or f.decl:
            b=BUILTINS.get(name)
            if b is None: raise Unsupported('external '+name)
            return b(s,*args)
        s.callcount[name]=s.callcount.get(name,0)+1
        return s.run(f,args)
    def run(s,f,args):
        regs=[None]*f.nslots
        for k,((ty,r),a) in enumerate(zip(f.params,args)):
            if k in f.byval:   # copy
                o=s.new(f.name+'.byval',f.byval[k].size,16)
                s.store(f.byval[k],s.load(f.byval[k],a),Ptr(o,0)); a=Ptr(o,0)
            regs[r.i]=a
        s.stack.append(f.name); allocas=[]
        s.fnset.add(f.name)
        if len(s.stack)>60: raise Unsupported('recursion')
        try:
            return s._run(f,regs,allocas)
        finally:
            s.stack.pop()
            for o in allocas: o.dead=True
    def _run(s,f,regs,allocas):
        blocks=f.blocks; b=blocks[0]; prev=-1; skip=False
        def V(x):
            c=x.__class__
            if c is Reg: return regs[x.i]
            if c is int: return x
            if c is GRef: return s.gptr(x.name,x.off)
            if c is tuple: return tuple(V(y) for y in x)
            return x
        while True:
            if b.phis and not skip:
                vals=[(p[1],p[2],p[3][prev]) for p in b.phis]
                nv=[(d,V(v),ty) for d,ty,v in vals]
                for d,v,ty in nv:
                    if v is UNDEF: v=s.undefval(ty)
                    regs[d]=v
            skip=False
            if s.on_block is not None: s.on_block(f,b,regs)
            s.steps+=len(b.instrs)
            if s.steps>s.max_steps: raise Unsupported('step limit')
            nxt=None
            for I in b.instrs:
                op=I[0]
                if op=='bin':
                    ty=I[3]; a=V(I[4]); c=V(I[5])
                    if ty.k=='vec':
                        if a is UNDEF: a=s.undefval(ty)
                        if c is UNDEF: c=s.undefval(ty)
                        w=ty.el.bits; o=I[2]
                        regs[I[1]]=tuple(s.bin(o,w,x,y) for x,y in zip(a,c))
                    else: regs[I[1]]=s.bin(I[2],ty.bits,a,c)
                elif op=='load': regs[I[1]]=s.load(I[2],V(I[3]),I[4])
                elif op=='store':
                    if I[6]: s.vol=True
                    s.store(I[2],V(I[3]),V(I[4]),I[5]); s.vol=False
                elif op=='gep':
                    p=V(I[2]); k=I[3]
                    for ix,bits,sc in I[4]:
                        x=V(ix)
                        if isinstance(x,int): k+=(x-(1<<bits) if x>>(bits-1)&1 else x)*sc
                        else:
                            x=tm.mul(64,tm.sext(x,bits,64),sc&M(64))
                            if isinstance(p,Ptr):
                                if isinstance(x,int): k+=x-(1<<64) if x>>63 else x
                                else: p=Ptr(p.o,tm.add(64,p.off&M(64) if isinstance(p.off,int) else p.off,x))
                            else: p=tm.add(64,p,x)
                    if isinstance(p,Ptr) and isinstance(p.off,int): regs[I[1]]=Ptr(p.o,p.off+k)
                    else: regs[I[1]]=s.padd(p,k)
                elif op=='cast': regs[I[1]]=s.cast(I[2],I[3],V(I[4]),I[5])
                elif op=='icmp': regs[I[1]]=s.icmp(I[2],I[3],V(I[4]),V(I[5]))
                elif op=='call':
                    cal=I[3]
                    args=[V(a[1]) if a[1] is not None else None for a in I[4]]
                    for q,a in enumerate(args):
                        if a is UNDEF: args[q]=s.undefval(I[4][q][0])
                    if cal.__class__ is GRef: name=cal.name
                    else:
                        fp=regs[cal.i]
                        if not(isinstance(fp,Ptr) and fp.o.func): raise Fault('call',f'through bad function pointer {fp}')
                        name=fp.o.func
                    s.site=(f.name,I)
                    r=s.call(name,*args)
                    if I[1] is not None: regs[I[1]]=r
                elif op=='br': nxt=I[1]
                elif op=='condbr':
                    c=V(I[1])
                    if c is UNDEF: c=s.undef(1,'branch')
                    nxt=I[2] if s.truth(c) else I[3]
                elif op=='ret':
                    v=None if I[1] is None else V(I[2])
                    if s.on_ret is not None:
                        nxt=s.on_ret(f,v,regs)
                        if nxt is not None: skip=True; break
                    return v
                elif op=='select':
                    c=V(I[3]);ty=I[4];x=V(I[5]);y=V(I[6])
                    if I[2].k=='vec': regs[I[1]]=tuple(tm.ite(ty.el.bits,cc,p,q) for cc,p,q in zip(c,x,y))
                    else: regs[I[1]]=s.select(c,ty,x,y)
                elif op=='shufflevector':
                    ty=I[2];x=V(I[3]);y=V(I[4]);m=I[5];n=ty.n
                    if x is UNDEF: x=(UNDEF,)*n
                    if y is UNDEF: y=(UNDEF,)*n
                    z=tuple(x)+tuple(y)
                    mm=(0,)*I[6] if m.__class__ is int else m
                    r=tuple((z[q] if isinstance(q,int) else UNDEF) for q in mm)
                    regs[I[1]]=tuple((s.undef(ty.el.bits,'shuffle') if e is UNDEF else e) for e in r)
                elif op=='extractelement':
                    v=V(I[3]);ix=V(I[4])
                    if v is UNDEF: v=s.undefval(I[2])
                    if not isinstance(ix,int):
                        w=I[2].el.bits; r=v[0]
                        for q in range(1,I[2].n): r=tm.ite(w,tm.eq(64,ix,q),v[q],r)
                        regs[I[1]]=r
                    else: regs[I[1]]=v[ix]
                elif op=='insertelement':
                    v=V(I[3]);e=V(I[4]);ix=V(I[5])
                    if v is UNDEF: v=(UNDEF,)*I[2].n
                    v=list(v)
                    if not isinstance(ix,int): raise Unsupported('sym insertelement')
                    if e is UNDEF: e=s.undef(I[2].el.bits,'insert')
                    v[ix]=e
                    regs[I[1]]=tuple(v)
                elif op=='alloca':
                    n=V(I[3]); 
                    if not isinstance(n,int): raise Unsupported('vla')
                    o=s.new(f'{f.name}.{I[1]}',I[2].size*n,I[4]); allocas.append(o)
                    regs[I[1]]=Ptr(o,0)
                elif op=='extractvalue':
                    v=V(I[2])
                    for q in I[3]: v=v[q]
                    regs[I[1]]=v
                elif op=='insertvalue':
                    v=V(I[2]);e=V(I[3])
                    regs[I[1]]=_insv(v,e,I[4])
                elif op=='asm':
                    import x86
                    args=[V(a[1]) for a in I[5]]
                    for q,a in enumerate(args):
                        if a is UNDEF: args[q]=s.undefval(I[5][q][0])
                    r=x86.run(s,I[3],I[4],args,I[2],[a[0] for a in I[5]])
                    if I[1] is not None: regs[I[1]]=r
                elif op=='switch':
                    v=V(I[1]);w=I[2].bits; nxt=I[3]
                    for cval,blk in I[4]:
                        if s.truth(tm.eq(w,v,cval)): nxt=blk;break
                elif op=='unreachable': raise Fault('unreachable','executed')
                else: raise Unsupported(op)
            prev=b.idx; b=blocks[nxt]
    def bin(s,op,w,a,b):
        if a is UNDEF: a=s.undef(w,'op')
        if b is UNDEF: b=s.undef(w,'op')
        if isinstance(a,Ptr): a=s.p2i(a)
        if isinstance(b,Ptr): b=s.p2i(b)
        if op=='add': return tm.add(w,a,b)
        if op=='sub': return tm.sub(w,a,b)
        if op=='mul':
            return tm.mul(w,a,b)
        if op=='and': return tm.and_(w,a,b)
        if op=='or': return tm.or_(w,a,b)
        if op=='xor': return tm.xor(w,a,b)
        if op in('shl','lshr','ashr'):
            if isinstance(b,int) and b>=w: return s.undef(w,'oversized shift')
            return {'shl':tm.shl,'lshr':tm.lshr,'ashr':tm.ashr}[op](w,a,b)
        if op in('udiv','urem'):
            if b.__class__ is int and b==0: raise Fault('div','by zero')
            return (tm.udiv if op=='udiv' else tm.urem)(w,a,b)
        if isinstance(a,int) and isinstance(b,int) and op in('sdiv','srem'):
            x=tm._sg(a,w);y=tm._sg(b,w)
            if y==0: raise Fault('div','by zero')
            q=abs(x)//abs(y); q=-q if (x<0)!=(y<0) else q
            return (q if op=='sdiv' else x-q*y)&M(w)
        raise Unsupported(op)
    def cast(s,op,t1,v,t2):
        if v is UNDEF: v=s.undefval(t1)
        if op=='bitcast':
            return s.bitcast(v,t1,t2)
        if op=='freeze': return v
        if op=='ptrtoint':
            v=s.p2i(v); return tm.ext(v,0,t2.bits,64)
        if op=='inttoptr': return s.i2p(v)
        if t1.k=='vec': return tuple(s.cast1(op,t1.el.bits,x,t2.el.bits) for x in v)
        return s.cast1(op,t1.bits,v,t2.bits)
    def cast1(s,op,a,v,b):
        if v is UNDEF: v=s.undef(a,'cast')
        if isinstance(v,Ptr): v=s.p2i(v)
        if op=='zext': return tm.zext(v,a,b)
        if op=='trunc': return tm.trunc(v,a,b)
        if op=='sext': return tm.sext(v,a,b)
        raise Unsupported(op)
    def bitcast(s,v,t1,t2):
        if t1.k=='ptr' or t1.bits is None: return v
        if t1.k=='vec': e1=t1.el.bits; n1=t1.n; xs=v if v.__class__ is tuple else (v,)*n1
        else: e1=t1.bits; n1=1; xs=(v,)
        if t2.k=='vec': e2=t2.el.bits; n2=t2.n
        else: e2=t2.bits; n2=1
        xs=tuple(s.undef(e1,'bitcast') if x is UNDEF else s._int(x) for x in xs)
        if e1==e2: out=xs
        elif e1>e2:
            r=e1//e2
            out=tuple(tm.ext(x,e2*i,e2,e1) for x in xs for i in range(r))
        else:
            r=e2//e1
            out=tuple(tm.concat([(x,e1) for x in xs[i*r:(i+1)*r]]) for i in range(n2))
        return out if t2.k=='vec' else out[0]
    def icmp(s,pr,ty,a,b):
        if a is UNDEF: a=s.undefval(ty)
        if b is UNDEF: b=s.undefval(ty)
        if ty.k=='vec':
            return tuple(s.icmp1(pr,ty.el.bits,x,y) for x,y in zip(a,b))
        if ty.k=='ptr':
            if isinstance(a,Ptr) and isinstance(b,Ptr) and a.o is b.o:
                a=a.off; b=b.off
                if isinstance(a,int): a&=M(64)
                if isinstance(b,int): b&=M(64)
            else: a=s.p2i(a); b=s.p2i(b)
            return s.icmp1(pr,64,a,b)
        return s.icmp1(pr,ty.bits,a,b)
    def icmp1(s,pr,w,a,b):
        if isinstance(a,Ptr): a=s.p2i(a)
        if isinstance(b,Ptr): b=s.p2i(b)
        if pr=='eq': return tm.eq(w,a,b)
        if pr=='ne': return tm.not_(1,tm.eq(w,a,b))
        if pr=='ult': return tm.ult(w,a,b)
        if pr=='ugt': return tm.ult(w,b,a)
        if pr=='uge': return tm.not_(1,tm.ult(w,a,b))
        if pr=='ule': return tm.not_(1,tm.ult(w,b,a))
        if pr=='slt': return tm.slt(w,a,b)
        if pr=='sgt': return tm.slt(w,b,a)
        if pr=='sge': return tm.not_(1,tm.slt(w,a,b))
        if pr=='sle': return tm.not_(1,tm.slt(w,b,a))
        raise Unsupported(pr)
    def select(s,c,ty,x,y):
        if isinstance(c,int): return x if c else y
        if x is UNDEF: x=s.undefval(ty)
        if y is UNDEF: y=s.undefval(ty)
        if ty.k=='ptr' and (isinstance(x,Ptr) or isinstance(y,Ptr)):
            if isinstance(x,Ptr) and isinstance(y,Ptr) and x.o is y.o:
                f=lambda o:o&M(64) if isinstance(o,int) else o
                return Ptr(x.o,tm.ite(64,c,f(x.off),f(y.off)))
            return x if s.truth(c,'select') else y
        if ty.k in('vec','arr'): return tuple(tm.ite(ty.el.bits,c,p,q) for p,q in zip(x,y))
        return tm.ite(ty.bits,c,x,y)
    # ---------------------------------------------------------- intrinsics
    def intrinsic(s,n,a):
        if n.startswith('llvm.memcpy') or n.startswith('llvm.memmove'): return bi_memcpy(s,*a[:3])
        if n.startswith('llvm.memset'): return bi_memset(s,*a[:3])
        if 'psrli.q' in n: return tuple(tm.lshr(64,x,s.cnt(a[1],64)) for x in a[0])
        if 'pslli.q' in n: return tuple(tm.shl(64,x,s.cnt(a[1],64)) for x in a[0])
        if 'psrlv.q' in n: return tuple(tm.lshr(64,x,y) for x,y in zip(a[0],a[1]))
        if 'psllv.q' in n: return tuple(tm.shl(64,x,y) for x,y in zip(a[0],a[1]))
        if 'psrli.d' in n: return tuple(tm.lshr(32,x,s.cnt(a[1],32)) for x in a[0])
        if 'pslli.d' in n: return tuple(tm.shl(32,x,s.cnt(a[1],32)) for x in a[0])
        if 'psrai.d' in n: return tuple(tm.ashr(32,x,a[1]) for x in a[0])
        if 'permd' in n:
            if all(isinstance(i,int) for i in a[1]): return tuple(a[0][i&7] for i in a[1])
            out=[]
            for i in a[1]:
                r=a[0][0]; i=tm.ext(i,0,3,32)
                for q in range(1,8): r=tm.ite(32,tm.eq(3,i,q),a[0][q],r)
                out.append(r)
            return tuple(out)
        if 'pblendvb' in n:
            return tuple(tm.ite(8,tm.ext(m,7,1,8),y,x) for x,y,m in zip(a[0],a[1],a[2]))
        if 'pshuf.b' in n:
            L=len(a[0]); out=[]
            for k,i in enumerate(a[1]):
                if not isinstance(i,int): raise Unsupported('pshufb')
                out.append(0 if i&0x80 else a[0][(k//16)*16+(i&15)])
            return tuple(out)
        if n.startswith('llvm.bswap'):
            w=int(n.rsplit('.i',1)[1]); return tm.concat([(tm.ext(a[0],w-8-8*i,8,w),8) for i in range(w//8)])
        if n.startswith('llvm.fshl') or n.startswith('llvm.fshr'):
            w=int(n.rsplit('.i',1)[1]); k=a[2]
            if isinstance(k,int):
                k%=w
                if n.startswith('llvm.fshr'): 
                    return tm.ext(tm.concat([(a[1],w),(a[0],w)]),k,w,2*w)
                return tm.ext(tm.concat([(a[1],w),(a[0],w)]),w-k,w,2*w)
        if n.startswith(('llvm.umin','llvm.umax')):
            w=int(n.rsplit('.i',1)[1]); c=tm.ult(w,a[0],a[1])
            return tm.ite(w,c,a[0],a[1]) if 'umin' in n else tm.ite(w,c,a[1],a[0])
        if n.startswith(('llvm.smin','llvm.smax')) :
            w=int(n.rsplit('.i',1)[1]); c=tm.slt(w,a[0],a[1])
            return tm.ite(w,c,a[0],a[1]) if 'smin' in n else tm.ite(w,c,a[1],a[0])
        if n.startswith('llvm.abs'):
            w=int(n.rsplit('.i',1)[1]); return tm.ite(w,tm.slt(w,a[0],0),tm.neg(w,a[0]),a[0])
        if n.startswith('llvm.stacksave'): return 0
        if n.startswith('llvm.stackrestore'): return None
        raise Unsupported(n)
    def cnt(s,c,w):
        return c
def _insv(v,e,ix):
    v=list(v) if not isinstance(v,(UndefC,int)) else [UNDEF]*(ix[0]+1+8)
    v[ix[0]]=e if len(ix)==1 else _insv(v[ix[0]],e,ix[1:])
    return tuple(v)

# ---------------------------------------------------------------- libc
def conc(s,n,what):
    if isinstance(n,int): return n
    if s.on_addr: s.on_addr(n,what,s)
    vals=s.solver.values(s.pc,n,64,s.max_off)
    if vals is None: raise Unsupported('symbolic size '+what)
    for v in vals[:-1]:
        if s.truth(tm.eq(64,n,v),what): return v
    s.assume(tm.eq(64,n,vals[-1]))
    return vals[-1]
def bi_memcpy(s,d,p,n,*_):
    n=conc(s,n,'memcpy')
    if n==0: return d
    if isinstance(d,Ptr) and isinstance(p,Ptr) and isinstance(d.off,int) and isinstance(p.off,int):
        s.chk(p,n,'read'); s.chk(d,n,'write')
        if s.shadow is not None: s.shadow.read(p.o,p.off,n)
        if p.o is d.o and abs(p.off-d.off)<n and p.off!=d.off: raise Fault('memcpy','overlapping')
        i=0; out=[]
        while i<n:
            c=p.o.cells.get(p.off+i)
            if c is not None and c[0]<=n-i: z=c[0]; v=c[1]
            else:
                z=1
                while z<8 and 2*z<=n-i and (p.off+i)%(2*z)==0: z*=2
                # do not read past a smaller cell boundary
                v=s.rd_(p.o,p.off+i,z)
            out.append((i,z,v)); i+=z
        if d.o.ro: raise Fault('write','read-only')
        for i,z,v in out: s.wr_(d.o,d.off+i,z,v)
    else:
        tmp=[s.rd(s.padd(p,i),1) for i in range(n)]
        for i in range(n): s.wr(s.padd(d,i),1,tmp[i])
    return d
def bi_memset(s,d,c,n,*_):
    n=conc(s,n,'memset')
    if n==0: return d
    s.chk(d,n,'write')
    c=tm.ext(c,0,8,32) if not isinstance(c,int) and c.w>8 else (c&255 if isinstance(c,int) else c)
    i=0
    while i<n:
        z=8 if n-i>=8 and (d.off+i)%8==0 else 1
        s.wr_(d.o,d.off+i,z,tm.concat([(c,8)]*z)); i+=z
    return d
def bi_memcmp(s,a,b,n):
    n=conc(s,n,'memcmp')
    e=1;i=0
    s.memcmps=getattr(s,'memcmps',[])
    while i<n:
        z=8 if n-i>=8 else 1
        x=s._int(s.rd(s.padd(a,i),z));y=s._int(s.rd(s.padd(b,i),z))
        e=tm.and_(1,e,tm.eq(8*z,x,y)); i+=z
    return tm.ite(32,e,0,1)
def bi_malloc(s,n):
    n=conc(s,n,'malloc')
    o=s.new('malloc',n,16,'heap'); s.heap.append(o); return Ptr(o,0)
def bi_pmalign(s,pp,al,n):
    n=conc(s,n,'malloc')
    o=s.new('memalign',n,al,'heap'); s.heap.append(o); s.wr(pp,8,Ptr(o,0)); return 0
def bi_calloc(s,a,b):
    p=bi_malloc(s,a*b); bi_memset(s,p,0,a*b); return p
def bi_free(s,p):
    if isinstance(p,int) and p==0: return
    if not isinstance(p,Ptr) or p.o.kind!='heap' or p.off!=0: raise Fault('free',f'of {p}')
    if p.o.dead: raise Fault('free','double')
    p.o.dead=True
BUILTINS={'malloc':bi_malloc,'posix_memalign':bi_pmalign,'free':bi_free,'memcmp':bi_memcmp,'calloc':bi_calloc,
  'memcpy':bi_memcpy,'memset':bi_memset,'printf':lambda s,*a:0,'fprintf':lambda s,*a:0,'aligned_alloc':lambda s,al,n:(lambda o:(s.heap.append(o),Ptr(o,0))[1])(s.new('aligned',n,al,'heap')),
  'puts':lambda s,*a:0,'putchar':lambda s,*a:0}

class Decider:
    """depth-first path enumeration by re-execution"""
    def __init__(s,solver,maxpaths=4096):
        s.solver=solver; s.prefix=[]; s.work=[[]]; s.cur=[]; s.maxpaths=maxpaths; s.paths=0; s.i=0
    def decide(s,ex,c):
        if s.i<len(s.prefix): r=s.prefix[s.i]
        else:
            t=s.solver.sat(ex.pc+[c])
            f=s.solver.sat(ex.pc+[tm.not_(1,c)])
            if t=='unknown' or f=='unknown': raise Unsupported('branch feasibility unknown')
            if t=='unsat' and f=='unsat': raise Infeasible()
            if t=='sat' and f=='sat':
                s.work.append(s.cur+[False]); r=True
            else: r=(t=='sat')
        s.i+=1; s.cur.append(r)
        return r
    def __iter__(s):
        while s.work:
            s.prefix=s.work.pop(); s.cur=[]; s.i=0; s.paths+=1
            if s.paths>s.maxpaths: raise Unsupported('too many paths')
            yield s
