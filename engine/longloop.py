"""A block-wise loop over an input of symbolic length, decided by induction on the number of blocks.

The function runs with the length a symbolic term. The first branch that depends on how many blocks there are is the loop header. Three iterations are
executed from the real entry state; comparing the states at the header gives a general state -- every register and memory cell is either constant,
linear in the iteration number t, a component of the chaining value (made arbitrary), or unknown. From that general state every path through one more
iteration is executed: if it comes back to the header, the general state must hold for t+1 and the compression function must have been given exactly
the chaining value and the next block of the input; if it returns, the caller compares the result with the specification for exactly the rest of the input."""
import terms as tm, ex as exm
from terms import M
from ex import Ptr,Unsupported,Fault,Infeasible
class End(Exception): pass
class Flip(Exception): pass
class Wrong(Exception):
    def __init__(s,what,model=None): super().__init__(what); s.model=model
class Stream:
    """input bytes addressed by (symbolic) offset"""
    def __init__(s,e,name,length,al=0): s.e=e; s.name=name; s.len=length; s.bases=[(0,{})]; s.norm={}; s.okd=set(); s.room={}; s.reps=[]; s.n=0
    def key(s,off):
        if off.__class__ is not int:
            k=s.norm.get(off)
            if k is None:
                for o,(i,x) in s.reps:
                    y=tm.sub(64,off,o)
                    if y.__class__ is int: k=(i,(x+y)&M(64)); break
                else:
                    for i,(b,d) in enumerate(s.bases):
                        x=tm.sub(64,off,b); r=s.e.solver.values(s.e.pc,x,64,1) if x.__class__ is not int else [x]
                        if r and len(r)==1: k=(i,r[0]); break
                    else: s.bases.append((off,{})); k=(len(s.bases)-1,0)
                    s.reps.append((off,k))
                s.norm[off]=k
            i,x=k
        else: i,x=0,off
        return i,x-(1<<64) if x>>63 else x
    def byte(s,off):
        i,x=s.key(off); d=s.bases[i][1]
        if x not in d: s.n+=1; d[x]=tm.var(f'{s.name}{i}.{s.n}',8)
        return d[x]
    def inside(s,off,n):
        i,x=s.key(off); b=s.bases[i][0]
        if x>=0:
            # how much input is left from the base on (facts of a path stay facts: the path condition only grows)
            if (i,'room') not in s.okd:
                s.okd.add((i,'room')); s.room[i]=0; v=s.e.solver
                for h in (s.e.pc[-3:],s.e.pc[-6:],s.e.pc):
                    if i and v.valid(h,tm.not_(1,tm.ult(64,s.len,b)))[0] is not True: continue
                    s.room[i]=next((r for r in (384,256,168,144,136,128,104,72,64,32,16,8) if v.valid(h,tm.not_(1,tm.ult(64,tm.sub(64,s.len,b),r)))[0]),0)
                    if s.room[i]>=x+n: break
            if x+n<=s.room[i]: return
        if (off,n) in s.okd: return
        end=tm.add(64,off,n); ok=None
        for h in (s.e.pc[-3:],s.e.pc[-6:],s.e.pc):
            ok,m=s.e.solver.valid(h,tm.and_(1,tm.not_(1,tm.ult(64,s.len,end)),tm.not_(1,tm.ult(64,end,n))))
            if ok is True: break
        if ok is not True: raise (Wrong('reads beyond the input',m) if ok is False else Unsupported('bounds of the input'))
        s.okd.add((off,n))
class LEx(exm.Ex):
    def __init__(s,*a,**k): exm.Ex.__init__(s,*a,**k); s.streams={}
    def stream(s,name,length,al=16):
        p=s.alloc(name,1<<62,al); p.o.ro=True; s.streams[id(p.o)]=Stream(s,name,length); return p
    def select(s,c,ty,x,y):
        if not isinstance(c,int):
            n=tm.not_(1,c)
            if c in s.pcset or s.solver.sat(s.pc+[n])=='unsat': c=1
            elif n in s.pcset or s.solver.sat(s.pc+[c])=='unsat': c=0
            else: c=int(s.truth(c,'select'))
        return exm.Ex.select(s,c,ty,x,y)
    def res(s,p):
        if isinstance(p,Ptr) and not isinstance(p.off,int):
            v=s.solver.values(s.pc,p.off,64,1)
            if v and len(v)==1: return Ptr(p.o,v[0])
        return p
    def call(s,name,*args):
        """pointers into ordinary objects are made concrete where the path determines them"""
        return exm.Ex.call(s,name,*[a if not isinstance(a,Ptr) or s.of(a.o) is not None else s.res(a) for a in args])
    def wr(s,p,n,v,al=1): return exm.Ex.wr(s,s.res(p),n,v,al)
    def of(s,o): return s.streams.get(id(o))
    def rd(s,p,n,al=1):
        st=s.of(p.o) if isinstance(p,Ptr) else None
        if st is None: return exm.Ex.rd(s,s.res(p),n,al)
        st.inside(p.off,n); return tm.concat([(st.byte(p.off+i if isinstance(p.off,int) else tm.add(64,p.off,i)),8) for i in range(n)])
    def rd_(s,o,off,n):
        st=s.of(o)
        if st is None: return exm.Ex.rd_(s,o,off,n)
        return tm.concat([(st.byte(off+i),8) for i in range(n)])
class Long:
    """cb: chain() -> list of the words the last call(s) of the compression function returned; step(t,V) -> expected words after the block of iteration t; ret(t,V,value)"""
    def __init__(s,e,cb,way,prefix): s.e=e; s.cb=cb; s.way=way; s.phase='A'; s.header=s.entry=s.cur=None; s.snaps=[]; s.sites={}; s.uniq={}; s.tried={}; s.ord=0; s.back=0; s.prefix=prefix; s.i=0; s.trail=[]; s.work=[]; e.decider=s; e.on_block=s.block; e.on_ret=s.ret
    def snap(s,regs): return list(regs),[(o,dict(o.cells)) for o in s.e.objs if not o.ro],list(s.e.pc),set(s.e.pcset),[o.dead for o in s.e.objs]
    def restore(s,sn,regs):
        r,m,pc,ps,dead=sn; regs[:]=r
        for o,c in m: o.cells=dict(c)
        for o,d in zip(s.e.objs,dead): o.dead=d
        del s.e.objs[len(dead):]
        s.e.pc=list(pc); s.e.pcset=set(ps)
    def decide(s,ex,c):
        sv=ex.solver
        if s.phase=='C' and s.i<len(s.prefix): r=s.prefix[s.i]; s.i+=1; s.trail.append(r); return r
        q=c.args[0] if c.op=='xor' and c.aux==1 and len(c.args)==1 else c
        if s.phase=='C' and q.op in('ult','eq') and len(q.args)==2 and sum(isinstance(x,int) for x in q.args)==1:
            # a quantity the path determines (the number of bytes left): evaluate
            a,b=q.args; x=b if isinstance(a,int) else a
            if x not in s.uniq and s.tried.get(x)!=len(ex.pc):
                s.tried[x]=len(ex.pc); r=sv.values(ex.pc,x,x.w,1)
                if r and len(r)==1: s.uniq[x]=r[0]
            if x in s.uniq:
                a,b=[s.uniq[y] if y is x else y for y in (a,b)]; r=(a<b if q.op=='ult' else a==b)!=(q is not c)
                s.i+=1; s.trail.append(r); return r
        t=sv.sat(ex.pc+[c]); f=sv.sat(ex.pc+[tm.not_(1,c)])
        if 'unknown' in (t,f): raise Unsupported('branch feasibility unknown')
        if t==f=='unsat': raise Infeasible()
        both=t==f=='sat'
        if s.phase=='A':
            if not both: return t=='sat'
            if s.header is None: s.header=s.cur
            k=s.cur+(s.ord,); s.ord+=1
            if k not in s.sites:
                if len(s.sites)==len(s.way): raise Unsupported('too many branches on the length')
                s.sites[k]=s.way[len(s.sites)]
            return s.sites[k]
        if both: s.work.append(s.trail+[False])
        s.i+=1; s.trail.append(t=='sat'); return t=='sat'
    def block(s,f,b,regs):
        if s.entry is None: s.entry=f.name
        s.cur=(f.name,b.idx); s.ord=0
        if s.cur!=s.header: return
        if s.phase=='A':
            s.snaps.append((s.snap(regs),s.cb.chain())); s.cb.marks.append(s.cb.n)
            if len(s.snaps)==3: s.general(f,b,regs)
            return
        s.arrive(regs); raise End()
    def ret(s,f,v,regs):
        if f.name!=s.entry: return None
        if s.phase=='A': raise Flip()
        s.cb.ret(s.t,s.V,v); raise End()
    def general(s,f,b,regs):
        # u: bytes consumed since the first snapshot, a multiple of the step (u = step*(t-1), a relation needed only if something counts iterations)
        (A,c1),(B,c2),(C,c3)=s.snaps; t=s.t=tm.var('t',64); R=s.cb.stride(); k=(R&-R).bit_length()-1; u=s.u=tm.concat([(0,k),(tm.var('u',64-k),64-k)]); rel=[0]; s.V=[tm.var(f'V{i}',64) for i in range(len(c1))]
        chain={(id(x),id(y),id(z)):v for x,y,z,v in zip(c1,c2,c3,s.V)}; s.lin=[]; s.cst=[]; s.chn=[]; nj=[0]
        def gen(x,y,z,w,where):
            if isinstance(x,tuple) and isinstance(y,tuple) and isinstance(z,tuple) and len(x)==len(y)==len(z): return tuple(gen(p,q,r,w,where+(i,)) for i,(p,q,r) in enumerate(zip(x,y,z)))
            if isinstance(x,Ptr) and isinstance(y,Ptr) and isinstance(z,Ptr) and x.o is y.o is z.o:
                o=gen(x.off,y.off,z.off,64,where+('off',)); return None if o is None else Ptr(x.o,o)
            if (id(x),id(y),id(z)) in chain: v=chain[id(x),id(y),id(z)]; s.chn.append((where,v)); return v
            if x is y is z or (isinstance(x,int) and x==y==z): s.cst.append((where,x)); return x
            if not any(isinstance(q,(Ptr,tuple)) or q is None for q in (x,y,z)) and w:
                m=M(w); d=tm.sub(w,y&m if isinstance(y,int) else y,x&m if isinstance(x,int) else x); d2=tm.sub(w,z&m if isinstance(z,int) else z,y&m if isinstance(y,int) else y)
                if not isinstance(d,int) or not isinstance(d2,int):
                    q=[s.e.solver.values(s.e.pc,u,w,1) if not isinstance(u,int) else [u] for u in (d,d2)] if where[0]=='r' else [None]
                    if all(u and len(u)==1 for u in q): d,d2=q[0][0],q[1][0]
                if isinstance(d,int) and d==d2:
                    dd=d-(1<<w) if d>>w-1 else d
                    if dd%R==0: base,f,tt=R,(dd//R)&M(w),u
                    else: base,f,tt=1,d,tm.sub(64,t,1); rel[0]=1
                    if w<64: tt=tm.ext(tt,0,w,64)
                    g=lambda k,x=x,f=f,w=w,tt=tt,base=base: tm.add(w,x&M(w) if isinstance(x,int) else x,tm.mul(w,tm.add(w,tt,(k+1)*base&M(w)),f))
                    s.lin.append((where,g,w)); return g(-1)
            return None
        wid={d:(y.bits if y.k=="i" else 64 if y.k=="ptr" else y.el.bits if y.k=="vec" else 0) for bb in f.blocks for _,d,y,_ in bb.phis}
        rg=[gen(x,y,z,wid.get(i,0),('r',i)) for i,(x,y,z) in enumerate(zip(A[0],B[0],C[0]))]
        mem=[]
        for (o,c),(o2,d),(o3,g) in zip(A[1],B[1],C[1]):
            if not(o is o2 is o3): raise Unsupported('objects appear in the loop')
            cells={}
            if {k:v[0] for k,v in c.items()}=={k:v[0] for k,v in d.items()}=={k:v[0] for k,v in g.items()}:
                for k,(n,x) in c.items():
                    v=gen(x,d[k][1],g[k][1],8*n,('m',o,k,n))
                    if v is None: nj[0]+=1; v=tm.var(f'junk{nj[0]}',8*n)
                    cells[k]=(n,v)
            else:
                # different cell layouts: by bytes, unknown where they differ
                for k in range(o.size):
                    q=[]
                    for cc in (c,d,g):
                        cov=any(z<=k<z+cc[z][0] for z in range(max(0,k-7),k+1) if z in cc)
                        if cov: o.cells=dict(cc); q.append(s.e.rd_(o,k,1))
                    if len(q)==3:
                        v=gen(*q,8,('m',o,k,1))
                        if v is None: nj[0]+=1; v=tm.var(f'junk{nj[0]}',8)
                        cells[k]=(1,v)
            mem.append((o,cells))
        if not s.chn: raise Unsupported('no chaining value at the loop header')
        s.phase='C'; s.restore((rg,mem,A[2],A[3],A[4]),regs)
        for x in s.e.streams.values(): x.norm={}; x.okd=set(); x.room={}; x.reps=[]
        s.cb.general(t,s.V)
        if rel[0]: s.e.assume(tm.eq(64,u,tm.mul(64,tm.sub(64,t,1),R))); s.e.assume(tm.not_(1,tm.eq(64,t,0))); s.e.assume(tm.ult(64,t,1<<50))
    def at(s,where,regs):
        if where[0]=='r': x=regs[where[1]]; rest=where[2:]
        else:
            _,o,k,n=where[:4]; x=s.e.rd_(o,k,n); rest=where[4:]
        for i in rest: x=(x.off if isinstance(x,Ptr) else None) if i=='off' else x[i]
        return x
    def arrive(s,regs):
        """back at the header: the general state for t+1"""
        s.back+=1; sv=s.e.solver; new=s.cb.step(s.t,s.V); mp=dict(zip(map(id,s.V),new))
        for w,v in s.chn:
            x=s.at(w,regs)
            if x is not mp[id(v)]:
                ok,m=sv.valid(s.e.pc,tm.eq(64,x,mp[id(v)])) if not isinstance(x,(Ptr,tuple)) and x is not None else (None,None)
                if ok is not True: raise (Wrong('the chaining value after a block is not the compression of that block',m) if ok is False else Unsupported('chaining value'))
        for w,g,b in s.lin:
            x=s.at(w,regs); ok,m=sv.valid(s.e.pc,tm.eq(b,x,g(0)))
            if ok is not True: raise Unsupported(f'not linear in the block number: {w}')
        for w,v in s.cst:
            x=s.at(w,regs)
            if x is v or isinstance(x,int) and x==v: continue
            if w[0]=='r' : continue_ok=x is None
            else: continue_ok=False
            if not continue_ok and not(not isinstance(x,(Ptr,tuple)) and not isinstance(v,(Ptr,tuple)) and x is not None and sv.valid(s.e.pc,tm.eq(max(getattr(x,'w',0),getattr(v,'w',0)),x,v))[0] is True): raise Unsupported(f'not constant over blocks: {w}')
def run(mk,call,limit=400):
    """mk() -> (engine, callback); call(engine) runs the function. -> number of paths of the general iteration, last engine"""
    for way in ((True,True),(False,False),(True,False),(False,True)):
        work=[[]]; paths=back=0
        try:
            while work:
                e,cb=mk(); L=Long(e,cb,way,work.pop()); cb.loop=L; paths+=1
                if paths>limit: raise Unsupported('paths')
                try: call(e)
                except End: pass
                except Infeasible: pass
                else: raise Unsupported('no loop over blocks')
                work+=L.work; back+=L.back
        except Flip: continue
        if not back: raise Unsupported('the loop is not repeated from the general state')
        return paths,e
    raise Unsupported('no loop over blocks')
