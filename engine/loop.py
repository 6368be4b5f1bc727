"""Loop cut: a loop whose iterations branch on symbolic data is executed one iteration at a time. Every path through an iteration, from a state
that the caller has made general, is checked when it comes back to the loop header (or returns); then the state is made general again."""
import terms as tm
from ex import Unsupported,Infeasible
class Done(Exception): pass
class LoopCut:
    """cb: object with probe(lc,regs), start(lc,n,regs), end(lc,n,regs), ret(lc,n,value,regs)"""
    def __init__(s,e,fn,cb,solver,maxn=2000,only=None):
        # only=(k,n): check every n-th iteration (the others are merely stepped through along one path); the union over k covers all
        s.only=only
        s.e=e; s.fn=fn; s.cb=cb; s.sv=solver; s.seen=set(); s.first={}; s.header=None; s.symbolic=False; s.n=-1; s.base=None; s.prefix=[]; s.cur=[]; s.i=0; s.work=[]; s.arr=None; s.paths=0; s.maxn=maxn; s.jump=False
        e.on_block=s.block; e.on_ret=s.ret; e.decider=s
    # snapshots
    def snap(s,regs): return list(regs),[(o,dict(o.cells)) for o in s.e.objs if not o.ro],list(s.e.pc),set(s.e.pcset),[o.dead for o in s.e.objs]
    def restore(s,sn,regs):
        r,m,pc,ps,dead=sn; regs[:]=r
        for o,c in m: o.cells=dict(c)
        for o,d in zip(s.e.objs,dead): o.dead=d
        del s.e.objs[len(dead):]
        s.e.pc=list(pc); s.e.pcset=set(ps)
    def decide(s,ex,c):
        if s.header is None:
            s.symbolic=True; t=s.sv.sat(ex.pc+[c]); return t=='sat'    # probe: any path
        if s.i<len(s.prefix): r=s.prefix[s.i]
        else:
            t=s.sv.sat(ex.pc+[c]); f=s.sv.sat(ex.pc+[tm.not_(1,c)])
            if 'unknown' in (t,f): raise Unsupported('branch feasibility unknown')
            if t==f=='unsat': raise Infeasible()
            if t==f=='sat': s.work.append(s.cur+[False]); r=True
            else: r=t=='sat'
        s.i+=1; s.cur.append(r); return r
    def skip(s): return s.only is not None and s.n%s.only[1]!=s.only[0]
    def begin(s,regs):
        """state of iteration n in place: make it general"""
        s.n+=1
        if s.n>s.maxn: raise Unsupported('loop does not end')
        s.cb.start(s,s.n,regs); s.base=s.snap(regs); s.work=[]; s.arr=None; s.prefix=[]; s.cur=[]; s.i=0
    def next(s,regs):
        """a path is finished: next one, or next iteration"""
        s.paths+=1
        if s.work:
            s.prefix=s.work.pop(); s.cur=[]; s.i=0; s.restore(s.base,regs); return
        if s.arr is None: raise Done()
        s.restore(s.arr,regs); s.begin(regs)
    def block(s,f,b,regs):
        if f.name!=s.fn: return
        if s.header is None:
            if not s.symbolic:
                if b.idx not in s.first: s.first[b.idx]=s.snap(regs)
                s.last=b.idx
                return
            if b.idx not in s.first: s.first[b.idx]=s.snap(regs); return
            s.header=b.idx; s.cb.probe(s,s.first[b.idx],regs); s.restore(s.first[b.idx],regs); s.begin(regs); return
        if b.idx!=s.header: return
        if s.jump: s.jump=False; return
        if not s.skip(): s.cb.end(s,s.n,regs)
        else: s.work=[]
        if s.arr is None: s.arr=s.snap(regs)
        s.next(regs)
    def ret(s,f,v,regs):
        if f.name!=s.fn: return None
        if s.header is None:
            s.cb.noloop(s,v,regs); return None
        if not s.skip(): s.cb.ret(s,s.n,v,regs)
        s.next(regs); s.jump=True; return s.header
def places(e,sn,values,objs):
    """where the given terms are held: registers and memory words"""
    regs,mem=sn[0],sn[1]; out=[[('r',i) for i,x in enumerate(regs) if x is v] for v in values]
    for o,c in mem:
        if o not in objs or not c: continue
        cov=set()
        for off,(n,_) in c.items(): cov.update(range(off,off+n))
        keep=o.cells; o.cells=dict(c)
        for off in range(0,o.size-7,8):
            if all(off+i in cov for i in range(8)):
                x=e.rd_(o,off,8)
                for k,v in enumerate(values):
                    if x is v: out[k].append(('m',o,off))
        o.cells=keep
    return out
