"""Term -> z3 bit-vector translation, with counters of queries and solver time."""
import time, z3
import terms as tm
from terms import T,M
STAT={'queries':0,'time':0.0,'unsat':0,'sat':0,'unknown':0,'lia':0}
def bool2bv(b): return z3.If(b,z3.BitVecVal(1,1),z3.BitVecVal(0,1))
class Tr:
    """translates terms to z3; 1-bit terms are kept as BV(1)"""
    def __init__(s): s.memo={}; s.vars={}
    def bv(s,t,w=None):
        if isinstance(t,int): return z3.BitVecVal(t,w)
        m=s.memo
        r=m.get(t)
        if r is not None: return r
        for x in tm.topo([t]):
            if x not in m: m[x]=s.one(x)
        return m[t]
    def boolean(s,t):
        if isinstance(t,int): return z3.BoolVal(bool(t))
        if t.op in('eq','ult','slt') :
            s.bv(t); return s.bm[t]
        return s.bv(t)==z3.BitVecVal(1,1)
    bm={}
    def one(s,t):
        op=t.op;w=t.w
        V=lambda x,ww: z3.BitVecVal(x,ww) if isinstance(x,int) else s.memo[x]
        if op=='var':
            v=z3.BitVec(t.args[0],w); s.vars[t]=v; return v
        if op=='cat':
            ps=[]
            for x,lo,n in t.args:
                if x is None: ps.append(z3.BitVecVal(lo,n))
                else:
                    e=s.memo[x]
                    ps.append(e if lo==0 and n==x.w else z3.Extract(lo+n-1,lo,e))
            return ps[0] if len(ps)==1 else z3.Concat(*ps[::-1])
        if op=='lin':
            r=None
            for x,c in t.args:
                e=s.memo[x]
                if c==1: y=e
                elif c==M(w): y=-e
                else: y=e*z3.BitVecVal(c,w)
                r=y if r is None else r+y
            return r+z3.BitVecVal(t.aux,w) if t.aux else r
        if op in('xor','and','or'):
            r=None
            for x in t.args:
                e=s.memo[x]
                r=e if r is None else (r^e if op=='xor' else r&e if op=='and' else r|e)
            if op=='xor' and t.aux: r=~r if t.aux==M(w) else r^z3.BitVecVal(t.aux,w)
            if op=='and' and t.aux!=M(w): r=r&z3.BitVecVal(t.aux,w)
            if op=='or' and t.aux: r=r|z3.BitVecVal(t.aux,w)
            return r
        if op=='mul':
            return V(t.args[0],w)*V(t.args[1],w)
        if op=='udiv': return z3.UDiv(V(t.args[0],w),V(t.args[1],w))
        if op=='urem': return z3.URem(V(t.args[0],w),V(t.args[1],w))
        if op=='ite':
            c=t.args[0]
            b=s.bm.get(c) if c.op in('eq','ult','slt') else None
            if b is None or c not in s.memo: b=s.memo[c]==z3.BitVecVal(1,1)
            return z3.If(b,V(t.args[1],w),V(t.args[2],w))
        a=t.aux
        if op in('eq','ult','slt'):
            x,y=V(t.args[0],a),V(t.args[1],a)
            b=x==y if op=='eq' else z3.ULT(x,y) if op=='ult' else x<y
            s.bm[t]=b
            return bool2bv(b)
        if op=='cry':
            z=lambda q,k:z3.ZeroExt(k,q)
            x=z(V(t.args[0],a),1)+z(V(t.args[1],a),1)+z(V(t.args[2],1),a)
            return z3.Extract(a,a,x)
        if op=='brw':
            z=lambda q,k:z3.ZeroExt(k,q)
            return bool2bv(z3.ULT(z(V(t.args[0],a),1),z(V(t.args[1],a),1)+z(V(t.args[2],1),a)))
        if op=='shl': return V(t.args[0],w)<<V(t.args[1],w)
        if op=='lshr': return z3.LShR(V(t.args[0],w),V(t.args[1],w))
        if op=='ashr': return V(t.args[0],w)>>V(t.args[1],w)
        if op=='sext': return z3.SignExt(w-t.args[0].w,V(t.args[0],t.args[0].w))
        raise NotImplementedError(op)
class Solver:
    def __init__(s,timeout=20000):
        s.tr=Tr(); s.tr.bm={}; s.to=timeout; s.cache={}; s.model_=None
    def _mk(s,to): 
        z=z3.SolverFor('QF_BV'); z.set('timeout',to or s.to); return z
    def sat(s,cs,to=None,model=False):
        """cs: list of 1-bit terms (conjunction)"""
        cl=[]
        for c in cs:
            if isinstance(c,int):
                if c==0: return 'unsat'
                continue
            cl.append(c)
        if not cl:
            s.model_={}; return 'sat'
        key=frozenset(c.id for c in cl)
        if not model and key in s.cache: return s.cache[key]
        z=s._mk(to)
        for c in cl: z.add(s.tr.boolean(c))
        t0=time.time(); r=str(z.check()); dt=time.time()-t0
        STAT['queries']+=1; STAT['time']+=dt; STAT[r]+=1
        if r=='sat':
            m=z.model(); s.model_={}
            for v in tm.popc_vars(cl):
                q=m.eval(s.tr.vars[v],model_completion=True); s.model_[v]=q.as_long()
        s.cache[key]=r
        return r
    def same(s,pairs,to=None):
        """can any pair differ?  no short cut for pairs that are the same node"""
        pairs=[p for p in pairs if p]
        if not pairs: return 'unsat'
        z=s._mk(to); z.add(z3.Or(*[s.tr.bv(a,a.w)!=s.tr.bv(b,a.w) for a,b in pairs])); t0=time.time(); r=str(z.check()); dt=time.time()-t0
        STAT['queries']+=1; STAT['time']+=dt; STAT[r]+=1
        return r
    def valid(s,pc,c,to=None):
        """is c true under pc?  -> (bool|None, model)"""
        r=s.sat(list(pc)+[tm.not_(1,c)],to,model=True)
        if r=='unsat': return True,None
        if r=='sat': return False,s.model_
        return None,None
    def values(s,pc,t,w,limit):
        out=[]; z=s._mk(None)
        for c in pc:
            if isinstance(c,int): continue
            z.add(s.tr.boolean(c))
        e=s.tr.bv(t,w)
        while True:
            t0=time.time(); r=str(z.check()); STAT['queries']+=1; STAT['time']+=time.time()-t0; STAT[r]+=1
            if r=='unknown': return None
            if r=='unsat': return out
            v=z.model().eval(e,model_completion=True).as_long()
            out.append(v)
            if len(out)>limit: return None
            z.add(e!=z3.BitVecVal(v,w))
