"""The Solver interface decided over linear integer arithmetic (terms read through the integer domain); falls back to bit-vectors."""
import z3
import terms as tm
from solve import Solver
from intdom import ID,TooBig
class Lia(Solver):
    def __init__(s,timeout=20000,ranges=()):
        Solver.__init__(s,timeout); s.I=ID()
        for t,lo,hi in ranges: s.I.declare(t,lo,hi)
    def sat(s,cs,to=None,model=False):
        cl=[];st=list(cs)
        while st:
            c=st.pop()
            if isinstance(c,int):
                if not c: return 'unsat'
                continue
            if c.op=='and' and c.w==1 and len(c.args)>1: st+=list(c.args)
            else: cl.append(c)
        if not cl: s.model_={}; return 'sat'
        key=frozenset(c.id for c in cl)
        if not model and key in s.cache: return s.cache[key]
        try:
            Ps=[s.I.exact(c)[0] for c in cl]
            z,L,V,val=s.I.lra(Ps,True)
            for P in Ps: z.add(L(P)==val(1))
            r=s.I.check(z,to or s.to)
        except TooBig: r='unknown'
        if r=='sat':
            m=z.model(); s.model_={}
            for v in tm.popc_vars(cl):
                a=s.I.vars.get(v); q=m.eval(V[a.id],model_completion=True).as_long() if a is not None and a.id in V else 0
                s.model_[v]=q
            ev=tm.evalt(cl,s.model_)
            if not all(ev): r='unknown'
        if r=='unknown': return Solver.sat(s,cs,to,model)
        s.cache[key]=r
        return r
