"""Multi-word integers: hooks and decisions over whole numbers in the integer domain."""
import z3
import terms as tm
from terms import T
from intdom import padd,pconst,ZERO,Poly
def bytes_in(e,name,nb,lo_align=32,zero_tail=0):
    """buffer of nb bytes holding one nb*8-bit variable (plus zero_tail zero bytes)"""
    p=e.alloc(name,nb+zero_tail,lo_align); v=tm.var(name,8*nb)
    for i in range(nb): e.wr_(p.o,i,1,tm.ext(v,8*i,8,8*nb))
    for i in range(zero_tail): e.wr_(p.o,nb+i,1,0)
    return p,v
def limbs(e,p,k):
    return [e._int(e.rd(e.padd(p,8*i),8)) for i in range(k)]
def number(xs,w,tw=64):
    """little-endian limbs -> one w-bit term"""
    if all(isinstance(x,int) for x in xs): return sum(x<<tw*i for i,x in enumerate(xs))&tm.M(w)
    k=len(xs)*tw
    return tm.concat([(x,tw) for x in xs]+([(0,w-k)] if k<w else []))
def h_mac(e,C,A,na,B,nb):
    """C += A*B on na+nb+1 words (proved of the real function separately)"""
    n=na+nb+1; w=64*n
    a,b=number(limbs(e,A,na),w),number(limbs(e,B,nb),w)
    m=(a*b)&tm.M(w) if isinstance(a,int) and isinstance(b,int) else tm.mul(w,a,b)
    V=tm.add(w,number(limbs(e,C,n),w),m)
    for i in range(n): e.wr(e.padd(C,8*i),8,(V>>64*i)&tm.M(64) if isinstance(V,int) else tm.ext(V,64*i,64,w))
def _conds(ts):
    out=[]
    for t in tm.topo(ts):
        if t.op=='ite' and isinstance(t.args[0],T) and (isinstance(t.args[1],T) or isinstance(t.args[2],T)) and t.args[0] not in out: out.append(t.args[0])
    return out
def cases(I,ts,to,maxc=8):
    """case split on selections: yields (terms, [(condition polynomial,value)]) for the feasible ones"""
    def rec(ts,facts,d):
        cs=_conds([t for t in ts if isinstance(t,T)])
        if not cs: yield ts,facts; return
        if d>=maxc: raise TooMany()
        c=cs[0]; P=I.exact(c)[0]
        for k in (0,1):
            z,L,V,val=I.lra([P]+[p for p,_ in facts],True)
            for p,v in facts+[(P,k)]: z.add(L(p)==val(v))
            if I.check(z,to)=='unsat': continue
            yield from rec(tm.subst(ts,{c:k}),facts+[(P,k)],d+1)
    yield from rec(list(ts),[],0)
class TooMany(Exception): pass
def total(I,ts,tw=64):
    tot=ZERO
    for i,t in enumerate(ts): tot=padd(tot,I.exact(t)[0] if isinstance(t,T) else pconst(t),1<<(tw*i))
    return tot
def decide(I,outs,src,p,mult=1,tw=64,to=20000,bound=None,pre=()):
    """mult*number(outs)==src (mod p) and number(outs)<bound, for all atom values satisfying pre=[(poly,lo,hi)].
    (True,None) | (False,{var:value}) | (None,why)"""
    try:
        for ts,facts in cases(I,outs,to):
            r=_decide(I,total(I,ts,tw),src,p,mult,facts,to,bound if bound is not None else p,pre)
            if r[0] is not True: return r
        return True,None
    except TooMany: return None,'too many selections'
def _decide(I,tot,src,p,mult,facts,to,bound,pre):
    D=padd(tot if mult==1 else Poly({m:c*mult for m,c in tot.d.items()}),src,-1)
    if p: D=I.modp(D,p)
    z,L,V,val=I.lra([tot,D]+[q for q,_ in facts]+[q for q,_,_ in pre],True)
    for q,v in facts: z.add(L(q)==val(v))
    for q,lo,hi in pre: z.add(L(q)>=val(lo),L(q)<=val(hi))
    groups={}
    for m,c in D.d.items():
        if m: groups.setdefault(abs(c),{})[m]=1 if c>0 else -1
    gs=[(c*next(iter(d.values())),d) if len(d)==1 else (c,d) for c,d in groups.items()]; gs=[(c,{m:1 for m in d} if len(d)==1 else d) for c,d in gs]; ev=[]
    if len(gs)>12: return None,f'residual with {len(gs)} coefficients'
    for c,d in gs:
        if len(d)==1 and next(iter(d.values()))==1: ev.append(L(Poly(d))); continue
        x=z3.Int(f'grp{len(ev)}'); z.add(x==L(Poly(d))); ev.append(x)
    def model():
        m=z.model(); return {I.at[i].name:m.eval(v,model_completion=True).as_long() for i,v in V.items() if I.at[i].kind=='var'}
    def rec(k,fixed):
        r=I.check(z,to)
        if r=='unsat': return True,None
        if r!='sat': return None,'solver'
        if k==len(gs):
            v=D.d.get((),0)+sum(c*v for (c,_),v in zip(gs,fixed))
            if (v%p if p else v): return False,model()
            if bound is None or bound<0: return True,None
            z.push(); z.add(z3.Or(L(tot)<val(0),L(tot)>=val(bound))); r=I.check(z,to)
            out=(True,None) if r=='unsat' else (None,'range: solver') if r!='sat' else (False,model())
            z.pop(); return out
        seen=0; z.push()
        try:
            while True:
                r=I.check(z,to)
                if r=='unsat': return True,None
                if r!='sat': return None,'solver'
                v=z.model().eval(ev[k],model_completion=True).as_long(); seen+=1
                if seen>8: return None,'too many quotient values'
                z.push(); z.add(ev[k]==val(v)); x=rec(k+1,fixed+[v]); z.pop()
                if x[0] is not True: return x
                z.add(ev[k]!=val(v))
        finally: z.pop()
    return rec(0,[])
