"""Integer-polynomial semantics of bit-vector terms.

rep(t) = (P,lo,hi): P a polynomial over bounded integer atoms, value(t) == P (mod 2^w), lo<=P<=hi.
The only non-polynomial primitive is floor division by a power of two; every distinct quotient is one atom
q=floor(P/2^k), with the defining facts 0 <= P-2^k*q < 2^k, which go to the SMT solver on demand."""
import time, z3
import terms as tm
from terms import T,M
from solve import STAT
class Poly:
    __slots__=('d','_k')
    def __init__(s,d): s.d=d; s._k=None
    def key(s):
        if s._k is None: s._k=frozenset(s.d.items())
        return s._k
    def __repr__(s): return ' + '.join(f'{c:#x}*{m}' for m,c in list(s.d.items())[:8]) or '0'
ZERO=Poly({})
def pconst(c): return Poly({():c}) if c else ZERO
def padd(a,b,k=1):
    if not b.d: return a
    d=dict(a.d)
    for m,c in b.d.items():
        v=d.get(m,0)+k*c
        if v: d[m]=v
        else: d.pop(m,None)
    return Poly(d)
def pscale(a,k):
    if k==0: return ZERO
    if k==1: return a
    return Poly({m:c*k for m,c in a.d.items()})
class Atom:
    __slots__=('id','lo','hi','kind','P','k','t','name')
class TooBig(Exception): pass

class ID:
    def __init__(s,limit=20000):
        s.at=[]; s.divs={}; s.memo={}; s.vars={}; s.opq={}; s.limit=limit; s.consts={}; s.extra=[]; s.bitatoms={}
        s.proved=0; s.cform={}; s.more={}; s.nopair=set(); s.mf={}; s.macro=0
    def atom(s,lo,hi,kind,name='',t=None,P=None,k=None):
        a=Atom(); a.id=len(s.at); a.lo=lo;a.hi=hi;a.kind=kind;a.name=name;a.t=t;a.P=P;a.k=k
        s.at.append(a); return a
    def patom(s,a):
        if a.lo==a.hi: return pconst(a.lo)
        return Poly({(a.id,):1})
    def declare(s,t,lo,hi,name=None):
        """declare the range of an input variable term"""
        a=s.atom(lo,hi,'var',name or t.args[0],t); s.vars[t]=a
        s.memo[t]=(s.patom(a),lo,hi); return a
    # ------------------------------------------------------- polynomials
    def pmul(s,a,b):
        if len(a.d)*len(b.d)>s.limit*8: raise TooBig('pmul')
        d={}
        at=s.at
        for m1,c1 in a.d.items():
            for m2,c2 in b.d.items():
                if not m1: m=m2
                elif not m2: m=m1
                else: m=s.mmul(m1,m2)
                v=d.get(m,0)+c1*c2
                d[m]=v
        return Poly({m:c for m,c in d.items() if c})
    def mmul(s,m1,m2):
        m=tuple(sorted(m1+m2))
        # idempotent booleans
        out=[];p=-1
        for i in m:
            if i==p:
                a=s.at[i]
                if a.lo==0 and a.hi==1: continue
            out.append(i);p=i
        return tuple(out)
    def mrange(s,m):
        lo=hi=1
        for i in m:
            a=s.at[i]
            c=(lo*a.lo,lo*a.hi,hi*a.lo,hi*a.hi); lo=min(c);hi=max(c)
        return lo,hi
    def range(s,P):
        lo=hi=0
        for m,c in P.d.items():
            if len(m)==1:
                a=s.at[m[0]]; x,y=a.lo,a.hi
            elif not m: x=y=1
            else: x,y=s.mrange(m)
            if c>0: lo+=c*x;hi+=c*y
            else: lo+=c*y;hi+=c*x
        return lo,hi
    def div(s,P,lo,hi,k):
        """floor(P/2^k) -> (poly,lo,hi)"""
        if k==0: return P,lo,hi
        k0=k
        if lo>>k==hi>>k: return pconst(lo>>k),lo>>k,lo>>k
        A={};B={};h=1<<k; half=h>>1
        for m,c in P.d.items():
            r=c%h
            if r>half or (r==half and False): r-=h
            if m==() : r=c%h
            if r: B[m]=r
            if c!=r: A[m]=(c-r)>>k
        if not B:
            return Poly(A),lo>>k,hi>>k
        Bp=Poly(B); A=Poly(A)
        if not any(m for m in A.d):
            ac=A.d.get((),0); bl,bh=lo-(ac<<k),hi-(ac<<k)
            l2,h2=s.range(Bp); bl=max(bl,l2);bh=min(bh,h2)
        else: bl,bh=s.range(Bp)
        ql,qh=bl>>k,bh>>k
        if ql==qh: Q=padd(A,pconst(ql))
        else:
            # common power of two
            g=k
            for m,c in Bp.d.items():
                if m: g=min(g,(c&-c).bit_length()-1)
            if g:
                Bp=Poly({m:(c>>g) for m,c in Bp.d.items() if m or c>>g}); k-=g
                l2,h2=s.range(Bp); ql=max(ql,l2>>k); qh=min(qh,h2>>k)
            # low part that cannot reach the quotient
            gs=sorted({(c&-c).bit_length()-1 for m,c in Bp.d.items()})
            for g in gs[:0:-1]:
                if g>k: g=k
                R=Poly({m:c for m,c in Bp.d.items() if c%(1<<g)})
                l2,h2=s.range(R)
                if l2>=0 and h2<1<<g:
                    Bp=Poly({m:c>>g for m,c in Bp.d.items() if not c%(1<<g)}); k-=g
                    break
            if len(Bp.d)==1:
                (m,c),=Bp.d.items()
                if c==1 and k==0:
                    return s._fin(padd(A,Bp),lo,hi,k0)
            ck,cb=s.canon(Bp,k)
            a=s.divs.get((cb.key(),ck))
            if a is None:
                a=s.atom(ql,qh,'div',P=Bp,k=k); s.divs[cb.key(),ck]=a; s.cform[a.id]=(cb,ck)
            else:
                a.lo=max(a.lo,ql);a.hi=min(a.hi,qh)
                if (a.k!=k or a.P.key()!=Bp.key()):
                    o=s.more.setdefault(a.id,[])
                    if len(o)<3 and all(x[1]!=k or x[0].key()!=Bp.key() for x in o) and all(j<a.id for m in Bp.d for j in m): o.append((Bp,k))
            Q=padd(A,s.patom(a))
        return s._fin(Q,lo,hi,k0)
    def _fin(s,Q,lo,hi,k):
        l2,h2=s.range(Q)
        return Q,max(lo>>k,l2),min(hi>>k,h2)
    def canon(s,P,k):
        """unfold nested floors: floor((floor(R/2^j)+X)/2^k) = floor((R+2^j X)/2^(j+k))"""
        while len(P.d)<200:
            c=None
            for m,cf in P.d.items():
                if cf==1 and len(m)==1 and m[0] in s.cform and (c is None or m[0]>c): c=m[0]
            if c is None: break
            R,j=s.cform[c]
            d=dict(P.d); del d[(c,)]
            P=padd(R,Poly(d),1<<j); k+=j
            # reduce a common power of two
            g=min([k]+[(cf&-cf).bit_length()-1 for m,cf in P.d.items() if m])
            if g: P=Poly({m:cf>>g for m,cf in P.d.items() if m or cf>>g}); k-=g
            # whole multiples of 2^k stay inside: they only shift the quotient when constant
        return k,P
    def norm(s,P,lo,hi,w):
        """unsigned value in [0,2^w) congruent to P"""
        if lo>=0 and hi>>w==0: return P,lo,hi
        q=lo>>w
        if hi>>w==q: return padd(P,pconst(-(q<<w))),lo-(q<<w),hi-(q<<w)
        Q,ql,qh=s.div(P,lo,hi,w)
        R=padd(P,Q,-(1<<w))
        l,h=s.range(R)
        return R,max(l,0),min(h,M(w))
    def snorm(s,P,lo,hi,w):
        h=1<<(w-1)
        if lo>=-h and hi<h: return P,lo,hi
        R,l,u=s.norm(padd(P,pconst(h)),lo+h,hi+h,w)
        return padd(R,pconst(-h)),l-h,u-h
    # ------------------------------------------------------- terms
    def rep(s,t):
        if isinstance(t,int): return pconst(t),t,t
        r=s.memo.get(t)
        if r is None:
            for x in tm.topo([t]):
                if x not in s.memo:
                    P,lo,hi=s.one(x)
                    if len(P.d)>s.limit: raise TooBig(f'{x.op} {x.w}')
                    s.memo[x]=(P,lo,hi)
            r=s.memo[t]
        return r
    def exact(s,t,w=None):
        if isinstance(t,int): return pconst(t),t,t
        k=('e',t)
        r=s.memo.get(k)
        if r is None:
            r=s.memo[k]=s.norm(*s.rep(t),t.w)
        return r
    def signed(s,t,w):
        if isinstance(t,int):
            v=tm._sg(t,w); return pconst(v),v,v
        return s.snorm(*s.rep(t),t.w)
    def opaque(s,t,lo=0,hi=None):
        a=s.opq.get(t)
        if a is None:
            a=s.atom(lo,M(t.w) if hi is None else hi,'opaque',tm.show(t,2),t); s.opq[t]=a
        return s.patom(a),a.lo,a.hi
    def add(s,*xs):
        """xs: ((P,lo,hi),k)"""
        P=ZERO;lo=hi=0
        for (p,l,h),k in xs:
            P=padd(P,p,k)
            if k>0: lo+=k*l;hi+=k*h
            else: lo+=k*h;hi+=k*l
        l2,h2=s.range(P)
        return P,max(lo,l2),min(hi,h2)
    def one(s,t):
        op=t.op;w=t.w
        if op=='var':
            a=s.atom(0,M(w),'var',t.args[0],t); s.vars[t]=a; return s.patom(a),0,M(w)
        if op=='lin':
            h=1<<(w-1); xs=[]
            for x,c in t.args: xs.append((s.memo[x],c-(1<<w) if c>h else c))
            r=s.add(*xs)
            c=t.aux
            # choose the representative of the constant that keeps the range inside [0,2^w) if possible
            P,lo,hi=r
            for k in (c,c-(1<<w)):
                if lo+k>=0 and hi+k<=M(w): return padd(P,pconst(k)),lo+k,hi+k
            k=c-(1<<w) if c>h else c
            return padd(P,pconst(k)),lo+k,hi+k
        if op=='cat':
            xs=[];o=0;n=len(t.args)
            for i,(x,lo,k) in enumerate(t.args):
                if x is None:
                    xs.append(((pconst(lo),lo,lo),1<<o))
                else:
                    q=s.div(*s.memo[x],lo)
                    if i<n-1 or True and not(i==n-1): q=s.norm(*q,k)
                    elif n>1 and o+k==w:
                        # top segment: congruence is enough, but keep it exact when cheap
                        pass
                    xs.append((q,1<<o))
                o+=k
            return s.add(*xs)
        if op=='mul':
            a=s.rep(t.args[0]);b=s.rep(t.args[1])
            P=s.pmul(a[0],b[0])
            if t.args[0] is t.args[1]:
                hi=max(a[1]*a[1],a[2]*a[2]); lo=0 if a[1]<=0<=a[2] else min(a[1]*a[1],a[2]*a[2])
            else:
                c=(a[1]*b[1],a[1]*b[2],a[2]*b[1],a[2]*b[2]); lo,hi=min(c),max(c)
            l2,h2=s.range(P)
            return P,max(lo,l2),min(hi,h2)
        if op=='sext':
            return s.signed(t.args[0],t.args[0].w)
        if op=='ite':
            B=s.exact(t.args[0]); a=s.rep(t.args[1]);b=s.rep(t.args[2])
            D=padd(a[0],b[0],-1)
            P=padd(b[0],s.pmul(B[0],D))
            return P,min(a[1],b[1]),max(a[2],b[2])
        if op in('ult','brw'):
            W=t.aux
            xs=[(s.exact(t.args[0]),1),(s.exact(t.args[1]),-1)]
            if op=='brw': xs.append((s.exact(t.args[2]),-1))
            P,lo,hi=s.add(*xs)
            q,l,h=s.div(P,lo,hi,W)
            return pscale(q,-1),-h,-l
        if op=='slt':
            W=t.aux
            P,lo,hi=s.add((s.signed(t.args[0],W),1),(s.signed(t.args[1],W),-1))
            q,l,h=s.div(P,lo,hi,W)
            return pscale(q,-1),-h,-l
        if op=='cry':
            W=t.aux
            P,lo,hi=s.add(*[(s.exact(x),1) for x in t.args])
            return s.div(P,lo,hi,W)
        if op in('and','or','xor') and (w==1 or (op!='and' and t.aux==0 or op=='and' and t.aux&1) and all(tm.umax(x,w)<=1 for x in t.args)):
            P=None
            for x in t.args:
                q=s.exact(x)[0]
                if P is None: P=q
                elif op=='and': P=s.pmul(P,q)
                elif op=='xor': P=padd(padd(P,q),s.pmul(P,q),-2)
                else: P=padd(padd(P,q),s.pmul(P,q),-1)
            if op=='xor' and t.aux&1: P=padd(pconst(1),P,-1)
            lo,hi=s.range(P)
            return P,max(lo,0),min(hi,1)
        if op=='xor' and t.aux==M(w) and len(t.args)==1:
            P,lo,hi=s.rep(t.args[0])
            return padd(pconst(-1),P,-1),-1-hi,-1-lo
        if op=='eq':
            W=t.aux
            if isinstance(t.args[1],int) and t.args[1] in(0,M(W)):
                P,lo,hi=s.exact(t.args[0])
                if lo>=0 and hi<=1 and W>1: return (padd(pconst(1),P,-1),1-hi,1-lo) if t.args[1]==0 else (ZERO,0,0)
                if t.args[1]==0:
                    q,l,h=s.div(pscale(P,-1),-hi,-lo,W)
                    return padd(pconst(1),q),1+l,1+h
                return s.div(padd(P,pconst(1)),lo+1,hi+1,W)
            if isinstance(t.args[1],int):
                P,lo,hi=s.exact(t.args[0])
                if lo>=0 and hi<=1: return (P,lo,hi) if t.args[1]==1 else (ZERO,0,0)
            return s.opaque(t,0,1)
        if op=='and':
            hi=t.aux
            for x in t.args: hi=min(hi,tm.umax(x,w))
            return s.opaque(t,0,hi)
        if op=='or':
            lo=t.aux
            return s.opaque(t,lo,M(w))
        if op=='udiv' and isinstance(t.args[1],int):
            return s.opaque(t,0,M(w)//t.args[1])
        if op=='urem' and isinstance(t.args[1],int):
            return s.opaque(t,0,t.args[1]-1)
        return s.opaque(t)
    # ------------------------------------------------------- solver
    def fact(s,a,macro):
        """defining inequality of quotient atom a; with macro: unfolded along the carry chain to a quotient by 2^macro"""
        if not macro: return a.P,a.k
        r=s.mf.get((a.id,macro))
        if r is None:
            P,k=a.P,a.k
            while k<macro and len(P.d)<400:
                c=None
                for m,cf in P.d.items():
                    if cf==1 and len(m)==1 and s.at[m[0]].kind=='div' and (c is None or m[0]>c): c=m[0]
                if c is None: break
                b=s.at[c]
                d=dict(P.d); del d[(c,)]
                P=padd(b.P,Poly(d),1<<b.k); k+=b.k
            r=s.mf[a.id,macro]=(P,k) if k==macro else (a.P,a.k)
        return r
    def cone(s,Ps,depth=10**9,macro=0):
        """atoms reachable from the polynomials through at most depth quotients -> (all, expanded)"""
        seen=set();full=set();st={i for P in Ps for m in P.d for i in m}
        while st and depth>=0:
            depth-=1; nx=set()
            for i in st:
                seen.add(i)
                a=s.at[i]
                if a.kind=='div' and depth>=0:
                    full.add(i)
                    for m in s.fact(a,macro)[0].d:
                        for j in m:
                            if j not in seen: nx.add(j)
                    if not macro:
                      for Pm,_ in s.more.get(i,()):
                        for m in Pm.d:
                            for j in m:
                                if j not in seen: nx.add(j)
            st=nx
        seen|=st
        return seen,full
    def lra(s,Ps,intvars=False,extra=(),depth=10**9,macro=0):
        """z3 variables and facts for the cone of Ps; returns (solver, lin(P))"""
        cone,full=s.cone(list(Ps)+[p for p,_,_ in extra],depth,macro)
        mk=z3.Int if intvars else z3.Real
        V={};z=z3.SolverFor('QF_LIA' if intvars else 'QF_LRA'); mons={}
        val=(lambda c:z3.IntVal(c)) if intvars else (lambda c:z3.RealVal(c))
        for i in cone:
            a=s.at[i]; v=mk(f'a{i}'); V[i]=v
            z.add(v>=val(a.lo),v<=val(a.hi))
        def mv(m):
            if len(m)==1: return V[m[0]]
            x=mons.get(m)
            if x is None:
                x=mk('m'+'_'.join(map(str,m))); mons[m]=x
                lo,hi=s.mrange(m); z.add(x>=val(lo),x<=val(hi))
                if len(m)==2:
                    # McCormick envelope
                    a,b=s.at[m[0]],s.at[m[1]]; p,q=V[a.id],V[b.id]
                    if (a.lo,a.hi)==(0,1) or (b.lo,b.hi)==(0,1):
                        z.add(x>=val(a.lo)*q+val(b.lo)*p-val(a.lo*b.lo),x>=val(a.hi)*q+val(b.hi)*p-val(a.hi*b.hi),
                              x<=val(a.hi)*q+val(b.lo)*p-val(a.hi*b.lo),x<=val(a.lo)*q+val(b.hi)*p-val(a.lo*b.hi))
            return x
        def L(P):
            ts=[]
            for m,c in P.d.items():
                ts.append(val(c) if not m else (mv(m) if c==1 else val(c)*mv(m)))
            return z3.Sum(ts) if ts else val(0)
        for i in full:
            a=s.at[i]
            if a.kind=='div':
                fp,fk=s.fact(a,macro)
                e=L(fp); q=V[i]
                z.add(e-val(1<<fk)*q>=val(0),e-val(1<<fk)*q<=val((1<<fk)-1))
                if not macro:
                  for Pm,km in s.more.get(i,()):
                    e=L(Pm); z.add(e-val(1<<km)*q>=val(0),e-val(1<<km)*q<=val((1<<km)-1))
        for p,lo,hi in s.extra:
            if all(j in cone for m in p.d for j in m): z.add(L(p)>=val(lo),L(p)<=val(hi))
        for p,lo,hi in extra:
            if lo is not None: z.add(L(p)>=val(lo))
            if hi is not None: z.add(L(p)<=val(hi))
        return z,L,V,val
    def check(s,z,to=8000):
        z.set('timeout',to)
        t0=time.time(); r=str(z.check()); STAT['queries']+=1; STAT['lia']+=1; STAT['time']+=time.time()-t0; STAT[r]+=1
        return r
    def tighten(s,P,lo=None,hi=None,to=8000,intvars=False,depth=10**9):
        """solver-proved bounds: is lo<=P<=hi (each given)?"""
        for b,d in ((lo,-1),(hi,1)):
            if b is None: continue
            z,L,V,val=s.lra([P],intvars,depth=depth)
            z.add(L(P)<=val(b-1) if d<0 else L(P)>=val(b+1))
            if s.check(z,to)!='unsat': return False
        return True
    def atom_const(s,a,to=8000):
        """try to prove that div atom a always equals one value"""
        if a.lo==a.hi: return True
        if a.hi-a.lo>64: return False
        P=Poly({(a.id,):1})
        z,L,V,val=s.lra([P])
        # prove upper
        ch=False
        while a.hi>a.lo:
            z.push(); z.add(V[a.id]>=val(a.hi)); r=s.check(z,to); z.pop()
            if r!='unsat': break
            a.hi-=1; ch=True; s.proved+=1
        while a.hi>a.lo:
            z.push(); z.add(V[a.id]<=val(a.lo)); r=s.check(z,to); z.pop()
            if r!='unsat': break
            a.lo+=1; ch=True; s.proved+=1
        return a.lo==a.hi
    def fold(s,P):
        """substitute atoms proven constant"""
        if not any(s.at[i].lo==s.at[i].hi for m in P.d for i in m): return P
        d={}
        for m,c in P.d.items():
            k=[]
            for i in m:
                a=s.at[i]
                if a.lo==a.hi: c*=a.lo
                else: k.append(i)
            if c:
                k=tuple(k); v=d.get(k,0)+c
                if v: d[k]=v
                else: d.pop(k,None)
        return Poly(d)
    def modp(s,P,p):
        d={}
        for m,c in P.d.items():
            c%=p
            if c: d[m]=c if c<=p//2 else c-p
        return Poly(d)
    def is_zero(s,P,p=None,to=8000,trace=None):
        """prove P==0 (mod p when given).  True / residual polynomial"""
        r=s._is_zero(P,p,to,trace)
        if r is True and len(P.d)<=4000: s.cert(P,p)
        return r
    def cert(s,P,p):
        """the part of the identity that holds with every monomial free is handed to the solver as such"""
        if p: Q={m:c//p for m,c in P.d.items() if c%p==0}; P0={m:c for m,c in P.d.items() if c%p==0}
        else: return
        if not Q: return
        z=z3.SolverFor('QF_LIA'); V={m:z3.Int('m'+'_'.join(map(str,m))) for m in P0 if m}
        L=lambda d:z3.Sum([z3.IntVal(c)*V[m] if m else z3.IntVal(c) for m,c in d.items()])
        z.add(L(P0)!=z3.IntVal(p)*L(Q))
        r=s.check(z,4000)
        if r=='sat': raise AssertionError('normaliser disagrees with the solver')
    def _is_zero(s,P,p=None,to=8000,trace=None):
        """prove P==0 (mod p when given).  True / residual polynomial"""
        red=(lambda Q:s.modp(Q,p)) if p else (lambda Q:Q)
        P=red(s.fold(P))
        if not P.d: return True
        tried=set()
        while True:
            cand=sorted({i for m in P.d for i in m if s.at[i].kind=='div' and i not in tried and s.at[i].hi-s.at[i].lo<=64})
            if not cand: break
            for i in cand:
                tried.add(i)
                if s.atom_const(s.at[i],to):
                    P=red(s.fold(P))
                    if not P.d: return True
                    break
            else:
                continue
        # pairs of quotients that are equal
        prog=True
        while prog and P.d:
            prog=False
            ms=[(m[0],c) for m,c in P.d.items() if len(m)==1 and s.at[m[0]].kind=='div']
            by={}
            for i,c in ms: by.setdefault(abs(c),[]).append((i,c))
            pairs=[(i,j) for v in by.values() for x,(i,c) in enumerate(v) for (j,d) in v[x+1:] if c==-d]
            pairs.sort(key=lambda ij:len(s.cone([Poly({(ij[0],):1,(ij[1],):-1})])[0]))
            for i,j in pairs[:12]:
                if (i,j) in s.nopair: continue
                E=Poly({(i,):1,(j,):-1})
                if s.zero_lia(E,None,min(to,4000)):
                    s.extra.append((E,0,0)); s.proved+=1
                    P=red(padd(P,E,-P.d[(i,)])); prog=True
                    break
                s.nopair.add((i,j))
        if not P.d: return True
        # joint argument
        if len(P.d)<=60:
            if s.zero_lia(P,None,to): return True
            if p and s.zero_lia(P,p,to): return True
        return P
    def zero_lia(s,P,p,to):
        lo,hi=s.range(P)
        if p and lo>-p and hi<p: return False     # same as the exact question
        if s.macro and s._zl(P,p,min(to,3000),s.macro,lo,hi): return True
        return s._zl(P,p,to,0,lo,hi)
    def _zl(s,P,p,to,macro,lo,hi):
        end=time.time()+to/1000
        last=-1; d=2
        while True:
            c=len(s.cone([P],d,macro)[1])
            if c==last: break
            last=c
            z,L,V,val=s.lra([P],True,depth=d,macro=macro)
            if p:
                k=z3.Int('kk'); r=z3.Int('rr')
                z.add(L(P)==k*z3.IntVal(p)+r,r>=1,r<=z3.IntVal(p-1),k>=z3.IntVal(lo//p),k<=z3.IntVal(hi//p))
            else: z.add(z3.Or(L(P)>=1,L(P)<=-1))
            r=s.check(z,max(200,int(1000*(end-time.time()))))
            if r=='unsat': return True
            if time.time()>end: break
            d+=2
        return False
