"""Group level: point structures in memory are recognised as (formal combinations of) group elements, operations are replaced by their contracts."""
import terms as tm, ex as exm, fe, pt
from ex import Ptr,Unsupported
from fields import REPS
def gadd(a,b,k=1):
    d=dict(a)
    for m,c in b.items():
        v=d.get(m,0)+k*c
        if v: d[m]=v
        else: d.pop(m,None)
    return d
def gscale(a,k): return {m:c*k for m,c in a.items()} if k else {}
class Group:
    def __init__(s,F,pp,cv):
        s.F=F; s.S=F.S; s.pp=pp; s.cv=cv; s.pts=[]; s.byvar={}; s.nz=set(); s.calls=0
    def fresh(s,g,cv=None):
        n=len(s.pts); x,y=s.S.var(f'x{n}'),s.S.var(f'y{n}'); s.pts.append((x,y,g,cv or s.cv))
        for v in (x,y): s.byvar[next(iter(v))[0]]=n
        return x,y
    def newz(s):
        z=s.S.var(f'z{len(s.pts)}'); s.nz.add(next(iter(z))[0]); return z
    def nonzero(s,z): return len(z)==1 and all(i in s.nz for i in next(iter(z)))
    def cands(s,*ps):
        o=[]
        for P in ps:
            for m in P:
                for i in m:
                    n=s.byvar.get(i)
                    if n is not None and n not in o: o.append(n)
        return o
    def recognise(s,C,cv=None):
        """coordinates (values) -> group element, z"""
        S=s.S; m=S.mul; cv=cv or s.cv
        if 'X' in C:
            X,Y,Z=C['X'],C['Y'],C['Z']
            if not s.nonzero(Z): raise Unsupported('Z not known to be nonzero')
            if not X and Y==Z and not C.get('T'): return {},Z
            for n in s.cands(X,Y):
                x,y,g,c2=s.pts[n]
                if c2 is not cv or m(y,Z)!=Y: continue
                for k in (1,-1):
                    if m(S.scale(x,k),Z)==X and ('T' not in C or m(m(S.scale(x,k),y),Z)==C['T']): return gscale(g,k),Z
        else:
            A,B,D=C['add'],C['sub'],C['dT']
            z=S.scale(C['dZ'],pow(2,-1,s.F.p)) if 'dZ' in C else S.const(1)
            if not s.nonzero(z): raise Unsupported('Z not known to be nonzero')
            if A==B==z and not D: return {},z
            for n in s.cands(A,B,D):
                x,y,g,c2=s.pts[n]
                if c2 is not cv: continue
                for k in (1,-1):
                    x_=S.scale(x,k)
                    if m(S.add(y,x_),z)==A and m(S.add(y,x_,-1),z)==B and m(S.scale(m(x_,y),2*cv.d),z)==D: return gscale(g,k),z
        raise Unsupported('not a known group element: '+', '.join(f'{k}={S.show(v,3)}' for k,v in C.items())[:200])
    def read(s,e,p,kind,i=0,noT=False):
        C={};R={}
        for c,l in pt.layout(kind,s.F.field).items():
            if c=='T' and noT: continue
            o,rn,la=l[i]; P,rg=s.F.lane(e,e.padd(p,o),REPS[s.F.field,rn],la); C[c]=s.F.lift(P); R[c]=list(rg)
        return C,R
    def write(s,e,p,kind,i,x,y,z,rg,noT=False):
        f=s.F.field; C=pt.coords(s.S,s.cv,x,y,z,kind)
        for c,l in pt.layout(kind,f).items():
            o,rn,la=l[i]; v=C[c]
            if c=='T' and noT: v=s.S.var(f'anyT{len(s.pts)}'); r=[(0,(1<<64)-1)]*len(REPS[f,rn].digs[0])
            else: r=rg[c] if isinstance(rg,dict) else rg
            s.F.put(e,e.padd(p,o),rn,la,v,r)
    def op_hook(s,ops):
        """ops: the OPs of one function (by extra arguments)"""
        def h(e,*args):
            s.calls+=1
            n=len(ops[0].args)
            op=next((o for o in ops if tuple(args[n:])==tuple(o.extra)),None)
            if op is None: raise Unsupported(f'{ops[0].fn}: unexpected arguments {args[n:]}')
            kd=dict(op.args); k=max(pt.npts(x) for _,x in op.args); rg={};G={};al={};ptr={}
            for (a,kind),p in zip(op.args,args):
                if not isinstance(p,Ptr): raise Unsupported('operand is not a pointer')
                for b,q in ptr.items():
                    if p.o is q.o:
                        if p.off==q.off and kd[b]==kind: al[a]=b
                        elif isinstance(p.off,int) and isinstance(q.off,int) and (p.off+pt.size(kind,s.F.field)<=q.off or q.off+pt.size(kd[b],s.F.field)<=p.off): pass
                        else: raise Unsupported('overlapping points')
                ptr[a]=p
                if a not in op.op: continue
                G[a]=[]; rg[a]={}
                for i in range(k):
                    C,R=s.read(e,p,kind,i)
                    if op.freeT: C.pop('T',None)
                    G[a].append(s.recognise(C)[0])
                    for c in pt.layout(kind,s.F.field):
                        r=R[c]
                        if any(lo<0 for lo,_ in r): raise Unsupported('negative digit')
                        rg[a].setdefault(c,[]).append(r)
            out=s.pp.prove(op,rg,al); dst=ptr[op.out]
            for i in range(k):
                g=gscale(G[op.op[1]][i],2) if op.op[0]=='dbl' else gadd(G[op.op[1]][i],G[op.op[2]][i])
                x,y=s.fresh(g); z=s.newz()
                s.write(e,dst,kd[op.out],i,x,y,z,{c:l[i] for c,l in out.items()},op.noT)
            return None
        return h
    def hooks(s,ops):
        by={}
        for o in ops: by.setdefault(o.fn,[]).append(o)
        return {f:s.op_hook(l) for f,l in by.items() if f in s.F.mod.funcs}
