"""Symbolic check of one field kernel: run it on fresh limbs, prove every output lane congruent (or equal) to the spec."""
import itertools,random,time
import terms as tm
from terms import T,M
import ex as exm, api
from intdom import ID,Poly,padd,pscale,pconst,ZERO,TooBig
from fields import REPS,V
class Run: pass
def aliases(ops,thorough=True):
    """list of maps op index -> op index it shares storage with"""
    out=[{}]
    os=[i for i,o in enumerate(ops) if o[2]=='o']; ins=[i for i,o in enumerate(ops) if o[2]=='i']
    for i in ins:
        for o in os:
            if ops[i][1]==ops[o][1]: out.append({i:o})
    if len(ins)==2 and ops[ins[0]][1]==ops[ins[1]][1]:
        out.append({ins[1]:ins[0]})
        if len(os)==1 and ops[os[0]][1]==ops[ins[0]][1]: out.append({ins[0]:os[0],ins[1]:os[0]})
    return out
def execute(mod,fn,k,al={},align=32,prefix='',values=None,hooks=None,exobj=None):
    """symbolic run; returns Run with .inp[opname]=digits per lane, .out[...]"""
    e=exobj or exm.Ex(mod,hooks=hooks); r=Run(); r.e=e; r.inp={}; r.out={}; ptr={}; r.extra=[]
    for i,(n,rn,md) in enumerate(k.ops):
        rep=REPS[k.field,rn]
        if i in al: ptr[i]=None; continue
        p=e.alloc(n,rep.size,align); ptr[i]=p
        if md in 'ix' or any(j for j in al if al[j]==i):
            for o in range(0,rep.size,8): e.wr_(p.o,o,8,tm.var(f'{prefix}{n}.{o}',64))
        elif md=='o':
            for o in range(0,rep.size,8): e.wr_(p.o,o,8,tm.var(f'{prefix}junk.{n}.{o}',64))
    for i in al:
        t=al[i]
        while t in al: t=al[t]
        ptr[i]=ptr[t]
    for i,(n,rn,md) in enumerate(k.ops):
        rep=REPS[k.field,rn]
        if md in 'ix': r.inp[n]=[[e.rd_(ptr[i].o,ptr[i].off+o,8) for o,_ in rep.digs[l]] for l in range(rep.lanes)]
    snap={i:dict(ptr[i].o.cells) for i,(n,rn,md) in enumerate(k.ops) if md=='i' and i not in al and not any(al[j]==i for j in al if k.ops[j][2]!='i')}
    args=[ptr[i] for i in range(len(k.ops))]
    r.ret=e.call(fn,*(list(k.pre)+args))
    r.ptr=ptr
    for i,(n,rn,md) in enumerate(k.ops):
        rep=REPS[k.field,rn]
        if md in 'ox': r.out[n]=[[e.rd_(ptr[i].o,ptr[i].off+o,8) for o,_ in rep.digs[l]] for l in range(rep.lanes)]
    r.modified=[k.ops[i][0] for i in snap if any(e.rd_(ptr[i].o,o,8) is not snap[i].get(o,(0,None))[1] for o in range(0,ptr[i].o.size,8)) and i not in al.values() or (i in snap and i not in [al[j] for j in al] and False)]
    return r
def value(I,rep,l,digs):
    P=ZERO;
    for (o,e),d in zip(rep.digs[l],digs):
        q=I.exact(d)
        P=padd(P,q[0],1<<e)
    return P
class Res: pass
def check(mod,fn,k,ranges,al={},prefix='',to=8000,I=None,hooks=None):
    """ranges[opname][lane] = list of (lo,hi) per digit.  Returns Res(ok, bad=[(op,lane,residual)], outranges)"""
    I=I or ID(); I.macro=sum(REPS[k.field,'1f'].nat) if k.ops[0][1][1] in 'fd' else 0; res=Res(); res.I=I; res.bad=[]; res.proved=0; res.out={}
    dec=hooks is not None
    if dec:
        for n,rn,md in k.ops:
            rep=REPS[k.field,rn]
            for l in range(rep.lanes):
                for (o,_),(lo,hi) in zip(rep.digs[l],ranges[n][l] if n in ranges else []): I.declare(tm.var(f'{prefix}{n}.{o}',64),lo,hi)
    r=execute(mod,fn,k,al,prefix=prefix,hooks=hooks); res.run=r
    vals={}
    for n,rn,md in k.ops:
        rep=REPS[k.field,rn]
        if n in r.inp:
            vs=[]
            for l in range(rep.lanes):
                P=ZERO
                for (o,e),d,(lo,hi) in zip(rep.digs[l],r.inp[n][l],ranges[n][l]):
                    if d not in I.memo: I.declare(d,lo,hi)
                    P=padd(P,I.memo[d][0],1<<e)
                vs.append(P)
            vals[n]=vs
    want=k.spec(V(I,vals))
    for n,rn,md in k.ops:
        if md not in 'ox': continue
        rep=REPS[k.field,rn]
        res.out[n]=[[I.exact(d)[1:] for d in r.out[n][l]] for l in range(rep.lanes)]
        for l in range(rep.lanes):
            P=padd(value(I,rep,l,r.out[n][l]),want[n][l],-1)
            z=I.is_zero(P,None if k.exact else rep.p,to)
            if z is True: res.proved+=1
            else: res.bad.append((n,l,z))
    res.ok=not res.bad and not r.modified
    return res
def full(rep,lo=0,hi=2**64-1): return [[(lo,hi)]*len(rep.digs[0]) for _ in range(rep.lanes)]
