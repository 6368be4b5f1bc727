"""Equivalence of two term DAGs by sweeping: random simulation proposes equal nodes, the solver proves each one
over cut points (already merged nodes), until the outputs merge."""
import random,time,z3
import terms as tm
from terms import M
from solve import Tr,STAT
def _kids(t): return list(tm.kids(t))
def equal(pairs,to=4000,rng=None,rounds=6,budget=240,depths=(2,4,8)):
    """pairs: [(impl,ref,w)] -> (list of unmerged indices, number of solver merges)"""
    rng=rng or random.Random(7); end=time.time()+budget
    pairs=[(a,b,w) for a,b,w in pairs]
    if all(a is b or (isinstance(a,int) and a==b) for a,b,w in pairs): return [],0
    ts=[t for a,b,w in pairs for t in (b,)if not isinstance(t,int)]+[a for a,b,w in pairs if not isinstance(a,int)]
    vs=[v for v in tm.topo(ts) if v.op=='var']
    memos=[]
    for r in range(rounds):
        env={v:rng.getrandbits(v.w) for v in vs}; m={}
        tm.evalt(ts,env,memo=m); memos.append(m)
    rep={}; table={}; merges=0
    def g(x): return x if isinstance(x,int) else rep.get(x.id,x)
    order=list(tm.topo(ts))
    for t in order:
        if t.op=='var': rep[t.id]=t; continue
        n=tm.rebuild(t,g) if any(g(k) is not k for k in _kids(t)) else t
        if isinstance(n,int): rep[t.id]=n; continue
        if n.id in rep: rep[t.id]=rep[n.id]; continue
        sig=(t.w,)+tuple(m[t.id] for m in memos)
        c=table.get(sig)
        if c is None:
            table[sig]=n; rep[t.id]=n; rep[n.id]=n; continue
        if c is n: rep[t.id]=n; continue
        ok=False
        if time.time()<end:
            for d in depths:
                if prove(n,c,t.w,d,to): ok=True; break
        if ok: merges+=1; rep[t.id]=c; rep[n.id]=c
        else: rep[t.id]=n; rep[n.id]=n
    bad=[]
    for i,(a,b,w) in enumerate(pairs):
        x,y=g(a),g(b)
        if x is y or (isinstance(x,int) and isinstance(y,int) and x==y): continue
        bad.append(i)
    return bad,merges
class CutTr(Tr):
    def __init__(s,cut): Tr.__init__(s); s.bm={}; s.cut=cut
    def go(s,t):
        if isinstance(t,int): return
        st=[t]
        while st:
            x=st[-1]
            if x in s.memo: st.pop(); continue
            if x.id in s.cut: s.memo[x]=z3.BitVec('cut%d'%x.id,x.w); st.pop(); continue
            ks=[k for k in _kids(x) if k not in s.memo]
            if ks: st+=ks
            else: s.memo[x]=s.one(x); st.pop()
def cone(t,d):
    """nodes within depth d; everything at depth d (and deeper) is a cut"""
    seen={t.id:0}; fr=[t]; cut=set()
    for i in range(d+1):
        nx=[]
        for x in fr:
            if i==d:
                if x.op!='var': cut.add(x.id)
                continue
            for k in _kids(x):
                if k.id not in seen: seen[k.id]=i+1; nx.append(k)
        fr=nx
    return cut
def prove(a,b,w,d,to):
    # a cut node may be inside the other cone: cutting there is still sound (the node becomes a free variable in both)
    cut=(cone(a,d)|cone(b,d))-{a.id,b.id}
    tr=CutTr(cut)
    try: tr.go(a); tr.go(b)
    except NotImplementedError: return False
    z=z3.SolverFor('QF_BV'); z.set('timeout',to); z.add(tr.memo[a]!=tr.memo[b])
    t0=time.time(); r=str(z.check()); STAT['queries']+=1; STAT['time']+=time.time()-t0; STAT[r]+=1
    return r=='unsat'
