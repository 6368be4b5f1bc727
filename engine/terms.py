"""Hash-consed bit-vector terms with light canonicalisation.
A value is a Python int (constant, width known from context) or a T.
Operators (all widths explicit):
 var | lin(const,(t,c)*) mod 2^w | cat segs low-first ((t|None),lo,width) | xor/and/or n-ary (const,args)
 mul | udiv | urem | ite(c,a,b) | eq | ult | slt (w=1, arg width in aux) | cry(a,b,c) carry-out of a+b+c |
 shl/lshr (symbolic amount) | ashr(x,k const) | sext(x)
"""
class T:
    __slots__=('op','w','args','aux','id','_h')
    def __repr__(s): return show(s)
_tab={}
_cnt=[0]
def mk(op,w,args,aux=None):
    k=(op,w,args,aux)
    t=_tab.get(k)
    if t is None:
        t=T(); t.op=op; t.w=w; t.args=args; t.aux=aux
        _cnt[0]+=1; t.id=_cnt[0]; t._h=None
        _tab[k]=t
    return t
def reset():
    _tab.clear(); _cnt[0]=0
def show(t,d=4):
    if isinstance(t,int): return hex(t)
    if t.op=='var': return f'{t.args[0]}'
    if d==0: return f'#{t.id}'
    if t.op=='cat': return 'cat('+','.join((f'{s[1]:#x}:{s[2]}' if s[0] is None else f'{show(s[0],d-1)}[{s[1]}+{s[2]}]') for s in t.args)+')'
    if t.op=='lin': return '('+hex(t.aux)+''.join(f'+{c:#x}*{show(x,d-1)}' for x,c in t.args)+')'
    return f'{t.op}{t.w}'+('.'+str(t.aux) if t.aux is not None else '')+'('+','.join(show(x,d-1) for x in t.args)+')'
def var(name,w): return mk('var',w,(name,))
_fresh=[0]
def fresh(name,w):
    _fresh[0]+=1
    return var(f'{name}!{_fresh[0]}',w)
def M(w): return (1<<w)-1

# ---------------------------------------------------------------- linear
def _lin_of(w,x,k,acc):
    """add k*x into acc; returns const contribution"""
    if isinstance(x,int): return x*k
    if x.op=='lin':
        c=x.aux*k
        for t,cc in x.args: acc[t]=acc.get(t,0)+cc*k
        return c
    if x.op=='cat' and x.args[0][0] is None and x.args[0][1]==0 and len(x.args)==2 and x.args[1][0] is not None and x.args[1][1]==0 and x.args[1][0].w>=x.args[1][2] and x.args[1][0].w==w:
        return _lin_of(w,x.args[1][0],k<<x.args[0][2],acc)
    if x.op=='ite' and isinstance(x.args[2],int) and x.args[2]==0 and isinstance(x.args[1],int) and x.args[1]==M(w) and w>1:
        b=zext(x.args[0],1,w); acc[b]=acc.get(b,0)-k; return 0
    acc[x]=acc.get(x,0)+k
    return 0
def lin(w,parts,const=0):
    acc={}; m=M(w)
    for x,k in parts: const+=_lin_of(w,x,k,acc)
    const&=m
    items=[(t,c&m) for t,c in acc.items() if c&m]
    if not items: return const
    if len(items)==1 and const==0:
        t,c=items[0]
        if c==1: return t
        if c==m and w>1 and t.op=='cat' and len(t.args)==2 and t.args[0][0] is not None and t.args[0][2]==1 and t.args[1][0] is None and t.args[1][1]==0:
            x,lo,n=t.args[0]; return ite(w,ext(x,lo,1,x.w),m,0) # -(one bit) => mask
        if c&(c-1)==0: # power of two => shift
            k=c.bit_length()-1
            return cat(w,[(None,0,k)]+segs(t,0,w-k))
    if len(items)>1:
        # disjoint-support sum of cats => cat
        items.sort(key=lambda tc:tc[0].id)
        r=_disj(w,items,const)
        if r is not None: return r
    return mk('lin',w,tuple(items),const)
def _support(t,w):
    """list of (lo,hi) non-const-zero bit ranges of cat, or None if full"""
    if t.op!='cat': return None
    o=0;out=[]
    for s in t.args:
        if not(s[0] is None and s[1]==0): out.append((o,o+s[2]))
        o+=s[2]
    return out
def _disj(w,items,const):
    if any(c!=1 for _,c in items) : return None
    sup=[]
    for t,_ in items:
        s=_support(t,w)
        if s is None: return None
        sup+=s
    if const:
        b=const;o=0
        while b:
            z=(b&-b).bit_length()-1; b>>=z;o+=z
            n=((~b)&(b+1)).bit_length()-1
            sup.append((o,o+n)); o+=n;b>>=n
    sup.sort()
    for i in range(len(sup)-1):
        if sup[i][1]>sup[i+1][0]: return None
    return _merge_or(w,[t for t,_ in items],const)
def _merge_or(w,ts,const):
    """bitwise-disjoint args -> cat"""
    pieces={}
    for t in ts:
        o=0
        for s in t.args:
            if not(s[0] is None and s[1]==0): pieces[o]=s
            o+=s[2]
    if const:
        b=const;o=0
        while b:
            z=(b&-b).bit_length()-1; b>>=z;o+=z
            n=((~b)&(b+1)).bit_length()-1
            pieces[o]=(None,M(n),n); o+=n;b>>=n
    out=[];o=0
    for k in sorted(pieces):
        if k>o: out.append((None,0,k-o))
        out.append(pieces[k]); o=k+pieces[k][2]
    if o<w: out.append((None,0,w-o))
    return cat(w,out)
def add(w,a,b):
    if isinstance(a,int) and isinstance(b,int): return (a+b)&M(w)
    if a.__class__ is int and a==0: return b
    if b.__class__ is int and b==0: return a
    return lin(w,((a,1),(b,1)))
def sub(w,a,b):
    if isinstance(a,int) and isinstance(b,int): return (a-b)&M(w)
    if b.__class__ is int and b==0: return a
    return lin(w,((a,1),(b,-1)))
def neg(w,a): return sub(w,0,a)
def add3(w,a,b,c):
    return lin(w,((a,1),(b,1),(zext(c,1,w),1)))
def sub3(w,a,b,c):
    return lin(w,((a,1),(b,-1),(zext(c,1,w),-1)))

# ---------------------------------------------------------------- cat
def segs(t,lo,n):
    """segments (low first) for bits lo..lo+n of t"""
    if n<=0: return []
    if isinstance(t,int): return [(None,(t>>lo)&M(n),n)]
    if t.op=='cat':
        out=[];o=0;hi=lo+n
        for s in t.args:
            e=o+s[2]
            a=max(o,lo); b=min(e,hi)
            if a<b:
                if s[0] is None: out.append((None,(s[1]>>(a-o))&M(b-a),b-a))
                else: out.append((s[0],s[1]+a-o,b-a))
            o=e
            if o>=hi: break
        return out
    if n<t.w:
        if t.op=='ite':
            a,b=t.args[1],t.args[2]
            if _cheap(a) and _cheap(b):
                r=ite(n,t.args[0],ext(a,lo,n,t.w),ext(b,lo,n,t.w))
                return [(None,r,n)] if isinstance(r,int) else ([(r,0,n)] if r.op!='cat' else list(r.args))
        elif lo==0 and t.op=='lin' and _small(t,n):
            r=lin(n,[(ext(x,0,n,t.w),c) for x,c in t.args],t.aux&M(n))
            return [(None,r,n)] if isinstance(r,int) else ([(r,0,n)] if r.op!='cat' else list(r.args))
        elif t.op=='xor' and (n<=8 and t.w>8 or lo==0 and n==1) and len(t.args)<=4:
            r=xor(n,*[ext(x,lo,n,t.w) for x in t.args],(t.aux>>lo)&M(n))
            return [(None,r,n)] if isinstance(r,int) else ([(r,0,n)] if r.op!='cat' else list(r.args))
        elif t.op=='sext':
            x=t.args[0]
            if lo+n<=x.w: return segs(x,lo,n)
    return [(t,lo,n)]
def _cheap(t): return isinstance(t,int) or t.op in('var','cat') or (t.op=='ite' and isinstance(t.args[1],int) and isinstance(t.args[2],int))
def _small(t,n): return len(t.args)<=4 and all(x.op=='cat' and x.args[0][0] is None and x.args[0][2]>=n for x,c in t.args)
def cat(w,ss):
    out=[]
    for s in ss:
        if s[2]==0: continue
        if s[0] is not None and (s[0].op=='cat' or s[0].op=='lin' and s[1]==0 and s[2]<s[0].w and _small(s[0],s[2])):
            sub_=segs(s[0],s[1],s[2])
        else: sub_=(s,)
        for s in sub_:
            if out:
                p=out[-1]
                if s[0] is None:
                    if p[0] is None:
                        out[-1]=(None,p[1]|(s[1]<<p[2]),p[2]+s[2]); continue
                elif p[0] is s[0] and p[1]+p[2]==s[1]:
                    out[-1]=(s[0],p[1],p[2]+s[2]); continue
            out.append(s)
    if len(out)==1:
        s=out[0]
        if s[0] is None: return s[1]
        if s[1]==0 and s[2]==s[0].w: return s[0]
    return mk('cat',w,tuple(out))
def ext(t,lo,n,w=None):
    if isinstance(t,int): return (t>>lo)&M(n)
    if lo==0 and n==t.w: return t
    return cat(n,segs(t,lo,n))
def zext(t,w,w2):
    if isinstance(t,int): return t
    if w2==w: return t
    return cat(w2,segs(t,0,w)+[(None,0,w2-w)])
def trunc(t,w,w2): return ext(t,0,w2,w)
def sext(t,w,w2):
    if isinstance(t,int): return t|(M(w2)^M(w)) if t>>(w-1)&1 else t
    if w==w2: return t
    if w==1: return ite(w2,t,M(w2),0)
    if t.op=='cat' and t.args[-1][0] is None:
        s=t.args[-1]
        if s[1]>>(s[2]-1)&1==0: return zext(t,w,w2)
    if t.op=='ite' and isinstance(t.args[1],int) and isinstance(t.args[2],int):
        return ite(w2,t.args[0],sext(t.args[1],w,w2),sext(t.args[2],w,w2))
    return mk('sext',w2,(t,))
def concat(parts):
    """parts: [(val,w)] low first"""
    ss=[];w=0
    for v,n in parts:
        w+=n
        ss+=segs(v,0,n)
    return cat(w,ss)
def shlc(w,a,k):
    if k>=w: return 0
    if isinstance(a,int): return (a<<k)&M(w)
    if k==0: return a
    return cat(w,[(None,0,k)]+segs(a,0,w-k))
def lshrc(w,a,k):
    if k>=w: return 0
    if isinstance(a,int): return a>>k
    if k==0: return a
    return cat(w,segs(a,k,w-k)+[(None,0,k)])
def ashrc(w,a,k):
    if k>=w: k=w-1
    if isinstance(a,int):
        s=a-(1<<w) if a>>(w-1)&1 else a
        return (s>>k)&M(w)
    if k==0: return a
    if a.op=='cat' and a.args[-1][0] is None and not a.args[-1][1]>>(a.args[-1][2]-1)&1: return lshrc(w,a,k)
    if a.op=='cat' and k==w-1 and False: pass
    return sext(ext(a,k,w-k,w),w-k,w)
def shl(w,a,b):
    if isinstance(b,int): return shlc(w,a,b)
    if a.__class__ is int and a==0: return 0
    return mk('shl',w,(a,b))
def lshr(w,a,b):
    if isinstance(b,int): return lshrc(w,a,b)
    if a.__class__ is int and a==0: return 0
    return mk('lshr',w,(a,b))
def ashr(w,a,b):
    if isinstance(b,int): return ashrc(w,a,b)
    return mk('ashr',w,(a,b))

# ---------------------------------------------------------------- bitwise
def _cuts(args,w,consts):
    """segment boundaries induced by constant segments / const runs"""
    cs={0,w}
    for t in args:
        if t.op=='cat':
            o=0
            for s in t.args:
                if s[0] is None: cs.add(o); cs.add(o+s[2])
                o+=s[2]
    for c in consts:
        x=c^(c<<1)
        x&=M(w)|(1<<w)
        while x:
            b=(x&-x).bit_length()-1
            cs.add(b); x&=x-1
    return sorted(c for c in cs if c<=w)
def _flat(op,args,aux0,comb,w):
    s={};c=aux0
    st=list(args)
    while st:
        x=st.pop()
        if isinstance(x,int): c=comb(c,x)
        elif x.op==op:
            c=comb(c,x.aux); st.extend(x.args)
        else: s[x]=s.get(x,0)+1
    return s,c
def xor(w,*args):
    s,c=_flat('xor',args,0,lambda a,b:a^b,w)
    L=[t for t,n in s.items() if n&1]
    if not L: return c
    if len(L)==1 and c==0: return L[0]
    # ite(c,x,0)^y  with x containing y
    its=[t for t in L if t.op=='ite' and (t.args[2].__class__ is int and t.args[2]==0 or t.args[1].__class__ is int and t.args[1]==0)]
    if its and len(L)<=3 and w>1:
        for t in its:
            rest=[x for x in L if x is not t]
            cc,a,b=t.args
            if isinstance(a,T) and a.op=='xor' and any(x in a.args for x in rest) or isinstance(b,T) and b.op=='xor' and any(x in b.args for x in rest):
                return ite(w,cc,xor(w,a,c,*rest),xor(w,b,c,*rest))
    if w>1 and any(t.op=='cat' for t in L):
        cu=_cuts(L,w,())
        if len(cu)>2:
            ok=True;out=[]
            for i in range(len(cu)-1):
                lo,n=cu[i],cu[i+1]-cu[i]
                non=[];k=(c>>lo)&M(n)
                for t in L:
                    e=ext(t,lo,n)
                    if isinstance(e,int): k^=e
                    else: non.append(e)
                if len(non)>1:
                    if n==1: out.append((xor(1,k,*non),1)); continue
                    ok=False;break
                if non and k: 
                    if k==M(n) and n==1: out.append((xor(n,non[0],k),n)); continue
                    ok=False;break
                out.append((non[0] if non else k,n))
            if ok: return concat(out)
    if len(L)==1 and c==M(w) and L[0].op=='ite' and isinstance(L[0].args[1],int) and isinstance(L[0].args[2],int):
        t=L[0]; return ite(w,t.args[0],t.args[1]^c,t.args[2]^c)
    L.sort(key=lambda t:t.id)
    return mk('xor',w,tuple(L),c)
def not_(w,a): return xor(w,a,M(w))
def and_(w,*args):
    s,c=_flat('and',args,M(w),lambda a,b:a&b,w)
    if c==0: return 0
    L=list(s)
    if not L: return c
    if len(L)==1 and c==M(w): return L[0]
    for t in L:
        if t.op=='xor' and t.aux==M(w) and len(t.args)==1 and t.args[0] in s: return 0
    if w>1:
        for t in L:
            if t.op=='ite' and isinstance(t.args[1],int) and isinstance(t.args[2],int) and t.args[1] in(0,M(w)) and t.args[2] in(0,M(w)):
                rest=[x for x in L if x is not t]
                r=and_(w,c,*rest) if rest else c
                return ite(w,t.args[0],r if t.args[1] else 0,r if t.args[2] else 0)
        if len(L)==1 and L[0].op=='ite' and isinstance(L[0].args[1],int) and isinstance(L[0].args[2],int):
            t=L[0]; return ite(w,t.args[0],t.args[1]&c,t.args[2]&c)
        cu=_cuts(L,w,(c,))
        if 2<len(cu)<=18:
            ok=True;out=[]
            for i in range(len(cu)-1):
                lo,n=cu[i],cu[i+1]-cu[i]
                k=(c>>lo)&M(n);non=[]
                if k==0: out.append((0,n)); continue
                for t in L:
                    e=ext(t,lo,n)
                    if isinstance(e,int): k&=e
                    else: non.append(e)
                if k==0: out.append((0,n)); continue
                if not non: out.append((k,n)); continue
                if k!=M(n): ok=False;break
                out.append((and_(n,*non) if len(non)>1 else non[0],n))
            if ok: return concat(out)
    L.sort(key=lambda t:t.id)
    return mk('and',w,tuple(L),c)
def or_(w,*args):
    s,c=_flat('or',args,0,lambda a,b:a|b,w)
    if c==M(w): return c
    L=list(s)
    if not L: return c
    if len(L)==1 and c==0: return L[0]
    for t in L:
        if t.op=='xor' and t.aux==M(w) and len(t.args)==1 and t.args[0] in s: return M(w)
    if w>1:
        if any(t.op=='ite' for t in L):
          for t in L:
            if t.op=='ite' and isinstance(t.args[1],int) and isinstance(t.args[2],int) and t.args[1] in(0,M(w)) and t.args[2] in(0,M(w)):
                rest=[x for x in L if x is not t]
                r=or_(w,c,*rest) if rest else c
                return ite(w,t.args[0],M(w) if t.args[1] else r,M(w) if t.args[2] else r)
          if len(L)==2 and c==0 and L[0].op=='ite' and L[1].op=='ite' and _is0(L[0]) is not None and _is0(L[1]) is not None:
            a,b=L
            ca,va=_is0(a); cb,vb=_is0(b)
            if ca is cb_not(cb): return ite(w,ca,va,vb)
        if any(t.op=='cat' for t in L) or (len(L)==1 and c and L[0].op=='var'):
            cu=_cuts(L,w,(c,))
            if 2<len(cu)<=34:
                ok=True;out=[]
                for i in range(len(cu)-1):
                    lo,n=cu[i],cu[i+1]-cu[i]
                    k=(c>>lo)&M(n);non=[]
                    for t in L:
                        e=ext(t,lo,n)
                        if isinstance(e,int): k|=e
                        else: non.append(e)
                    if k==M(n): out.append((k,n)); continue
                    if k!=0: ok=False;break
                    out.append((or_(n,*non) if len(non)>1 else (non[0] if non else 0),n))
                if ok: return concat(out)
    L.sort(key=lambda t:t.id)
    return mk('or',w,tuple(L),c)
def _is0(t):
    """ite(c,v,0) -> (c,v) ; ite(c,0,v) -> (not c, v)"""
    if t.op!='ite': return None
    if t.args[2].__class__ is int and t.args[2]==0: return t.args[0],t.args[1]
    if t.args[1].__class__ is int and t.args[1]==0: return not_(1,t.args[0]),t.args[2]
    return None
def cb_not(c): return not_(1,c)
# ---------------------------------------------------------------- others
def mul(w,a,b):
    if isinstance(a,int):
        if isinstance(b,int): return a*b&M(w)
        a,b=b,a
    if isinstance(b,int):
        return lin(w,((a,b),))
    if a.id>b.id: a,b=b,a
    return mk('mul',w,(a,b))
def udiv(w,a,b):
    if isinstance(b,int) and b:
        if isinstance(a,int): return a//b
        if b&(b-1)==0: return lshrc(w,a,b.bit_length()-1)
    return mk('udiv',w,(a,b))
def urem(w,a,b):
    if isinstance(b,int) and b:
        if isinstance(a,int): return a%b
        if b&(b-1)==0: return and_(w,a,b-1)
    return mk('urem',w,(a,b))
def eq(w,a,b):
    if isinstance(a,int) and isinstance(b,int): return int(a==b)
    if a is b: return 1
    if isinstance(a,int): a,b=b,a
    if isinstance(b,int):
        if w==1: return a if b else not_(1,a)
        if a.op=='ite':
            x,y=a.args[1],a.args[2]
            if isinstance(x,int) or isinstance(y,int):
                if isinstance(x,int) and isinstance(y,int):
                    if x==b: return a.args[0] if y!=b else 1
                    return not_(1,a.args[0]) if y==b else 0
                if isinstance(x,int) and x!=b: return and_(1,not_(1,a.args[0]),eq(w,y,b))
                if isinstance(y,int) and y!=b: return and_(1,a.args[0],eq(w,x,b))
        if a.op=='cat':
            o=0;rest=[]
            for s in a.args:
                bb=(b>>o)&M(s[2])
                if s[0] is None:
                    if s[1]!=bb: return 0
                else: rest.append((s,bb))
                o+=s[2]
            if len(rest)<len(a.args):
                if len(rest)==1:
                    s,bb=rest[0]; return eq(s[2],cat(s[2],[s]),bb)
                r=concat([(cat(s[2],[s]),s[2]) for s,_ in rest])
                v=0;o=0
                for s,bb in rest: v|=bb<<o; o+=s[2]
                return mk('eq',1,(r,v),r.w)
        if a.op=='xor' and len(a.args)>1 and False: pass
        if a.op=='xor' and a.aux: 
            return eq(w,xor(w,*a.args),b^a.aux)
        if a.op=='lin' and len(a.args)==1 and a.args[0][1]==1:
            return eq(w,a.args[0][0],(b-a.aux)&M(w))
        if a.op=='sext':
            x=a.args[0]
            if sext(b&M(x.w),x.w,w)!=b: return 0
            return eq(x.w,x,b&M(x.w))
        return mk('eq',1,(a,b),w)
    if w==1: return xor(1,a,b,1)
    if a.id>b.id: a,b=b,a
    return mk('eq',1,(a,b),w)
def ult(w,a,b):
    if isinstance(a,int) and isinstance(b,int): return int(a<b)
    if a is b: return 0
    if isinstance(b,int):
        if b==0: return 0
        if b==1: return eq(w,a,0)
        if umax(a,w)<b: return 1
    if isinstance(a,int):
        if a==M(w): return 0
        if a==0: return not_(1,eq(w,b,0))
        if umax(b,w)<=a: return 0
    return mk('ult',1,(a,b),w)
def umax(t,w):
    if isinstance(t,int): return t
    if t.op=='cat':
        o=0;m=0
        for s in t.args:
            m|=(s[1] if s[0] is None else M(s[2]))<<o; o+=s[2]
        return m
    return M(w)
def slt(w,a,b):
    if isinstance(a,int) and isinstance(b,int):
        f=lambda v:v-(1<<w) if v>>(w-1)&1 else v
        return int(f(a)<f(b))
    if a is b: return 0
    if isinstance(b,int) and b==0: return ext(a,w-1,1,w)
    if isinstance(a,int) and a==M(w): return not_(1,ext(b,w-1,1,w))
    if umax(a,w)>>(w-1)==0 and umax(b,w)>>(w-1)==0: return ult(w,a,b)
    return mk('slt',1,(a,b),w)
def carry(w,a,b,c):
    """carry-out of a+b+c, c 1 bit"""
    if isinstance(a,int) and isinstance(b,int) and isinstance(c,int): return (a+b+c)>>w
    if umax(a,w)+umax(b,w)+umax(c,1)<=M(w): return 0
    if a.__class__ is int and a==M(w) and b.__class__ is int and b==0: return c
    if b.__class__ is int and b==M(w) and a.__class__ is int and a==0: return c
    if isinstance(c,T) and c.op=='ite' and False: pass
    if isinstance(a,int) or (isinstance(b,T) and a.id>b.id): a,b=b,a
    return mk('cry',1,(a,b,c),w)
def borrow(w,a,b,c):
    """borrow-out of a-b-c"""
    if isinstance(a,int) and isinstance(b,int) and isinstance(c,int): return int(a<b+c)
    if c.__class__ is int and c==0: return ult(w,a,b)
    if a is b: return c
    if isinstance(b,int) and isinstance(a,int):
        if a==b: return c
        if a>b: return 0
        return 1 if a<b else 0
    return mk('brw',1,(a,b,c),w)
def ite(w,c,a,b):
    if isinstance(c,int): return a if c else b
    if a is b or (isinstance(a,int) and isinstance(b,int) and a==b): return a
    if c.op=='xor' and c.aux==1: # not
        return ite(w,xor(1,*c.args),b,a)
    if w==1:
        if isinstance(a,int) and isinstance(b,int): return c if a else not_(1,c)
        if isinstance(a,int): return or_(1,c,b) if a else and_(1,not_(1,c),b)
        if isinstance(b,int): return or_(1,not_(1,c),a) if b else and_(1,c,a)
    if isinstance(a,T) and a.op=='ite':
        if a.args[0] is c: a=a.args[1]
    if isinstance(b,T) and b.op=='ite':
        if b.args[0] is c: b=b.args[2]
    if a is b: return a
    if isinstance(a,int) and isinstance(b,int) and b==0 and a==1: return zext(c,1,w)
    if isinstance(a,int) and isinstance(b,int) and b==1 and a==0: return zext(not_(1,c),1,w)
    return mk('ite',w,(c,a,b))
def popc_vars(ts):
    seen=set();out=set();st=[t for t in ts if isinstance(t,T)]
    while st:
        t=st.pop()
        if t.id in seen: continue
        seen.add(t.id)
        if t.op=='var': out.add(t); continue
        for x in kids(t): st.append(x)
    return out
def kids(t):
    if t.op=='cat': return [s[0] for s in t.args if s[0] is not None]
    if t.op=='lin': return [x for x,_ in t.args]
    if t.op=='var': return []
    return [x for x in t.args if isinstance(x,T)]
def topo(ts,skip=()):
    out=[];seen=set();st=[(t,0) for t in ts if isinstance(t,T) and t.id not in skip]
    while st:
        t,f=st.pop()
        if f: out.append(t); continue
        if t.id in seen: continue
        seen.add(t.id); st.append((t,1))
        for x in kids(t):
            if x.id not in seen and x.id not in skip: st.append((x,0))
    return out
def _sg(v,w): return v-(1<<w) if v>>(w-1)&1 else v
def ev1(t,g):
    op=t.op;w=t.w
    if op=='cat':
        o=0;r=0
        for x,lo,n in t.args:
            r|=((lo if x is None else (g(x)>>lo))&M(n))<<o; o+=n
        return r
    if op=='lin':
        r=t.aux
        for x,c in t.args: r+=c*g(x)
        return r&M(w)
    a=[x if isinstance(x,int) else g(x) for x in t.args]
    if op=='xor':
        r=t.aux
        for x in a: r^=x
        return r
    if op=='and':
        r=t.aux
        for x in a: r&=x
        return r
    if op=='or':
        r=t.aux
        for x in a: r|=x
        return r
    if op=='mul': return a[0]*a[1]&M(w)
    if op=='udiv': return a[0]//a[1] if a[1] else M(w)
    if op=='urem': return a[0]%a[1] if a[1] else a[0]
    if op=='ite': return a[1] if a[0] else a[2]
    if op=='eq': return int(a[0]==a[1])
    if op=='ult': return int(a[0]<a[1])
    if op=='slt': return int(_sg(a[0],t.aux)<_sg(a[1],t.aux))
    if op=='cry': return (a[0]+a[1]+a[2])>>t.aux
    if op=='brw': return int(a[0]<a[1]+a[2])
    if op=='shl': return (a[0]<<a[1])&M(w) if a[1]<w else 0
    if op=='lshr': return a[0]>>a[1] if a[1]<w else 0
    if op=='ashr': return (_sg(a[0],w)>>min(a[1],w-1))&M(w)
    if op=='sext':
        x=t.args[0]; return sext(a[0],x.w,w)
    raise NotImplementedError(op)
def evalt(ts,env,default=0,memo=None):
    """env: var T or name -> int"""
    memo={} if memo is None else memo
    for t in topo(ts,memo):
        if t.op=='var':
            v=env.get(t)
            if v is None: v=env.get(t.args[0])
            memo[t.id]=default if v is None else v
        else: memo[t.id]=ev1(t,lambda x:memo[x.id])
    return [t if isinstance(t,int) else memo[t.id] for t in ts]
def subst(ts,env):
    """env: T -> T/int ; rebuild"""
    memo={}
    def g(x): return x if isinstance(x,int) else memo[x.id]
    for t in topo(ts):
        if t in env: memo[t.id]=env[t]; continue
        op=t.op
        if op=='var': memo[t.id]=t; continue
        k=kids(t)
        if all(memo[x.id] is x for x in k): memo[t.id]=t; continue
        memo[t.id]=rebuild(t,g)
    return [g(t) for t in ts]
def rebuild(t,g):
    op=t.op;w=t.w
    if op=='cat':
        ss=[]
        for x,lo,n in t.args:
            if x is None: ss.append((None,lo,n))
            else: ss+=segs(g(x),lo,n)
        return cat(w,ss)
    if op=='lin': return lin(w,[(g(x),c) for x,c in t.args],t.aux)
    a=[g(x) for x in t.args]
    if op=='xor': return xor(w,t.aux,*a)
    if op=='and': return and_(w,t.aux,*a)
    if op=='or': return or_(w,t.aux,*a)
    if op=='mul': return mul(w,*a)
    if op=='ite': return ite(w,*a)
    if op=='eq': return eq(t.aux,*a)
    if op=='ult': return ult(t.aux,*a)
    if op=='slt': return slt(t.aux,*a)
    if op=='cry': return carry(t.aux,*a)
    if op=='brw': return borrow(t.aux,*a)
    if op=='sext': return sext(a[0],t.args[0].w,w)
    return {'udiv':udiv,'urem':urem,'shl':shl,'lshr':lshr,'ashr':ashr}[op](w,*a)
