"""Interpreter for the x86-64 inline assembly (AT&T syntax, LLVM operand form)."""
import re
import terms as tm
from terms import M,T
from functools import lru_cache
R64=['rax','rbx','rcx','rdx','rsi','rdi','rbp','rsp']+[f'r{i}' for i in range(8,16)]
SUB={}
for r in R64:
    SUB[r]=(r,64)
    if r[1:].isdigit(): SUB[r+'d']=(r,32);SUB[r+'w']=(r,16);SUB[r+'b']=(r,8)
    else:
        SUB['e'+r[1:]]=(r,32);SUB[r[1:]]=(r,16)
        SUB[(r[1]+'l') if r[2]=='x' else r[1:]+'l']=(r,8)
SUFF={'q':64,'l':32,'w':16,'b':8}
BASES=set('mov add adc sub sbb xor and or cmp test mul imul shl shr sar sal shld shrd neg not inc dec lea bt btr bts btc bswap ror rol rcl rcr adcx adox mulx rorx andn'.split())
CC={'c':'c','b':'c','nae':'c','nc':'!c','ae':'!c','nb':'!c','z':'z','e':'z','nz':'!z','ne':'!z','s':'s','ns':'!s','o':'o','no':'!o','a':'a','be':'!a','na':'!a','nbe':'a','l':'l','ge':'!l'}
class AsmErr(Exception): pass

@lru_cache(None)
def parse(tmpl):
    stm=[]
    macros={};cur=None
    for raw in re.split(r'[;\n]',tmpl):
        l=raw.split('#')[0].strip() if not raw.strip().startswith('#') else ''
        if not l: continue
        if l.startswith('.macro'):
            p=l[6:].replace(',',' ').split(); cur=(p[0],p[1:],[]); continue
        if l.startswith('.endm'): macros[cur[0]]=cur; cur=None; continue
        if l.startswith('.purgem'): continue
        if cur is not None: cur[2].append(l); continue
        stm+=expand(l,macros)
    out=[]
    for l in stm:
        m=re.match(r'(\S+)\s*(.*)$',l)
        ops=[];d=0;c=''
        for ch in m.group(2):
            if ch==',' and d==0: ops.append(c.strip()); c=''; continue
            if ch in'({': d+=1
            if ch in')}': d-=1
            c+=ch
        if c.strip(): ops.append(c.strip())
        out.append((m.group(1).lower(),tuple(ops)))
    return out
def expand(l,macros):
    m=re.match(r'(\S+)\s*(.*)$',l)
    if m.group(1) in macros:
        _,ps,body=macros[m.group(1)]
        args=[a.strip() for a in m.group(2).split(',')]
        out=[]
        for b in body:
            for p,a in sorted(zip(ps,args),key=lambda x:-len(x[0])): b=re.sub(r'\\'+p+r'(?![A-Za-z0-9_])',lambda _:a,b)
            out+=expand(b,macros)
        return out
    return [l]

class CPU:
    def __init__(s,ex,ops,wids):
        s.ex=ex; s.regs={}; s.ops=ops; s.w=wids; s.fl={}; s.wrote=set(); s.memw=False; s.memr=False; s.undefflags=True
    def freg(s,n):
        v=s.regs.get(n)
        if v is None:
            v=s.ex.undef(64,'asm register '+n); s.regs[n]=v
        return v
    def immediate(s,t):
        return int(t,0)
    def loc(s,o):
        """-> ('r',reg,w) | ('o',idx,w) | ('i',val) | ('m',ptr)"""
        if o.startswith('$$'): return ('i',s.immediate(o[2:]))
        m=re.fullmatch(r'%+([a-z0-9]+)',o)
        if m:
            r,w=SUB[m.group(1)]; return ('r',r,w)
        m=re.fullmatch(r'\$(\d+)',o)
        if m: return ('o',int(m.group(1)),None)
        m=re.fullmatch(r'\$\{(\d+)(?::([a-z]))?\}',o)
        if m: return ('o',int(m.group(1)),{'k':32,'q':64,'w':16,'b':8,None:None}[m.group(2)])
        m=re.fullmatch(r'(-?(?:0x[0-9a-fA-F]+|\d+)?)\(([^)]*)\)',o)
        if m:
            off=int(m.group(1),0) if m.group(1) not in('','-') else 0
            parts=[p.strip() for p in m.group(2).split(',')]
            base=s.get(parts[0],64) if parts[0] else 0
            p=s.ex.padd(base,off) if not isinstance(base,T) else s.ex.padd(s.ex.i2p(base),off)
            if len(parts)>1:
                ix=s.get(parts[1],64); sc=int(parts[2]) if len(parts)>2 else 1
                if not isinstance(ix,int): raise AsmErr('index')
                p=s.ex.padd(p,ix*sc)
            return ('m',p)
        raise AsmErr('operand '+o)
    def width(s,o):
        k=s.loc(o) if not '(' in o else ('m',)
        if k[0]=='r': return k[2]
        if k[0]=='o': return k[2] or s.w[k[1]]
        return None
    def get(s,o,w):
        k=s.loc(o)
        if k[0]=='i': return k[1]&M(w)
        if k[0]=='r':
            v=s.freg(k[1])
            if w==64: return v
            return tm.ext(s.ex._int(v),0,w,64)
        if k[0]=='o':
            v=s.ops[k[1]]
            ow=s.w[k[1]]
            if v is None: v=s.ex.undef(64,'asm operand'); s.ops[k[1]]=v; s.w[k[1]]=ow
            if isinstance(v,tuple): return v
            if w==ow: return v
            v=s.ex._int(v)
            return tm.ext(v,0,w,ow) if w<ow else tm.zext(v,ow,w)
        s.memr=True
        return s.ex.rd(k[1],w//8)
    def put(s,o,w,v):
        k=s.loc(o)
        if k[0]=='r':
            s.wrote.add(k[1])
            if w==64: s.regs[k[1]]=v
            elif w==32: s.regs[k[1]]=tm.zext(v,32,64)
            else: s.regs[k[1]]=tm.concat([(v,w),(tm.ext(s.ex._int(s.freg(k[1])),w,64-w,64),64-w)])
        elif k[0]=='o':
            s.wrote.add(k[1]); ow=s.w[k[1]]
            if w==ow: s.ops[k[1]]=v
            elif w<ow:
                if w==32: s.ops[k[1]]=tm.zext(v,32,ow)
                else: s.ops[k[1]]=tm.concat([(v,w),(tm.ext(s.ex._int(s.ops[k[1]]),w,ow-w,ow),ow-w)])
            else: s.ops[k[1]]=tm.ext(v,0,ow,w)
        elif k[0]=='m':
            s.memw=True
            s.ex.wr(k[1],w//8,v)
        else: raise AsmErr('write to imm')
    def flag(s,f):
        v=s.fl.get(f)
        if v is None: v=s.ex.undef(1,'asm flag '+f); s.fl[f]=v
        if callable(v): v=v(); s.fl[f]=v
        return v
    def cond(s,cc):
        k=CC[cc]; n=k[0]=='!'; k=k.lstrip('!')
        if k=='a': v=tm.not_(1,tm.or_(1,s.flag('c'),s.flag('z')))
        elif k=='l': v=tm.xor(1,s.flag('s'),s.flag('o'))
        else: v=s.flag(k)
        return tm.not_(1,v) if n else v
    def szf(s,r,w):
        s.fl['z']=lambda:tm.eq(w,r,0); s.fl['s']=lambda:tm.ext(r,w-1,1,w)
    def addf(s,a,b,c,w):
        r=tm.add3(w,a,b,c)
        s.fl['c']=tm.carry(w,a,b,c)
        s.fl['o']=lambda:tm.and_(1,tm.not_(1,tm.xor(1,tm.ext(a,w-1,1,w),tm.ext(b,w-1,1,w))),tm.xor(1,tm.ext(a,w-1,1,w),tm.ext(r,w-1,1,w)))
        s.szf(r,w); return r
    def subf(s,a,b,c,w):
        r=tm.sub3(w,a,b,c)
        s.fl['c']=tm.borrow(w,a,b,c)
        s.fl['o']=lambda:tm.and_(1,tm.xor(1,tm.ext(a,w-1,1,w),tm.ext(b,w-1,1,w)),tm.xor(1,tm.ext(a,w-1,1,w),tm.ext(r,w-1,1,w)))
        s.szf(r,w); return r
    def step(s,mn,ops):
        ex=s.ex
        I=ex._int
        base=mn;w=None
        if mn in('clc',): s.fl['c']=0; return
        if mn in('stc',): s.fl['c']=1; return
        if mn in('nop','vzeroupper'): return
        if mn=='vpbroadcastq':
            k=s.loc(ops[0])
            v=ex.rd(k[1],8) if k[0]=='m' else s.get(ops[0],64)
            s.memr=True
            s.ops[s.loc(ops[1])[1]]=('bcast',v); s.wrote.add(s.loc(ops[1])[1]); return
        if mn.startswith('cmov'):
            cc=mn[4:]
            if cc not in CC and cc[-1] in 'ql' and cc[:-1] in CC: w=SUFF[cc[-1]]; cc=cc[:-1]
            if w is None: w=s.width(ops[1])
            c=s.cond(cc)
            a=I(s.get(ops[0],w));b=I(s.get(ops[1],w))
            s.put(ops[1],w,tm.ite(w,c,a,b)); return
        if mn.startswith('set') and mn[3:] in CC:
            s.put(ops[0],8,tm.zext(s.cond(mn[3:]),1,8)); return
        if base not in BASES:
            if mn[:-1] in BASES and mn[-1] in SUFF: base=mn[:-1]; w=SUFF[mn[-1]]
            else: raise AsmErr('mnemonic '+mn)
        if w is None:
            for o in reversed(ops):
                w=s.width(o)
                if w: break
            if w is None: raise AsmErr('width '+mn)
        if base=='mov': s.put(ops[1],w,s.get(ops[0],w)); return
        if base in('lea',):
            k=s.loc(ops[0]); s.put(ops[1],w,k[1]); return
        if base in('add','adc'):
            b=I(s.get(ops[0],w));a=I(s.get(ops[1],w)); c=s.flag('c') if base=='adc' else 0
            s.put(ops[1],w,s.addf(a,b,c,w)); return
        if base in('sub','sbb'):
            c=s.flag('c') if base=='sbb' else 0
            b=I(s.get(ops[0],w));a=I(s.get(ops[1],w))
            s.put(ops[1],w,s.subf(a,b,c,w)); return
        if base=='cmp': s.subf(I(s.get(ops[1],w)),I(s.get(ops[0],w)),0,w); return
        if base=='neg':
            a=I(s.get(ops[0],w)); s.put(ops[0],w,s.subf(0,a,0,w)); return
        if base=='not':
            a=I(s.get(ops[0],w)); s.put(ops[0],w,tm.not_(w,a)); return
        if base in('inc','dec'):
            c=s.fl.get('c'); a=I(s.get(ops[0],w)); r=(s.addf if base=='inc' else s.subf)(a,1,0,w)
            if c is None: s.fl.pop('c',None)
            else: s.fl['c']=c
            s.put(ops[0],w,r); return
        if base in('adcx','adox'):
            f='c' if base=='adcx' else 'o'
            b=I(s.get(ops[0],w));a=I(s.get(ops[1],w));c=s.flag(f)
            s.fl[f]=tm.carry(w,a,b,c); s.put(ops[1],w,tm.add3(w,a,b,c)); return
        if base in('xor','and','or','test'):
            if base=='xor' and s.loc(ops[0])==s.loc(ops[1]) : r=0
            else:
                b=I(s.get(ops[0],w));a=I(s.get(ops[1],w))
                r={'xor':tm.xor,'and':tm.and_,'or':tm.or_,'test':tm.and_}[base](w,a,b)
            s.fl['c']=0;s.fl['o']=0;s.szf(r,w)
            if base!='test': s.put(ops[1],w,r)
            return
        if base=='mulx':
            a=I(s.get(ops[0],w));b=I(s.get('%rdx' if w==64 else '%edx',w))
            p=tm.mul(2*w,tm.zext(a,w,2*w),tm.zext(b,w,2*w))
            s.put(ops[1],w,tm.ext(p,0,w,2*w)); s.put(ops[2],w,tm.ext(p,w,w,2*w)); return
        if base=='mul' or (base=='imul' and len(ops)==1):
            if base=='imul': raise AsmErr('imul1')
            a=I(s.get(ops[0],w));b=I(s.get('%rax' if w==64 else '%eax',w))
            p=tm.mul(2*w,tm.zext(a,w,2*w),tm.zext(b,w,2*w)); hi=tm.ext(p,w,w,2*w)
            s.put('%rax' if w==64 else '%eax',w,tm.ext(p,0,w,2*w)); s.put('%rdx' if w==64 else '%edx',w,hi)
            f=lambda:tm.not_(1,tm.eq(w,hi,0))
            s.fl={'c':f,'o':f}; return
        if base=='imul':
            b=I(s.get(ops[0],w)); a=I(s.get(ops[1],w))
            d=ops[1]
            if len(ops)==3: d=ops[2]
            s.put(d,w,tm.mul(w,a,b))
            if isinstance(a,int): a,b=b,a
            def f(a=a,b=b):
                if isinstance(b,int):
                    k=tm._sg(b,w)
                    if isinstance(a,int): return int(not(-(1<<(w-1))<=tm._sg(a,w)*k<(1<<(w-1))))
                    if k>0:
                        lo=-((1<<(w-1))//k); hi=((1<<(w-1))-1)//k
                        return tm.not_(1,tm.ult(w,tm.add(w,a,(-lo)&M(w)),hi-lo+1))
                p=tm.mul(2*w,tm.sext(a,w,2*w),tm.sext(b,w,2*w))
                return tm.not_(1,tm.eq(2*w,p,tm.sext(tm.ext(p,0,w,2*w),w,2*w)))
            s.fl={'c':f,'o':f}; return
        if base in('shl','sal','shr','sar'):
            if len(ops)==1: k=1
            else:
                k=s.get(ops[0],8)
                if not isinstance(k,int): raise AsmErr('var shift')
            k&=63 if w==64 else 31
            a=I(s.get(ops[-1],w))
            if k==0: return
            if base in('shl','sal'): r=tm.shlc(w,a,k); c=tm.ext(a,w-k,1,w)
            elif base=='shr': r=tm.lshrc(w,a,k); c=tm.ext(a,k-1,1,w)
            else: r=tm.ashrc(w,a,k); c=tm.ext(a,k-1,1,w)
            s.fl={'c':c}; s.szf(r,w); s.put(ops[-1],w,r); return
        if base in('shld','shrd'):
            k=s.get(ops[0],8)
            if not isinstance(k,int): raise AsmErr('var shift')
            src=I(s.get(ops[1],w));d=I(s.get(ops[2],w))
            if base=='shld': r=tm.ext(tm.concat([(src,w),(d,w)]),w-k,w,2*w); c=tm.ext(d,w-k,1,w)
            else: r=tm.ext(tm.concat([(d,w),(src,w)]),k,w,2*w); c=tm.ext(d,k-1,1,w)
            s.fl={'c':c}; s.szf(r,w); s.put(ops[2],w,r); return
        if base in('ror','rol','rorx'):
            k=s.get(ops[0],8)%w
            a=I(s.get(ops[1],w)); 
            if base=='rol': k=(w-k)%w
            r=tm.ext(tm.concat([(a,w),(a,w)]),k,w,2*w)
            s.put(ops[-1],w,r)
            if base!='rorx': s.fl.pop('c',None); s.fl.pop('o',None)
            return
        if base in('bt','btr','bts','btc'):
            k=s.get(ops[0],8)
            if not isinstance(k,int): raise AsmErr('bt')
            k%=w
            a=I(s.get(ops[1],w)); s.fl['c']=tm.ext(a,k,1,w)
            if base=='btr': s.put(ops[1],w,tm.and_(w,a,M(w)^(1<<k)))
            elif base=='bts': s.put(ops[1],w,tm.or_(w,a,1<<k))
            elif base=='btc': s.put(ops[1],w,tm.xor(w,a,1<<k))
            return
        if base=='bswap':
            a=I(s.get(ops[0],w)); s.put(ops[0],w,tm.concat([(tm.ext(a,w-8-8*i,8,w),8) for i in range(w//8)])); return
        raise AsmErr(mn)

def run(ex,tmpl,cons,args,ret,argtys):
    cl=cons.split(',')
    outs=[c for c in cl if c.startswith('=')]
    ins=[c for c in cl if not c.startswith('=') and not c.startswith('~')]
    clob={c[2:-1] for c in cl if c.startswith('~')}
    if ret.k=='struct': otys=list(ret.el)
    elif ret.k=='void': otys=[]
    else: otys=[ret]
    if len(otys)!=len(outs) or len(ins)!=len(args): raise AsmErr('constraints '+cons)
    ops=[None]*len(outs)+list(args)
    wid=[(t.bits if t.k!='vec' else None) for t in otys]+[t.bits for t in argtys]
    for j,c in enumerate(ins):
        c=c.lstrip('&%')
        if c.isdigit(): ops[int(c)]=args[j]
    cpu=CPU(ex,ops,wid)
    ex.inlineasm+=1
    try: prog=parse(tmpl)
    except AsmErr as e: raise ex_uns(e)
    for mn,o in prog:
        try: cpu.step(mn,o)
        except (AsmErr,KeyError,ValueError,IndexError) as e: raise ex_uns(f'asm {mn} {o}: {e!r}')
    for r in cpu.wrote:
        if isinstance(r,str):
            if r not in clob: ex.out.append(('asm-clobber',r,tmpl[:40]))
        elif r>=len(outs): ex.out.append(('asm-input-written',r,tmpl[:40]))
    if cpu.memw and 'memory' not in clob: ex.out.append(('asm-no-memory-clobber',None,tmpl[:40]))
    res=[]
    for i,t in enumerate(otys):
        v=cpu.ops[i]
        if isinstance(v,tuple) and v and v[0]=='bcast': v=(v[1],)*t.n
        res.append(v)
    if ret.k=='struct': return tuple(res)
    return res[0] if res else None
def ex_uns(e):
    from ex import Unsupported
    return Unsupported(str(e))
