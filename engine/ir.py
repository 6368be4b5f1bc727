"""Parser for the textual LLVM IR subset that clang 18 emits for this code base."""
import re, struct

class Ty:
    __slots__=('k','n','el','packed','size','align','offs','bits')
    def __repr__(s): return f"<{s.k} {s.n} {s.el}>"
_ty={}
def _mk(k,n=None,el=None,packed=False):
    key=(k,n,id(el) if isinstance(el,Ty) else (tuple(map(id,el)) if el is not None else None),packed)
    if key in _ty: return _ty[key]
    t=Ty(); t.k=k; t.n=n; t.el=el; t.packed=packed; t.offs=None; t.bits=None
    if k=='i':
        t.bits=n; t.size=max(1,1<<((n+7)//8-1).bit_length()) if n>8 else 1
        t.align=min(t.size,16)
    elif k=='f': t.bits=n; t.size=n//8; t.align=t.size
    elif k=='ptr': t.bits=64; t.size=8; t.align=8
    elif k=='vec': t.size=max(1,n*el.bits//8); t.align=t.size; t.bits=n*el.bits
    elif k=='arr': t.size=n*el.size; t.align=el.align
    elif k=='struct':
        o=0; al=1; offs=[]
        for e in el:
            a=1 if packed else e.align
            o=(o+a-1)//a*a; offs.append(o); o+=e.size; al=max(al,a)
        t.offs=offs; t.align=al; t.size=(o+al-1)//al*al
    elif k in('void','label','metadata','func','vararg'): t.size=0; t.align=1
    _ty[key]=t
    return t
I1=_mk('i',1); I8=_mk('i',8); I16=_mk('i',16); I32=_mk('i',32); I64=_mk('i',64); I128=_mk('i',128)
PTR=_mk('ptr'); VOID=_mk('void'); F32=_mk('f',32); F64=_mk('f',64); META=_mk('metadata'); LABEL=_mk('label')

TOK=re.compile(r'''\s*(?:
 (?P<str>c?"(?:[^"\\]|\\.)*")|
 (?P<id>[%@](?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))|
 (?P<meta>![-a-zA-Z$._0-9]*)|
 (?P<attr>\#[0-9]+)|
 (?P<num>-?[0-9]+(?:\.[0-9]+(?:e[+-]?[0-9]+)?)?|0x[0-9A-Fa-f]+)|
 (?P<word>[a-zA-Z_][-a-zA-Z0-9_.]*)|
 (?P<p>\.\.\.|[\[\]{}()<>,=*:|])
 )''',re.X)
def tokenize(s):
    out=[];i=0;n=len(s)
    while i<n:
        m=TOK.match(s,i)
        if not m:
            if s[i:].strip()=='' : break
            if s[i:].lstrip()[0]==';': break
            raise SyntaxError('tok '+s[i:i+60])
        out.append(m.group().strip()); i=m.end()
    return out

def unescape(q):
    """LLVM string -> bytes"""
    out=bytearray();i=0
    while i<len(q):
        if q[i]=='\\':
            if q[i+1]=='\\': out.append(92); i+=2
            else: out.append(int(q[i+1:i+3],16)); i+=3
        else: out+=q[i].encode(); i+=1
    return bytes(out)

class Const:  # global reference with offset
    pass

class Global:
    __slots__=('name','ty','init','const','align','linkage','tls')
class Func:
    __slots__=('name','ret','params','blocks','entry','attrs','decl','vararg','nslots','internal','byval','labels')
class Block:
    __slots__=('name','instrs','phis','idx')

# operand encodings: ('r',slot) register ; python int ; ('undef',) ; ('g',name,off) ; ('vec',[...]) ; ('agg',[...]); ('zero',)
class Reg:
    __slots__=('i',)
    def __init__(s,i): s.i=i
    def __repr__(s): return f'%{s.i}'
class GRef:
    __slots__=('name','off')
    def __init__(s,n,o=0): s.name=n; s.off=o
    def __repr__(s): return f'@{s.name}+{s.off}'
class UndefC:
    def __repr__(s): return 'undef'
UNDEF=UndefC()

ATTRW=set('''noundef nonnull nocapture readonly readnone writeonly immarg returned signext zeroext inreg noalias nofree
 local_unnamed_addr unnamed_addr dso_local internal private external align nuw nsw exact inbounds disjoint
 nneg volatile tail musttail notail fastcc ccc cold hidden protected default weak linkonce_odr common
 dereferenceable dereferenceable_or_null allocalign allocptr allocsize swiftself nest sret byval'''.split())
BINOPS=set('add sub mul udiv sdiv urem srem and or xor shl lshr ashr'.split())
CASTS=set('zext sext trunc bitcast ptrtoint inttoptr freeze'.split())

class P:
    def __init__(s,toks,mod,fn=None): s.t=toks; s.i=0; s.m=mod; s.fn=fn
    def peek(s,o=0): return s.t[s.i+o] if s.i+o<len(s.t) else None
    def next(s): x=s.t[s.i]; s.i+=1; return x
    def acc(s,x):
        if s.i<len(s.t) and s.t[s.i]==x: s.i+=1; return True
        return False
    def exp(s,x):
        if not s.acc(x): raise SyntaxError(f'expected {x} got {s.t[s.i:s.i+8]} in {" ".join(s.t)[:200]}')
    def ty(s):
        w=s.next()
        if w=='void': t=VOID
        elif w=='ptr': t=PTR
        elif w=='double': t=F64
        elif w=='float': t=F32
        elif w=='metadata': t=META
        elif w=='label': t=LABEL
        elif w=='...': t=_mk('vararg')
        elif re.fullmatch(r'i\d+',w): t=_mk('i',int(w[1:]))
        elif w=='[':
            n=int(s.next()); s.exp('x'); e=s.ty(); s.exp(']'); t=_mk('arr',n,e)
        elif w=='<':
            if s.peek()=='{':
                s.next(); el=s.tylist('}'); s.exp('>'); t=_mk('struct',None,el,True)
            else:
                n=int(s.next()); s.exp('x'); e=s.ty(); s.exp('>'); t=_mk('vec',n,e)
        elif w=='{': t=_mk('struct',None,s.tylist('}'))
        elif w[0]=='%': t=s.m.types[w]
        else: raise SyntaxError('type '+w+' in '+' '.join(s.t)[:200])
        while s.peek()=='(':   # function type
            s.next()
            while not s.acc(')'): s.ty(); s.acc(',')
            t=_mk('func',None,t)
        return t
    def tylist(s,end):
        el=[]
        while not s.acc(end): el.append(s.ty()); s.acc(',')
        return tuple(el)
    def attrs(s):
        while True:
            w=s.peek()
            if w is None: return
            if w in ('align',) : s.next(); s.next(); continue
            if w in ATTRW:
                s.next()
                if s.peek()=='(' and w in('dereferenceable','dereferenceable_or_null','allocsize','sret','byval','memory'):
                    d=0
                    while True:
                        x=s.next()
                        if x=='(': d+=1
                        elif x==')':
                            d-=1
                            if d==0: break
                continue
            if w[0]=='#' : s.next(); continue
            return
    def const_or_reg(s,t):
        w=s.next()
        if w[0]=='%': return s.fn.slot(w)
        if w[0]=='@': return GRef(s.m.gname(w))
        if w in('undef','poison'): return UNDEF
        if w=='zeroinitializer' : return zero_of(t)
        if w=='null': return 0
        if w=='true': return 1
        if w=='false': return 0
        if w=='none': return 0
        if w=='<' or w=='[' or w=='{':
            if w=='<' and s.peek()=='{':
                s.next(); e='}'; packed=True
            else: e={'<':'>','[':']','{':'}'}[w]; packed=False
            out=[]
            while not s.acc(e):
                et=s.ty(); s.attrs(); out.append(s.const_or_reg(et)); s.acc(',')
            if packed: s.exp('>')
            return tuple(out)
        if w.startswith('c"'):
            return tuple(unescape(w[2:-1]))
        if w=='getelementptr':
            s.attrs(); s.exp('('); bt=s.ty(); s.exp(',')
            s.ty(); base=s.const_or_reg(PTR); off=0; cur=bt; first=True
            while s.acc(','):
                it=s.ty(); ix=s.const_or_reg(it)
                ix=sgn(ix,it.bits)
                if first: off+=ix*bt.size; first=False
                else: o,cur=gep_step(cur,ix); off+=o
            s.exp(')')
            if isinstance(base,int): return base+off
            return GRef(base.name,base.off+off)
        if w in('bitcast','inttoptr','ptrtoint'):
            s.exp('('); a=s.ty(); v=s.const_or_reg(a); s.exp('to'); s.ty(); s.exp(')'); return v
        if re.fullmatch(r'-?\d+',w):
            return int(w)&((1<<t.bits)-1)
        if w.startswith('0x') and t.k=='f': return int(w,16)
        if re.fullmatch(r'-?\d+\.\d+(e[+-]?\d+)?',w) and t.k=='f':
            return struct.unpack('<Q',struct.pack('<d',float(w)))[0] if t.n==64 else 0
        raise SyntaxError('const '+w+' '+str(t)+' '+' '.join(s.t)[:300])
    def tv(s):
        t=s.ty(); s.attrs(); return t,s.const_or_reg(t)

def sgn(v,b): return v-(1<<b) if v>>(b-1)&1 else v
def gep_step(cur,ix):
    if cur.k=='struct': return cur.offs[ix],cur.el[ix]
    return ix*cur.el.size,cur.el
def zero_of(t):
    if t.k in('i','ptr','f'): return 0
    if t.k in('vec','arr'): return (zero_of(t.el),)*t.n
    if t.k=='struct': return tuple(zero_of(e) for e in t.el)
    raise SyntaxError('zero '+t.k)

class FnCtx:
    def __init__(s): s.slots={}
    def slot(s,n):
        if n not in s.slots: s.slots[n]=len(s.slots)
        return Reg(s.slots[n])

class Module:
    def __init__(s,text):
        s.types={}; s.globals={}; s.funcs={}; s.raw={}
        lines=text.split('\n')
        # struct types (may be recursive through ptr only)
        pend=[l for l in lines if l.startswith('%') and ' = type ' in l]
        todo=pend; guard=0
        while todo and guard<50:
            nxt=[]
            for l in todo:
                n,r=l.split(' = type ',1)
                if r.strip()=='opaque': s.types[n]=_mk('struct',None,()); continue
                try: s.types[n]=P(tokenize(r),s).ty()
                except KeyError: nxt.append(l)
            todo=nxt; guard+=1
        i=0
        while i<len(lines):
            l=lines[i]
            if l.startswith('@'): s.parse_global(l)
            elif l.startswith('define'):
                j=i+1
                while lines[j]!='}': j+=1
                s.parse_func(l,lines[i+1:j]); i=j
            elif l.startswith('declare'): s.parse_decl(l)
            i+=1
    def gname(s,w):
        w=w[1:]
        return w[1:-1] if w[0]=='"' else w
    def parse_global(s,l):
        t=P(tokenize(l),s); g=Global(); g.name=s.gname(t.next()); t.exp('=')
        g.const=False; g.init=None; g.linkage=''; g.tls=False
        while True:
            w=t.peek()
            if w in('constant','global'):
                g.const=(w=='constant'); t.next(); break
            if w=='external': g.linkage='external'
            if w=='thread_local': g.tls=True
            if w in ('internal','private'): g.linkage=w
            if w=='addrspace': t.next();t.next();t.next();t.next();continue
            t.next()
        g.ty=t.ty()
        if t.peek() is not None and t.peek()!=',' and g.linkage!='external': g.init=t.const_or_reg(g.ty)
        g.align=g.ty.align
        while t.acc(','):
            if t.acc('align'): g.align=int(t.next())
            else: t.next()
        s.globals[g.name]=g
    def parse_hdr(s,l):
        toks=tokenize(l); t=P(toks,s); fc=FnCtx(); t.fn=fc
        t.next(); f=Func(); f.internal=False
        while t.peek() in ATTRW or t.peek()[0]=='#':
            if t.peek()=='internal': f.internal=True
            t.attrs()
        # return attrs may precede type
        f.ret=None
        t.attrs(); 
        f.ret=t.ty_nofn() if hasattr(t,'ty_nofn') else t.ty()
        f.name=s.gname(t.next()); t.exp('('); f.params=[]; f.vararg=False; k=0; f.byval={}
        while not t.acc(')'):
            ty=t.ty()
            if ty.k=='vararg': f.vararg=True; continue
            # byval(type)
            bv=None
            save=t.i
            while t.peek() not in(',',')') and not (t.peek()[0]=='%'):
                if t.peek() in('byval','sret'):
                    w=t.next(); t.exp('('); bt=t.ty(); t.exp(')')
                    if w=='byval': bv=bt
                else:
                    before=t.i; t.attrs()
                    if t.i==before: t.next()
            nm=None
            if t.peek()[0]=='%': nm=t.next()
            else: nm='%'+str(k)
            f.params.append((ty,fc.slot(nm)))
            if bv is not None: f.byval[k]=bv
            k+=1; t.acc(',')
        return f,fc
    def parse_decl(s,l):
        f,_=s.parse_hdr(l); f.decl=True; f.blocks=None; s.funcs[f.name]=f
    def parse_func(s,l,body):
        f,fc=s.parse_hdr(l); f.decl=False
        f.attrs=None; f.blocks=None
        s.funcs[f.name]=f; s.raw[f.name]=(fc,body)
    def get(s,name):
        f=s.funcs.get(name)
        if f is not None and not f.decl and f.blocks is None: s._compile(f)
        return f
    def _compile(s,f):
        fc,body=s.raw[f.name]
        blocks=[];cur=None;labels={}
        # join multi-line switch
        lines=[];buf=None
        for l in body:
            if buf is not None:
                buf+=' '+l.strip()
                if l.strip().startswith(']'): lines.append(buf); buf=None
                continue
            st=l.strip()
            if st.startswith('switch') and not st.endswith(']') and '[' in st and ']' not in st.split('[',1)[1]:
                buf=st; continue
            lines.append(l)
        for l in lines:
            if not l.strip() or l.lstrip().startswith(';'): continue
            m=re.match(r'^("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+):',l)
            if m and not l.startswith(' '):
                cur=Block(); cur.name='%'+m.group(1); cur.instrs=[]; cur.phis=[]; cur.idx=len(blocks)
                labels[cur.name]=cur.idx; blocks.append(cur); continue
            if cur is None:
                cur=Block(); cur.name='%entry!'; cur.instrs=[]; cur.phis=[]; cur.idx=0; blocks.append(cur); labels['%'+str(len(f.params))]=0
            ins=s.parse_instr(l,fc,f)
            if ins is None: continue
            if ins[0]=='phi': cur.phis.append(ins)
            else: cur.instrs.append(ins)
        f.labels=labels
        # resolve labels
        for b in blocks:
            b.phis=[('phi',d,t,{labels[x]:v for v,x in inc}) for (_,d,t,inc) in b.phis]
            k=b.instrs[-1]
            if k[0]=='br': b.instrs[-1]=('br',labels[k[1]])
            elif k[0]=='condbr': b.instrs[-1]=('condbr',k[1],labels[k[2]],labels[k[3]])
            elif k[0]=='switch': b.instrs[-1]=('switch',k[1],k[2],labels[k[3]],[(v,labels[x]) for v,x in k[4]])
        f.blocks=blocks; f.nslots=len(fc.slots); f.entry=0
    def parse_instr(s,l,fc,f):
        # strip metadata suffix
        l=re.sub(r', ![a-zA-Z.]+ ![0-9]+','',l)
        t=P(tokenize(l),s,fc)
        d=None
        if t.peek()[0]=='%' and t.peek(1)=='=':
            d=fc.slot(t.next()).i; t.next()
        op=t.next()
        while op in('tail','musttail','notail'): op=t.next()
        if op in BINOPS:
            t.attrs(); ty,a=t.tv(); t.exp(','); b=t.const_or_reg(ty)
            return ('bin',d,op,ty,a,b)
        if op=='icmp':
            pr=t.next(); ty,a=t.tv(); t.exp(','); b=t.const_or_reg(ty)
            return ('icmp',d,pr,ty,a,b)
        if op in CASTS:
            t.attrs(); ty,a=t.tv()
            if op=='freeze': return ('cast',d,'freeze',ty,a,ty)
            t.exp('to'); t2=t.ty()
            return ('cast',d,op,ty,a,t2)
        if op=='load':
            vol=t.acc('volatile'); t.attrs(); ty=t.ty(); t.exp(','); _,p=t.tv(); al=1
            if t.acc(','):
                if t.acc('align'): al=int(t.next())
            return ('load',d,ty,p,al)
        if op=='store':
            vol=t.acc('volatile'); t.attrs(); ty,v=t.tv(); t.exp(','); _,p=t.tv(); al=1
            if t.acc(','):
                if t.acc('align'): al=int(t.next())
            return ('store',None,ty,v,p,al,vol)
        if op=='alloca':
            ty=t.ty(); n=1; al=ty.align
            while t.acc(','):
                if t.acc('align'): al=int(t.next())
                else:
                    _,n=t.tv()
            return ('alloca',d,ty,n,al)
        if op=='getelementptr':
            t.attrs(); bt=t.ty(); t.exp(','); pt,p=t.tv(); steps=[];coff=0;cur=bt;first=True
            while t.acc(','):
                it,ix=t.tv()
                if first: sz=bt.size; first=False
                elif cur.k=='struct':
                    o,cur=gep_step(cur,ix); coff+=o; continue
                else: sz=cur.el.size; cur=cur.el
                if isinstance(ix,int): coff+=sgn(ix,it.bits)*sz
                else: steps.append((ix,it.bits,sz))
            return ('gep',d,p,coff,steps)
        if op=='phi':
            ty=t.ty(); inc=[]
            while True:
                t.exp('['); v=t.const_or_reg(ty); t.exp(','); lab=t.next(); t.exp(']'); inc.append((v,lab))
                if not t.acc(','): break
            return ('phi',d,ty,inc)
        if op=='br':
            if t.acc('label'): return ('br',t.next())
            t.ty(); c=t.const_or_reg(I1); t.exp(','); t.exp('label'); a=t.next(); t.exp(','); t.exp('label'); b=t.next()
            return ('condbr',c,a,b)
        if op=='switch':
            ty,v=t.tv(); t.exp(','); t.exp('label'); dl=t.next(); t.exp('['); cs=[]
            while not t.acc(']'):
                _,c=t.tv(); t.exp(','); t.exp('label'); cs.append((c,t.next()))
            return ('switch',v,ty,dl,cs)
        if op=='ret':
            if t.peek()=='void': return ('ret',None,None)
            ty,v=t.tv(); return ('ret',ty,v)
        if op=='unreachable': return ('unreachable',)
        if op=='select':
            ct,c=t.tv(); t.exp(','); ty,a=t.tv(); t.exp(','); _,b=t.tv()
            return ('select',d,ct,c,ty,a,b)
        if op=='extractelement':
            ty,v=t.tv(); t.exp(','); it,ix=t.tv(); return ('extractelement',d,ty,v,ix)
        if op=='insertelement':
            ty,v=t.tv(); t.exp(','); et,e=t.tv(); t.exp(','); it,ix=t.tv(); return ('insertelement',d,ty,v,e,ix)
        if op=='shufflevector':
            ty,a=t.tv(); t.exp(','); _,b=t.tv(); t.exp(','); mt,m=t.tv()
            return ('shufflevector',d,ty,a,b,m,mt.n)
        if op=='extractvalue':
            ty,v=t.tv(); ix=[]
            while t.acc(','): ix.append(int(t.next()))
            return ('extractvalue',d,v,ix)
        if op=='insertvalue':
            ty,v=t.tv(); t.exp(','); et,e=t.tv(); ix=[]
            while t.acc(','): ix.append(int(t.next()))
            return ('insertvalue',d,v,e,ix)
        if op=='call':
            t.attrs(); rt=t.ty()
            if t.peek()=='asm':
                t.next(); side=False
                while t.peek() in('sideeffect','alignstack','inteldialect','unwind'): t.next()
                tmpl=unescape(t.next()[1:-1]).decode(); t.exp(','); cons=unescape(t.next()[1:-1]).decode()
                args=s.callargs(t)
                return ('asm',d,rt,tmpl,cons,args)
            w=t.next()
            if w[0]=='@': callee=GRef(s.gname(w))
            else: callee=fc.slot(w)
            args=s.callargs(t)
            if isinstance(callee,GRef) and callee.name.startswith(('llvm.lifetime','llvm.dbg','llvm.prefetch','llvm.x86.avx.vzeroupper','llvm.assume','llvm.experimental.noalias')): return None
            return ('call',d,rt,callee,args)
        raise SyntaxError('instr '+l)
    def callargs(s,t):
        t.exp('('); args=[]
        while not t.acc(')'):
            ty=t.ty(); et=None
            while True:
                if t.peek() in('elementtype','byval','sret'):
                    w=t.next(); t.exp('('); x=t.ty(); t.exp(')')
                    if w!='sret': et=x
                else:
                    b=t.i; t.attrs()
                    if t.i==b: break
            if ty.k=='metadata':
                while t.peek() not in(',',')'): t.next()
                args.append((ty,None,None))
            else: args.append((ty,t.const_or_reg(ty),et))
            t.acc(',')
        return args
