"""Limb layouts of the field representations and the specifications of the field kernels."""
import terms as tm
from terms import T,M
from intdom import ID,Poly,padd,pscale,pconst,ZERO
P25519=2**255-19
P448=2**448-2**224-1
class Rep:
    def __init__(s,name,field,p,lanes,size,digs,w,nat):
        s.name=name;s.field=field;s.p=p;s.lanes=lanes;s.size=size;s.digs=digs;s.w=w;s.nat=nat
        s.full=(w==64)
    def enc(s,vals,digits=None):
        """concrete bytes of an element whose lanes hold the given digit lists"""
        b=bytearray(s.size)
        for l in range(s.lanes):
            for (o,e),d in zip(s.digs[l],vals[l]): b[o:o+8]=d.to_bytes(8,'little')
        return bytes(b)
    def split(s,x):
        """nonnegative integer -> digit list"""
        out=[];es=[e for o,e in s.digs[0]]
        order=sorted(range(len(es)),key=lambda i:es[i]); out=[0]*len(es)
        for j,i in enumerate(order):
            nx=es[order[j+1]] if j+1<len(order) else None
            if nx is None: out[i]=x
            else: out[i]=x&((1<<(nx-es[i]))-1); x>>=nx-es[i]
        return out
    def val(s,data,l):
        return sum(int.from_bytes(data[o:o+8],'little')<<e for o,e in s.digs[l])
def _e255(j): return (51*j+1)//2
def _il(n): # interleaved digit order
    return [j//2+(n//2)*(j%2) for j in range(n)]
def _mk():
    R={}
    def add(*a):
        r=Rep(*a); R[r.field,r.name]=r
    for f,p,n,ex,fw in (('25519',P25519,10,_e255,4),('448',P448,16,lambda j:28*j,7)):
        add('1f',f,p,1,8*fw,[[(8*i,64*i) for i in range(fw)]],64,[64]*fw)
        add('1d',f,p,1,16*fw,[[(8*i,64*i) for i in range(2*fw)]],64,[64]*2*fw)
        add('2f',f,p,2,16*fw,[[(8*i+8*fw*l,64*i) for i in range(fw)] for l in range(2)],64,[64]*fw)
        add('2d',f,p,2,32*fw,[[(8*i+16*fw*l,64*i) for i in range(2*fw)] for l in range(2)],64,[64]*2*fw)
        o=_il(n); w=[ex(j+1)-ex(j) for j in range(n)]
        nat=[w[j] for j in o]
        add('1r',f,p,1,8*(12 if n==10 else 16),[[(8*i,ex(o[i])) for i in range(n)]],0,nat)
        add('2r',f,p,2,32*(n//2),[[(32*(i//2)+8*(i%2)+16*l,ex(o[i])) for i in range(n)] for l in range(2)],0,nat)
        add('4r',f,p,4,32*n,[[(32*i+8*l,ex(o[i])) for i in range(n)] for l in range(4)],0,nat)
    return R
REPS=_mk()
class Kern:
    """ops: list of (name,rep,mode) in call order, mode in i(n) o(ut) x(in place) ; spec(V)->{name:[lane polys]}"""
    def __init__(s,id,field,ops,spec,exact=False,pre=()):
        s.id=id;s.field=field;s.ops=ops;s.spec=spec;s.exact=exact;s.pre=pre
    @property
    def p(s): return P25519 if s.field=='25519' else P448
class V:
    """operand values as polynomials, with a tiny arithmetic"""
    def __init__(s,I,d): s.I=I; s.d=d
    def __getitem__(s,k): return s.d[k]
    def add(s,a,b): return [padd(x,y) for x,y in zip(a,b)]
    def sub(s,a,b): return [padd(x,y,-1) for x,y in zip(a,b)]
    def mul(s,a,b): return [s.I.pmul(x,y) for x,y in zip(a,b)]
    def neg(s,a): return [pscale(x,-1) for x in a]
    def sc(s,a,k): return [pscale(x,k) for x in a]
def kernels():
    K={}
    def k(id,field,ops,spec,**kw): K[id]=Kern(id,field,ops,spec,**kw)
    for f in ('25519','448'):
        a24=121666 if f=='25519' else 39082
        def S(x): return f'Fp{f}.{x}'
        A='_1w_full.arith.';X='_1w_full.arithex.'
        bi=[('c','1f','o'),('a','1f','i'),('b','1f','i')]
        k(S(A+'add'),f,bi,lambda v:{'c':v.add(v['a'],v['b'])})
        k(S(A+'sub'),f,bi,lambda v:{'c':v.sub(v['a'],v['b'])})
        k(S(A+'mul'),f,bi,lambda v:{'c':v.mul(v['a'],v['b'])})
        k(S(A+'neg'),f,[('c','1f','x')],lambda v:{'c':v.neg(v['c'])})
        k(S(A+'sqr'),f,[('c','1f','x')],lambda v:{'c':v.mul(v['c'],v['c'])})
        k(S(X+'intmul'),f,[('c','1d','o'),('a','1f','i'),('b','1f','i')],lambda v:{'c':v.mul(v['a'],v['b'])},exact=True)
        k(S(X+'intmul2'),f,[('c','2d','o'),('a','2f','i'),('b','2f','i')],lambda v:{'c':v.mul(v['a'],v['b'])},exact=True)
        k(S(X+'intsqr'),f,[('c','1d','o'),('a','1f','i')],lambda v:{'c':v.mul(v['a'],v['a'])},exact=True)
        k(S(X+'intsqr2'),f,[('c','2d','o'),('a','2f','i')],lambda v:{'c':v.mul(v['a'],v['a'])},exact=True)
        k(S(X+'mula24'),f,[('c','1f','o'),('a','1f','i')],lambda v,a24=a24:{'c':v.sc(v['a'],a24)})
        k(S(X+'reduce'),f,[('c','1f','o'),('a','1d','i')],lambda v:{'c':v['a']})
        k(S(X+'reduce2'),f,[('c','2f','o'),('a','2d','i')],lambda v:{'c':v['a']})
        for n in (1,2,4):
            r=f'{n}r'; A=f'_{n}w_red.arith.'; X=f'_{n}w_red.arithex.'
            bi=[('c',r,'o'),('a',r,'i'),('b',r,'i')]
            k(S(A+'add'),f,bi,lambda v:{'c':v.add(v['a'],v['b'])})
            k(S(A+'sub'),f,bi,lambda v:{'c':v.sub(v['a'],v['b'])})
            k(S(A+'mul'),f,bi,lambda v:{'c':v.mul(v['a'],v['b'])})
            if not(f=='448' and n>1): k(S(A+'neg'),f,[('c',r,'x')],lambda v:{'c':v.neg(v['c'])})
            k(S(A+'sqr'),f,[('c',r,'x')],lambda v:{'c':v.mul(v['c'],v['c'])})
            k(S(X+'intmul'),f,bi,lambda v:{'c':v.mul(v['a'],v['b'])})
            if n>1: k(S(X+'intsqr'),f,[('c',r,'x')],lambda v:{'c':v.mul(v['c'],v['c'])})
            k(S(X+'compress'),f,[('c',r,'x')],lambda v:{'c':v['c']})
            k(S(X+'compressfast'),f,[('c',r,'x')],lambda v:{'c':v['c']})
            if n>1: k(S(X+'compress2'),f,[('c',r,'x'),('d',r,'x')],lambda v:{'c':v['c'],'d':v['d']})
            if n==4:
                k(S(X+'new_compressfast2'),f,[('c',r,'x'),('d',r,'x')],lambda v:{'c':v['c'],'d':v['d']})
                k(S(X+'addsub'),f,[('c',r,'o'),('d',r,'o'),('a',r,'i'),('b',r,'i')],lambda v:{'c':v.add(v['a'],v['b']),'d':v.sub(v['a'],v['b'])})
                k(S(X+'addsublar'),f,[('a',r,'x'),('b',r,'x')],lambda v:{'a':v.add(v['a'],v['b']),'b':v.sub(v['a'],v['b'])})
                k(S(A+'ngz'),f,[('c',r,'o'),('a',r,'i')],lambda v:{'c':[v['a'][1],v['a'][0],v.neg([v['a'][2]])[0],v['a'][3]]})
            else:
                k(S(X+'addsub'),f,[('a',r,'x'),('b',r,'x')],lambda v:{'a':v.add(v['a'],v['b']),'b':v.sub(v['a'],v['b'])})
            if n==2:
                k(S(A+'ngz'),f,[('c',r,'o'),('a',r,'i')],lambda v:{'c':[v.neg([v['a'][0]])[0],v['a'][1]]})
                k(S(X+'inter'),f,[('c',r,'o'),('a','1r','i'),('b','1r','i')],lambda v:{'c':[v['a'][0],v['b'][0]]})
                k(S(X+'deinter'),f,[('c','1r','o'),('d','1r','o'),('a',r,'i')],lambda v:{'c':[v['a'][0]],'d':[v['a'][1]]})
    return K
