"""C23: the random source is asked for every byte exactly once, whatever read() and open() return."""
import os,ctypes,subprocess
import build,ex as exm,terms as tm,api,nat
from solve import Solver
from lia import Lia
from ex import Ptr
M64=tm.M(64)
class Stop(Exception): pass
STUB='''
#include <stddef.h>
#include <stdint.h>
#include <errno.h>
#include <setjmp.h>
#include <string.h>
#include <stdarg.h>
static long scr[64]; static int ern[64], nscr, pos, openrc, nopen, nclose, badfd, over; static uint8_t*lo,*hi; static uint8_t seq; static jmp_buf jb;
int vf_open(const char*p,int f,...){ (void)p;(void)f; nopen++; if(openrc<0){errno=ENOENT;return -1;} return openrc; }
long vf_read(int fd,void*b,size_t n){ long r; size_t i; if(fd!=openrc||nclose) badfd++; if(pos>=nscr){ r=(long)(n>1?1:n);} else { r=scr[pos]; if(r<0){ errno=ern[pos]; pos++; return -1;} pos++; } if((size_t)r>n) r=(long)n;
  for(i=0;i<(size_t)r;i++){ uint8_t*q=(uint8_t*)b+i; if(q<lo||q>=hi) over++; else *q=++seq?seq:++seq; } 
  if((uint8_t*)b<lo||(uint8_t*)b+n>hi) over++;
  return r; }
int vf_close(int fd){ if(fd!=openrc) badfd++; nclose++; return 0; }
void vf_abort(void){ longjmp(jb,1); }
void vf_exit(int c){ (void)c; longjmp(jb,1); }
extern void prgn_random_bytes(uint8_t*,size_t);
/* returns a bit mask of what went wrong; 0 when fine or when the call never returned */
int vf_run(uint8_t*buf,size_t n,int orc,const long*s,const int*e,int k){ volatile size_t i; volatile int bad=0; for(i=0;i<(size_t)k;i++){scr[i]=s[i];ern[i]=e[i];} nscr=k;pos=0;openrc=orc;nopen=nclose=badfd=over=0;seq=0;lo=buf;hi=buf+n; memset(buf,0,n);
  if(setjmp(jb)) return over?2:0;
  prgn_random_bytes(buf,n);
  for(i=0;i<n;i++) if(buf[i]==0) bad|=1;
  for(i=0;i<n;i++) if(buf[i]!=(uint8_t)(i%255+1)) bad|=8;
  if(over) bad|=2; if(orc>=0&&(nclose!=1||badfd)) bad|=4; return bad; }
'''
def replay(n,orc,script,errs):
    def go():
        d=build.tmp(); c=os.path.join(d,'rngstub.c'); so=os.path.join(d,'rng.so')
        src=os.path.join(build.REPO,'third_party/prng.c')
        open(c,'w').write('#define open vf_open\n#define read vf_read\n#define close vf_close\n#define abort vf_abort\n#define exit vf_exit\n#define _exit vf_exit\n#include "%s"\n#undef open\n#undef read\n#undef close\n#undef abort\n#undef exit\n'%src+STUB)
        # declarations of the stand-ins come before the headers that declare the originals
        open(c+'.h','w').write('#include <stddef.h>\n#include <unistd.h>\n#include <fcntl.h>\n#include <stdlib.h>\nint vf_open(const char*,int,...);long vf_read(int,void*,size_t);int vf_close(int);void vf_abort(void) __attribute__((noreturn));void vf_exit(int) __attribute__((noreturn));\n')
        build.sh(['gcc','-O1','-w','-shared','-fPIC','-I'+build.REPO+'/third_party','-include',c+'.h',c,'-o',so])
        L=ctypes.CDLL(so); b=build.Buf(n)
        k=len(script); r=L.vf_run(b.p,ctypes.c_size_t(n),orc,(ctypes.c_long*max(k,1))(*script),(ctypes.c_int*max(k,1))(*errs),k)
        return r|(0 if b.guards_ok() else 2)
    return nat.forked(go,timeout=60)
WHAT={1:'returns with bytes never filled by the source',2:'asks for bytes outside the request',4:'does not release the descriptor it opened',8:'bytes are not each taken once, in order, from the source'}
def run_C23(c):
    mod=build.module(); K=8 if c.thorough else 5
    c.bounds+= [f'at most {K} calls of read() per request, every return value in {{-1}} and 0..remaining symbolic; every request size below 2^31, symbolic; errno symbolic; open() result symbolic',
                'randKey and rand entry points: every request they issue, for all source bytes']
    c.assume+=['read() returns at most what it is asked for (POSIX)','abort()/exit() do not return']
    S=Lia(20000); npaths=0; done=set(); cut=0
    n=tm.zext(tm.var('num',31),31,64)
    dec=exm.Decider(S,maxpaths=6000)
    bad={}
    def fail(key,e,conds,rets):
        """counterexample: small request first"""
        if key in done: return
        for lim in (16,255,1<<20,1<<33):
            if S.sat(list(e.pc)+conds+[tm.ult(64,n,lim),tm.ult(64,0,n)],model=True)=='sat':
                m=dict(S.model_); break
        else: return
        val=lambda t: t if isinstance(t,int) else tm.evalt([t],m)[0]
        nv=tm.evalt([n],m)[0]; orc=val(e.fd); orc=-1 if orc==tm.M(32) else 5
        script=[val(t) for t,_ in rets]; script=[-1 if v>>63 else v for v in script]; errs=[val(er)&0x7fffffff or 4 for _,er in rets]
        if nv>1<<20: c.undec(key,'counterexample only at large sizes'); return
        r=replay(nv,orc,script,errs)
        if r[0]=='ok' and r[1]:
            w=', '.join(t for b,t in WHAT.items() if r[1]&b)
            done.add(key); c.violation('prng:'+key,f'prgn_random_bytes(buf,{nv}) {w}; open()={orc}, read() results {script}',{'num_bytes':nv,'open':orc,'read':script,'errno':errs,'mask':r[1]})
        elif r[0] in('crash','timeout'):
            done.add(key); c.violation('prng:'+key,f'prgn_random_bytes(buf,{nv}) {r[0]}; open()={orc}, read() results {script}',{'num_bytes':nv,'open':orc,'read':script,'errno':errs,'outcome':str(r)})
        else: c.undec(key,f'solver counterexample not reproduced natively: n={nv} open={orc} read={script} -> {r}')
    try:
      for _ in dec:
        e=exm.Ex(mod,decider=dec,solver=S); e.fd=None; rets=[]; opened=[0]; closed=[0]; eno=[None]; state={'sum':0}
        buf=e.alloc('buf',1<<62,32)
        e.pc=[tm.ult(64,n,1<<31)]; e.lem=list(e.pc); e.pcset=set(e.pc)
        def chk(key,cond):
            v=S.valid(e.lem+e.pc[-3:],cond,3000)[0] if len(e.pc)>6 else None    # a subset of the facts suffices for a proof
            if not v: v,_=S.valid(e.pc,cond)
            if v is False: fail(key,e,[tm.not_(1,cond)],rets); return False
            if v is None: c.undec(key,'solver timeout'); return False
            return True
        def h_open(x,path,flags,*a):
            s=b''
            i=0
            while True:
                v=x.rd(x.padd(path,i),1)
                if v==0: break
                s+=bytes([v]); i+=1
            if s not in(b'/dev/urandom',b'/dev/random'): raise exm.Unsupported('source '+repr(s))
            opened[0]+=1
            fd=tm.var(f'fd{opened[0]}',32); e.fd=fd
            x.assume(tm.or_(1,tm.eq(32,fd,tm.M(32)),tm.ult(32,fd,1<<20)))
            return fd
        def source(x,p,ln,tag):
            if len(rets)>=K: raise Stop()
            if not isinstance(p,Ptr) or p.o is not buf.o: raise exm.Fault('read','destination is not the caller\'s buffer')
            ln=x._int(ln)
            off=p.off
            chk('offset',tm.eq(64,off,state['sum'])) 
            chk('length',tm.not_(1,tm.or_(1,tm.ult(64,tm.sub(64,n,off),ln),tm.ult(64,n,off))))
            k=len(rets); er=tm.var(f'errno{k}',32); eno[0]=er; bad=tm.var(f'err{k}',1); rv=tm.zext(tm.var(f'r{k}',31),31,64)
            x.assume(tm.and_(1,tm.ult(32,0,er),tm.ult(32,er,134)))
            if x.fd is not None and tag=='read': x.assume(tm.or_(1,tm.not_(1,tm.eq(32,x.fd,tm.M(32))),bad))
            rets.append((tm.ite(64,bad,M64,rv),er))
            if x.truth(bad): return M64
            x.assume(tm.not_(1,tm.ult(64,ln,rv))); r=rv
            state['sum']=tm.add(64,state['sum'],r)
            lem=tm.not_(1,tm.ult(64,n,state['sum']))
            if (S.valid(x.lem+x.pc[-3:],lem,5000)[0] or S.valid(x.pc,lem)[0]): x.lem=x.lem+[lem]; x.assume(lem)
            return r
        def h_read(x,fd,p,ln):
            if e.fd is None: raise exm.Fault('read','no descriptor')
            if closed[0] or not(fd is e.fd or chk('descriptor',tm.eq(32,fd,e.fd))): fail('descriptor',e,[],rets)
            return source(x,p,ln,'read')
        def h_getrandom(x,p,ln,fl): return source(x,p,ln,'getrandom')
        def h_close(x,fd):
            closed[0]+=1
            return 0
        def h_errno(x):
            o=x.new('errno',4,4); x.wr_(o,0,4,eno[0] if eno[0] is not None else tm.var('errno_open',32)); return Ptr(o,0)
        def never(x,*a): raise exm.Exit()
        e.hooks={'open':h_open,'open64':h_open,'read':h_read,'getrandom':h_getrandom,'close':h_close,'__errno_location':h_errno,'abort':never,'exit':never,'_exit':never,'perror':lambda x,*a:None,'__assert_fail':never}
        try:
            e.call('prgn_random_bytes',buf,n)
            npaths+=1
            ok=chk('filled',tm.eq(64,state['sum'],n))
            if e.fd is not None:
                cond=tm.eq(32,e.fd,tm.M(32))
                if closed[0]!=1: chk('released',cond)
            c.note_ex(e)
        except Stop: cut+=1
        except exm.Exit: npaths+=1; c.note_ex(e)
        except exm.Infeasible: pass
        except exm.Fault as x: fail('fault:'+x.kind,e,[],rets)
    except exm.Unsupported as x:
        c.undec('prgn_random_bytes',x)
        scan(c,done)
        return
    if not c.viol and not c.undecided:
        for k in ('offset','length','descriptor','filled','released'): c.good(f'prgn_random_bytes: {k}',f'{npaths} complete paths, {cut} cut at {K} reads')
    elif not c.viol: scan(c,done)
    # entry points
    for slot,size in SLOTS:
        try: one(c,mod,slot,size)
        except (exm.Unsupported,exm.Fault,KeyError) as x: c.undec(slot,x)
SLOTS=[('X25519.randKey',32),('X25519_x64.randKey',32),('X448.randKey',56)]+[(f'Ed25519.{v}.randKey',32) for v in('Pure','PreHash','Context')]+[(f'Ed448.{v}.randKey',57) for v in('PureContext','PreHash')]
def one(c,mod,slot,size):
    """the key buffer holds exactly what the source delivered, all of it, and nothing else is written"""
    e=exm.Ex(mod); g=slot.split('.')[0]
    fn=api.irfn(e,slot)
    if fn is None: c.undec(slot,'no such entry'); return
    key=e.alloc('key',size,1); req=[]
    src=tm.var
    def h(x,p,n):
        req.append((p,n))
        if p.o is not key.o: raise exm.Unsupported('other buffer')
        for i in range(n): x.wr(x.padd(p,i),1,tm.var(f'src{len(req)}_{i}',8))
    e.hooks={'prgn_random_bytes':h}
    try: e.call(fn,key)
    except exm.Fault as x:
        viol_entry(c,slot,size,str(x)); return
    c.note_ex(e)
    want=[tm.var(f'src1_{i}',8) for i in range(size)]
    got=[e.rd_(key.o,i,1) for i in range(size)]
    s=Solver(10000); cond=1
    for a,b in zip(got,want): cond=tm.and_(1,cond,tm.eq(8,a,b))
    v,_=s.valid([],cond)
    if v and len(req)==1: c.good(slot+' fills the whole key from one request')
    elif v is False or len(req)!=1: viol_entry(c,slot,size,'key bytes differ from the source bytes')
    else: c.undec(slot,'solver')
def viol_entry(c,slot,size,why):
    def go():
        N=build.native(); g,o=api.where(slot)
        seen=[]
        for t in range(64):
            b=build.Buf(size,bytes(size),1); build._Fn(N.slot(g,o),None)(b); seen.append(b.get())
            if not b.guards_ok(): return 'writes outside the key'
        st=[i for i in range(size) if len({x[i] for x in seen})==1]
        return f'bytes {st} constant over 64 keys' if st else None
    r=nat.forked(go,timeout=60)
    if r[0]=='ok' and r[1]: c.violation('entry:'+slot,f'{slot}: {r[1]} ({why})',{'slot':slot,'observed':r[1]})
    elif r[0]=='crash': c.violation('entry:'+slot,f'{slot}: crash ({why})',{'slot':slot,'observed':str(r)})
    else: c.undec(slot,why)
def scan(c,done):
    """the encoding did not decide: look for a native counterexample among short scripts"""
    for n in (1,5,32):
        for orc in (5,-1):
            for s in ([],[-1],[1,-1],[-1,-1,1],[0,1],[n-1,-1],[1]*3,[n//2,-1]):
                r=replay(n,orc,s,[4]*len(s))
                if r[0]!='ok' or r[1]:
                    if 'scan' in done: return
                    done.add('scan'); c.violation('prng:scan',f'prgn_random_bytes(buf,{n}) open()={orc} read()={s}: {r}',{'num_bytes':n,'open':orc,'read':s}); return
