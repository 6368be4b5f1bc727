"""Native replays for C21/C22: a C driver per unit, built with sanitizers, for valgrind, or with clang's branch and address trace."""
import os,subprocess,resource
import build,nat,pt,kern,api
from fields import REPS
ED={'25519':(32,'Ed25519'),'448':(57,'Ed448')}
DHN={'X25519':32,'X25519_x64':32,'X448':56}
def body(u,l):
    """([(buffer,size,alignment,kind s|p|o|z)], statements)"""
    k=u[0]
    if k=='dh':
        n=DHN[u[1]]
        if u[2]=='keygen': return [('priv',n,1,'s'),('out',n,1,'o')],[f'{u[1]}.keygen(out,priv);']
        return [('priv',n,1,'s'),('peer',n,1,'p'),('out',n,1,'o')],[f'{u[1]}.shared(out,peer,priv);']
    if k=='sig':
        _,f,v,op=u; n,T=ED[f]; m,c=l; ctx=not(f=='25519' and v=='Pure'); ca='ctx,%d,'%c if ctx else ''
        B=[('priv',n,1,'s'),('pub',n,1,'p'),('msg',m,1,'p'),('ctx',c,1,'p'),('sig',2*n,1,'o')]
        if op=='keygen': return [B[0],('pub',n,1,'o')],[f'{T}.{v}.keygen(pub,priv);']
        if op=='sign': return B,[f'{T}.{v}.sign(sig,msg,{m},{ca}pub,priv);']
        return B,[f'if(it&1) {T}.{v}.keygen(pub,priv); {T}.{v}.sign(sig,msg,{m},{ca}pub,priv); if(it%5==4) for(int i={n};i<{2*n-1};i++) sig[i]=rnd(); if(it%7==6) memset(sig+{n},0,{n}); if(it%11==10) memcpy(sig+{n},VF_L{f},{n}); if(it%13==12) for(int i=0;i<{n};i++) pub[i]=i?0:rnd()%9;',
                  f'{T}.{v}.verify(msg,{m},{ca}pub,sig);']
    if k=='kern':
        kk=kern.K[u[1]]; B=[];a=[str(x) for x in kk.pre]
        for nm,rn,md in kk.ops: B.append(('b_'+nm,REPS[kk.field,rn].size,32,'s' if md in 'ix' else 'o')); a.append('(void*)b_'+nm)
        return B,[f'{u[1]}({",".join(a)});']
    if k=='inv': n=REPS[u[1],u[2]].size; return [('a',n,32,'s'),('c',n,32,'o')],[f'{u[3]}((void*)c,(void*)a);']
    if k in('sha512','sha384'):
        n=u[1]; h=n//3; nd=64 if k=='sha512' else 48
        return [('data',n,1,'s'),('dig',nd,1,'o')],[f'{{ sph_sha384_context c; sph_{k}_init(&c); sph_{k}(&c,data,{h}); sph_{k}(&c,data+{h},{n-h}); sph_{k}_close(&c,dig); }}']
    if k=='two':
        n=u[1]; m=32 if n=='256b' else n
        return [('m0',m,1,'s'),('m1',m,1,'s'),('d0',64,1,'o'),('d1',64,1,'o')],['{ uint8_t*mm[2]={m0,m1},*dd[2]={d0,d1}; '+('sha512_2w_avx_256b(mm,dd);' if n=='256b' else f'sha512_2w_avx(mm,{m},dd);')+'}']
    if k=='sha3':
        hb,n=u[1:]; h=n//3
        return [('data',n,1,'s'),('dig',hb//8,1,'o')],[f'{{ hashState s; Init(&s,{hb}); Update(&s,data,{8*h}); Update(&s,data+{h},{8*(n-h)}); Final(&s,dig); Hash({hb},data,{8*n},dig); }}']
    if k=='xof':
        hb,n,m=u[1:]; h=n//3
        return [('data',n,1,'s'),('dig',m,1,'o')],[f'{{ hashState s; Init(&s,{hb}); Update(&s,data,{8*h}); Update(&s,data+{h},{8*(n-h)}); Final2(&s,dig,{m}); Hash2({hb},data,{8*n},dig,{m}); }}']
    if k=='shake':
        hb,n,m=u[1:]; return [('data',n,1,'s'),('dig',m,1,'o')],[f'SHAKE{hb}(data,{8*n},dig,{m});']
    if k=='perm': return body({'sha':('sha512',300),'keccak':('sha3',256,300),'two':('two',300)}[u[1]],None)
    if k=='dec': n=ED[u[1]][0]; return [('pub',n,1,'p'),('P',pt.size('4w',u[1]),32,'o')],[f'point_decoding_ed{u[1]}((void*)P,0,pub);'.replace('ed448','ed448')]
    if k=='dsm': return body(('sig',u[1],'Pure' if u[1]=='25519' else 'PureContext','verify'),(5,0))
    if k=='h2c': return [('msg',u[2],1,'p'),('P',64,32,'o')],[f'{u[1]}((void*)P,msg,{u[2]});']
    if k=='pred': return [('P',64,32,'p'),('Q',64,32,'p')],['isOnCurve((void*)P);' if u[1]=='isOnCurve' else 'areEqual((void*)P,(void*)Q);']
    if k=='prng': return [('buf',40,1,'o')],['prgn_random_bytes(buf,40);']
    if k=='rand': return [('out',512,32,'o')],[f'{u[1]}.{u[2]}((void*)out);']
    if k=='alloc':
        import c_flow
        n,al=c_flow.alloc_size(u[1]); return [],[f'{{ uint8_t*q=(uint8_t*){u[1]}(); memset(q,1,{n}); if((uintptr_t)q%{al}) __builtin_trap(); {u[1].replace("alloc","free")}((void*)q); }}']
    return None
def prelude(u):
    import c_dsm
    arr=lambda f:'static const uint8_t VF_L%s[%d]={%s};\n'%(f,ED[f][0],','.join(str(b) for b in (c_dsm.CFG[f].L-1).to_bytes(ED[f][0],'little')))
    s='#include <stdio.h>\n#include <stdlib.h>\n#include <string.h>\n'
    hashes=u[0] in('sha512','sha384','sha3','xof','shake','two') or u[0]=='perm'
    if hashes: s+='#include "sha512.h"\n#include "sha3.h"\nvoid sha512_2w_avx(uint8_t**,unsigned,uint8_t**);void sha512_2w_avx_256b(uint8_t**,uint8_t**);\n'
    else: s+=f'#include "{build.REPO}/src/target.c"\n'
    s+=arr('25519')+arr('448')
    s+='''static uint64_t sd=88172645463325252ull; static uint8_t rnd(void){ sd^=sd<<13; sd^=sd>>7; sd^=sd<<17; return sd>>24; }
static void fill(uint8_t*p,long n,int m){ long i; for(i=0;i<n;i++) p[i]=m==0?0:m==1?255:m==2?0:rnd(); if(m==2&&n) p[rnd()%n]=1<<(rnd()&7); if(m==4&&n>8) for(i=n/2;i<n;i++) p[i]=0; if(m==5&&n>8) for(i=0;i<n/2;i++) p[i]=0; if(m==6&&n) p[0]&=7; }
'''
    return s
def srcs(u): return [os.path.join(build.REPO,f) for f in build.sources() if not f.endswith('target.c') or u[0] in('sha512','sha384','sha3','xof','shake','two','perm')]
INC=['-I'+build.REPO+'/include','-I'+build.REPO+'/third_party']
BASE=['-std=gnu99','-m64','-DNDEBUG','-mavx2','-mbmi2','-madx','-w']+INC
def memdrv(u,l,init=None,N=60,check_out=False,leak=False):
    B,S=body(u,l); s=prelude(u)
    if u[0]=='sig': s+='void vf_use(const void*p){(void)p;}\n'
    s+='#include <malloc.h>\nint main(void){ int it; long last=0,grow=0; volatile unsigned acc=0; (void)acc;\nfor(it=0;it<%d;it++){ struct mallinfo2 m0=mallinfo2(); (void)m0; {\n'%N
    for n,k,al,kd in B:
        if al==1: s+=f'uint8_t*{n}_=malloc({k}+1),*{n}={n}_+1;'
        else: s+=f'uint8_t*{n}_=0,*{n}; posix_memalign((void**)&{n}_,32,{k}); {n}={n}_;'
        if kd!='o': s+=f'fill({n},{k},it<7?it:rnd()&7);\n'
    for n,v in (init or {}).items():
        for b,k,al,kd in B:
            if b==n and kd!='o': s+=f'if(it==0){{ static const uint8_t v[]={{{",".join(map(str,v[:k]))}}}; memcpy({n},v,sizeof v); }}\n'
    s+='\n'.join(S[:-1])+'\n'
    if leak: s+='m0=mallinfo2();'
    s+=S[-1]+'\n'
    if leak: s+='{ struct mallinfo2 m1=mallinfo2(); if(m1.uordblks+m1.hblkhd>m0.uordblks+m0.hblkhd) grow++; }'
    if check_out and u[0]!='dec':
        for n,k,al,kd in B:
            if kd=='o': s+=f'for(int i=0;i<{k};i++) if({n}[i]&1) acc++;\n'
    for n,*_ in B: s+=f'free({n}_);'
    s+='}}\n'+('if(grow>%d) { printf("LEAK %%ld\\n",grow); return 9; }'%(N//2) if leak else '')+'return 0;}\n'
    return s
def build_run(src,u,cc,flags,run=(),timeout=200,env=None,exe=None):
    d=build.tmp(); t=f'fd{os.getpid()}_{abs(hash((src,tuple(flags))))%10**9}'; c=os.path.join(d,t+'.c'); x=os.path.join(d,t)
    open(c,'w').write(src)
    if exe is not None: exe.append(x)
    r=subprocess.run([cc]+BASE+list(flags)+[c]+srcs(u)+['-o',x],capture_output=True,text=True,timeout=300)
    if r.returncode: return None,'build: '+r.stderr[-300:]
    try: r=subprocess.run(list(run)+[x],capture_output=True,text=True,timeout=timeout,errors='replace',env={**os.environ,**(env or {})})
    except subprocess.TimeoutExpired: return None,'timeout'
    return r.returncode,(r.stdout+r.stderr)
SAN=['-O1','-g','-fsanitize=address,alignment,bounds,object-size','-fno-sanitize-recover=all']
def mem(u,l,r):
    """a description of what the native code does wrong, or None; r: result of the symbolic run"""
    init=r.get('init')
    if body(u,l) is None: return None
    if r['fault'] and 'never released' in r['fault']:
        rc,o=build_run(memdrv(u,l,init,leak=True),u,'gcc',['-O2'])
        return o.strip() if rc==9 else None
    if r['fault'] or r['mis']:
        rc,o=build_run(memdrv(u,l,init),u,'gcc',SAN,env={'ASAN_OPTIONS':'detect_leaks=0:detect_stack_use_after_return=1'})
        if rc: 
            ls=[x for x in o.split('\n') if 'ERROR' in x or 'runtime error' in x or x.strip().startswith(('#0','#1','#2'))]
            return ' | '.join(ls[:5])[:600] or f'exit {rc}: {o[:200]}'
    if r['uninit'] or r['fault']:
        rc,o=build_run(memdrv(u,l,init,N=8,check_out=True),u,'gcc',['-O1','-g'],run=('valgrind','-q','--error-exitcode=9','--exit-on-first-error=yes'))
        if rc==9: return 'valgrind: '+' | '.join(x.split('== ',1)[-1].strip() for x in o.split('\n')[:6])[:500]
        rc,o=build_run(memdrv(u,l,init,N=8,check_out=True),u,'gcc',['-O0','-g'],run=('valgrind','-q','--error-exitcode=9','--exit-on-first-error=yes'))
        if rc==9: return 'valgrind: '+' | '.join(x.split('== ',1)[-1].strip() for x in o.split('\n')[:6])[:500]
    return None
TR='''
static volatile int vf_on; static uint64_t vf_h,vf_n; 
#define NT __attribute__((no_sanitize("coverage"),noinline))
NT static void vf_mix(uint64_t x){ vf_h=(vf_h^x)*0x9E3779B97F4A7C15ull; vf_h^=vf_h>>29; vf_n++; }
NT void __sanitizer_cov_trace_pc_guard_init(uint32_t*a,uint32_t*b){ static uint32_t n; for(;a<b;a++) if(!*a) *a=++n; }
NT void __sanitizer_cov_trace_pc_guard(uint32_t*g){ if(vf_on) vf_mix(*g); }
#define L(n,s) NT void __sanitizer_cov_##n(void*p){ if(vf_on) vf_mix((uint64_t)p*4+s); }
L(load1,0)L(load2,0)L(load4,0)L(load8,0)L(load16,0)L(store1,1)L(store2,1)L(store4,1)L(store8,1)L(store16,1)
'''
def ct(u,l,r,N=400):
    """two secrets with different traces of branches and addresses"""
    B,S=body(u,l); s=prelude(u)+TR; s+='NT static void filln(uint8_t*p,long n,int m){fill(p,n,m);}\n'
    s+='int main(void){ int it,i,pass; '
    for n,k,al,kd in B: s+=f'static uint8_t {n}A[{k}+64] __attribute__((aligned(64))); uint8_t*{n}={n}A; static uint8_t {n}S[{k}+1];'
    s+='\nuint64_t h0=0,n0=0;\n'
    for n,k,al,kd in B:
        if kd=='p': s+=f'fill({n},{k},3);'
    s+=f'for(it=0;it<{N};it++){{\n'
    for n,k,al,kd in B:
        if kd=='s': s+=f'fill({n},{k},it==0?3:it<8?it-1:rnd()&7); memcpy({n}S,{n},{k});'
    for n,v in (r.get('init') or {}).items():
        for b,k,al,kd in B:
            if b==n and kd=='s': s+=f'if(it==1){{ static const uint8_t v[]={{{",".join(map(str,v[:k]))}}}; memcpy({n},v,sizeof v); memcpy({n}S,v,sizeof v); }}\n'
    s+='for(pass=0;pass<2;pass++){\n'
    for n,k,al,kd in B:
        if kd=='s': s+=f'memcpy({n},{n}S,{k});'
        if kd=='o': s+=f'memset({n},0,{k});'
    s+='\n'+'\n'.join(S[:-1])+'\nvf_h=0;vf_n=0;vf_on=1;\n'+S[-1]+'\nvf_on=0;\n'
    s+='if(pass==0){ if(it==0){h0=vf_h;n0=vf_n;} }\n else if(it==0&&(vf_h!=h0)) { printf("UNSTABLE\\n"); return 3; }\n'
    s+='if(it&&vf_h!=h0){ if(pass) { printf("DIFF trial %d events %lu %lu\\nsecret ",it,(unsigned long)vf_n,(unsigned long)n0); '
    for n,k,al,kd in B:
        if kd=='s': s+=f'for(i=0;i<{k};i++) printf("%02x",{n}S[i]); printf(" ");'
    s+='printf("\\n"); return 9; } }\n}}\nprintf("SAME %lu events\\n",(unsigned long)n0); return 0;}\n'
    rc,o=build_run(s,u,'clang',['-O1','-fsanitize-coverage=trace-pc-guard,trace-loads,trace-stores,no-prune'])
    if rc==9: return o.strip()
    r['nat']=(rc,str(o)[-200:])
    return None

def static(u,l,r):
    """the unit with the program's own static storage made read-only during the call"""
    if body(u,l) is None: return None
    s=memdrv(u,l,r.get('init'),N=24); call=body(u,l)[1][-1]+'\n'
    pre='''#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <signal.h>
#include <unistd.h>
#include <sys/mman.h>
extern char __data_start[],_end[];
static void vf_prot(int p){ char*a=(char*)((unsigned long)__data_start&~4095ul); mprotect(a,(_end-a+4095)&~4095ul,p); }
static void vf_seg(int n,siginfo_t*i,void*c){ char*p=i->si_addr; (void)n;(void)c; if(p<__data_start||p>=_end) _exit(98); dprintf(1,"WROTE %lx\\n",(unsigned long)p); _exit(97); }
'''
    i=s.rindex(call); s=s[:i]+'vf_prot(PROT_READ);\n'+call+'vf_prot(PROT_READ|PROT_WRITE);\n'+s[i+len(call):]
    s=s.replace('int main(void){ int it;','int main(void){ int it; struct sigaction sa; memset(&sa,0,sizeof sa); sa.sa_sigaction=vf_seg; sa.sa_flags=SA_SIGINFO; sigaction(SIGSEGV,&sa,0);',1)
    for cc,fl in (('gcc',['-O2']),('gcc',['-O0']),('clang',['-O1'])):
        x=[]; rc,o=build_run(pre+s,u,cc,fl+['-no-pie','-Wl,-z,now','-Wl,-z,relro'],exe=x)
        if rc==97:
            a=int(o.split('WROTE')[1].split()[0],16); sy=''
            for ln in subprocess.run(['nm','-S',x[0]],capture_output=True,text=True).stdout.split('\n'):
                f=ln.split()
                if len(f)==4 and int(f[0],16)<=a<int(f[0],16)+int(f[1],16): sy=f[3]
            return f'a call writes static storage ({sy or hex(a)}), with which a concurrent call interferes'
    r['nat']=(rc,str(o)[-200:])
    return None
