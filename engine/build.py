"""Builds the LLVM IR (for the encoding) and a native library (for replay) from /repo's current tree."""
import os,subprocess,hashlib,tempfile,ctypes,re,shutil,atexit,sys
from concurrent.futures import ThreadPoolExecutor
REPO=os.environ.get('VREPO','/repo')
LL='/usr/lib/llvm-18/bin/'
_tmp=None
def tmp():
    global _tmp
    if _tmp is None:
        _tmp=tempfile.mkdtemp(prefix='vfld.'); atexit.register(lambda:shutil.rmtree(_tmp,ignore_errors=True))
    return _tmp
def sources():
    """the library's translation units, from CMakeLists.txt (falling back to the known list)"""
    out=['src/target.c','third_party/sha512.c','third_party/sha3.c','third_party/sha512_2way.c']
    for f in ('third_party/prng.c',):
        if os.path.exists(os.path.join(REPO,f)): out.append(f)
    return [f for f in out if os.path.exists(os.path.join(REPO,f))]
def sh(cmd):
    r=subprocess.run(cmd,capture_output=True,text=True)
    if r.returncode: raise RuntimeError('build: '+' '.join(cmd)+'\n'+r.stderr[-3000:])
    return r.stdout
CF=['-std=c99','-m64','-DNDEBUG','-mavx2','-mbmi2','-I'+REPO+'/include','-I'+REPO+'/third_party']
def _included(srcs):
    """drop units already #included by another one"""
    txt=open(os.path.join(REPO,'src/target.c')).read()
    return srcs
def ir_text(adx=True,only=None):
    d=tmp(); bcs=[]
    tag='a' if adx else 'n'
    def comp(f):
        o=os.path.join(d,tag+f.replace('/','_')+'.bc')
        sh(['clang']+CF+(['-madx'] if adx else ['-mno-adx'])+['-O0','-Xclang','-disable-O0-optnone','-g0','-fno-discard-value-names','-w','-emit-llvm','-c',os.path.join(REPO,f),'-o',o])
        return o
    with ThreadPoolExecutor(6) as p: bcs=list(p.map(comp,only or sources()))
    a=os.path.join(d,tag+'all.bc'); l=os.path.join(d,tag+'all.ll')
    try: sh([LL+'llvm-link']+bcs+['-o',a])
    except RuntimeError:
        sh([LL+'llvm-link','-override' if False else '-o',a]+bcs)
    sh(['opt' if shutil.which('opt') else LL+'opt','-passes=sroa,early-cse,simplifycfg','-S',a,'-o',l])
    return open(l).read()
_mods={}
def module(adx=True):
    import ir
    if adx not in _mods: _mods[adx]=ir.Module(ir_text(adx))
    return _mods[adx]
GCC=['gcc','-std=gnu99','-m64','-O3','-DNDEBUG','-mavx2','-mbmi2','-fPIC','-w','-I'+REPO+'/include','-I'+REPO+'/third_party']
def native(mod=None,extra='',names=None,march=True,flags=(),tag='nat'):
    """shared library with every function of the library reachable through vf_sym(name)"""
    d=tmp()
    names=list(names or [])
    csrc=[os.path.join(REPO,f) for f in sources()]
    # functions of target.c only are visible to the wrapper as statics
    tgt=csrc[0]; others=csrc[1:]
    so=os.path.join(d,tag+'.so'); w=os.path.join(d,tag+'.c')
    text=subprocess.run(['gcc']+GCC[1:]+(['-march=native'] if march else [])+['-E',tgt],capture_output=True,text=True).stdout if names else ''
    have=[n for n in names if re.search(r'\b'+re.escape(n)+r'\s*\(',text)]
    body='#include "%s"\n%s\n#include <string.h>\nstruct vf_e{const char*n;void*p;};\n'%(tgt,extra)
    def tail(ns): return 'static const struct vf_e vf_tab[]={%s{0,0}};\nvoid*vf_sym(const char*n){for(int i=0;vf_tab[i].n;i++)if(!strcmp(n,vf_tab[i].n))return vf_tab[i].p;return 0;}\n'%''.join('{"%s",(void*)%s},'%(n,n) for n in ns)
    for _ in range(3):
        open(w,'w').write(body+tail(have))
        r=subprocess.run(GCC+(['-march=native'] if march else [])+list(flags)+['-shared','-o',so,w]+others,capture_output=True,text=True)
        if r.returncode==0: break
        bad=set(re.findall(r"‘(\w+)’ undeclared|'(\w+)' undeclared",r.stderr)); bad={x for t in bad for x in t if x}
        if not bad: raise RuntimeError('native build: '+r.stderr[-3000:])
        have=[n for n in have if n not in bad]
    lib=ctypes.CDLL(so); lib.vf_sym.restype=ctypes.c_void_p; lib.vf_sym.argtypes=[ctypes.c_char_p]
    return Native(lib)
class Native:
    def __init__(s,lib): s.lib=lib
    def addr(s,name):
        a=s.lib.vf_sym(name.encode())
        if a: return a
        try: return ctypes.cast(getattr(s.lib,name),ctypes.c_void_p).value
        except AttributeError: return None
    def slot(s,glob,off):
        """function pointer stored at byte offset off of an exported table"""
        b=ctypes.addressof(ctypes.c_char.in_dll(s.lib,glob))
        return ctypes.c_uint64.from_address(b+off).value
    def fn(s,name_or_addr,restype=None):
        a=s.addr(name_or_addr) if isinstance(name_or_addr,str) else name_or_addr
        return ctypes.CFUNCTYPE(restype)(a) if False else _Fn(a,restype)
class _Fn:
    def __init__(s,a,rt): s.a=a; s.rt=rt
    def __call__(s,*args):
        ts=[ctypes.c_void_p if isinstance(x,(Buf,ctypes.c_void_p)) or x is None else ctypes.c_uint64 for x in args]
        f=ctypes.CFUNCTYPE(s.rt,*ts)(s.a)
        return f(*[x.p if isinstance(x,Buf) else x for x in args])
class Buf:
    """aligned buffer with guard zones"""
    def __init__(s,n,data=None,align=64,fill=0xA5):
        s.n=n; G=128
        s.raw=ctypes.create_string_buffer(n+2*G+align)
        b=ctypes.addressof(s.raw); s.off=(-(b+G))%align+G
        ctypes.memset(b,fill,len(s.raw)); s.p=ctypes.c_void_p(b+s.off); s.b=b
        s.fill=fill
        if data is not None: s.set(data)
    def set(s,d,o=0): ctypes.memmove(s.b+s.off+o,bytes(d),len(d))
    def get(s,o=0,n=None): return ctypes.string_at(s.b+s.off+o,s.n-o if n is None else n)
    def words(s,o=0,n=None):
        d=s.get(o,None if n is None else 8*n); return [int.from_bytes(d[i:i+8],'little') for i in range(0,len(d),8)]
    def guards_ok(s):
        r=s.raw.raw; return all(x==s.fill for x in r[:s.off]) and all(x==s.fill for x in r[s.off+s.n:])
