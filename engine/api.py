"""Offsets of the exported tables' members (computed by the compiler from /repo's headers) and the IR functions they hold."""
import subprocess,os
import build
_FP=[('_1w_full','arith',['add','cmp','cmv','inv','mul','neg','sgn','sqr','srt','sub','prime','misc.alloc','misc.copy','misc.free','misc.rand','misc.ser','misc.unser','misc.zero']),
 ('_1w_full','arithex',['intmul','intmul2','intsqr','intsqr2','mula24','reduce','reduce2']),
 ('_1w_red','arith',['add','cmp','cmv','inv','mul','neg','sgn','sqr','srt','sub','prime','misc.alloc','misc.copy','misc.free','misc.rand','misc.ser','misc.unser','misc.zero']),
 ('_1w_red','arithex',['addsub','intmul','compress','compressfast']),
 ('_2w_red','arith',['add','cmp','cmv','mul','neg','ngz','sgn','sqr','sub','misc.alloc','misc.copy','misc.free','misc.rand','misc.ser','misc.unser','misc.zero']),
 ('_2w_red','arithex',['addsub','deinter','inter','intmul','intsqr','compress','compress2','compressfast']),
 ('_4w_red','arith',['add','cmp','mul','neg','ngz','sqr','srt','sub','misc.alloc','misc.copy','misc.free','misc.rand','misc.ser','misc.unser','misc.zero']),
 ('_4w_red','arithex',['addsub','addsublar','intmul','intsqr','compress','compress2','compressfast','new_compressfast2'])]
_off=None
def offsets():
    global _off
    if _off is None:
        want=[('Fp','PrimeField',f'{a}.{b}.{n}') for a,b,ns in _FP for n in ns]
        hdr='#include <stddef.h>\n#include <stdio.h>\n#include "faz_fp_avx2.h"\n#include "faz_ecdh_avx2.h"\n#include "faz_eddsa_avx2.h"\nint main(void){\n'
        b=''.join(f'printf("Fp %s %zu\\n","{p}",offsetof(PrimeField,{p}));\n' for _,_,p in want)
        for m in ('keygen','shared','randKey','allocKey','freeKey'): b+=f'printf("X %s %zu\\n","{m}",offsetof(X_ECDH,{m}));\n'
        for g,vs in (('Ed25519',['Pure','PreHash','Context']),('Ed448',['PureContext','PreHash'])):
            for v in vs:
                for m in ('keygen','sign','verify','randKey','allocKey','freeKey','allocSignature','freeSignature'): b+=f'printf("{g} %s %zu\\n","{v}.{m}",offsetof(__typeof__({g}),{v}.{m}));\n'
        d=build.tmp(); c=os.path.join(d,'off.c'); x=os.path.join(d,'off')
        open(c,'w').write(hdr+b+'return 0;}\n')
        build.sh(['gcc']+build.GCC[1:]+['-O0',c,'-o',x]) 
        _off={}
        for l in build.sh([x]).split('\n'):
            if l:
                g,p,o=l.split(); _off[g,p]=int(o)
    return _off
def where(slot):
    """'Fp25519._1w_full.arith.add' -> (global,byte offset)"""
    g,p=slot.split('.',1)
    o=offsets()
    k=('Fp',p) if g.startswith('Fp') else ('X',p) if g[0]=='X' else (g,p)
    return g,o[k]
def irfn(ex,slot):
    g,o=where(slot)
    c=ex.gptr(g).o.cells.get(o)
    if c is None or isinstance(c[1],int): return None
    return c[1].o.func
