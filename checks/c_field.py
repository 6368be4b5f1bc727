"""C01-C04: every field kernel reachable from the public tables is congruent to (or equal to) its specification."""
import random,time
import ex as exm, api, build, nat, kcheck, kern, solve
from fields import REPS
ONE='_1w_full'
def profiles(slot,k):
    """named digit profiles"""
    if ONE in slot: return [('all 64-bit limbs',kern.frange(k))]
    op=slot.rsplit('.',1)[1]; w4='._4w' in slot; f2='25519' in slot
    P=[('digits<=2^w+2^(w-3)',0)]
    if op in('mul','sqr','intmul','intsqr'): P=[('digits<=2^(w+1)+2^(w-3)',1)]
    if op in('compress','compress2'): P=[('digits<=2^(w+33)',33)]
    if op=='compressfast': P=[('digits<=2^(w+8)',8)] if f2 and w4 else [('digits<=2^(w+33)',33)]
    if op=='new_compressfast2': P=[('digits<=2^(w+8)',8)]
    if op in('add','inter','deinter'): P.append(('digits<=2^(w+3)',3))
    return [(n,kern.frange(k,d)) for n,d in P]
def worker(job):
    adx,slot,prof,ranges,al,seed,thorough=job
    s0=dict(solve.STAT); t0=time.time(); m=build.module(adx); e=exm.Ex(m); k=kern.K[slot]; fn=api.irfn(e,slot)
    r={'slot':slot,'adx':adx,'prof':prof,'al':al,'fn':fn,'wit':None}
    if fn is None: r.update(status='fail',detail='table slot is empty'); return r
    st,why,res=kern.prove(m,slot,ranges,al,fn=fn)
    r.update(status=st,detail=why)
    if res is not None:
        ee=res.run.e; r.update(fns=sorted(ee.fnset|{fn}),steps=ee.steps,asm=ee.inlineasm,mode=getattr(res,'mode',0),lanes=res.proved)
    nadx=nat.lib(flags=() if adx else ('-mno-adx',))
    g,o=api.where(slot); a=nadx.slot(g,o)
    if st!='ok':
        for n in (400,4000):
            q=nat.forked(kern.search,a,slot,ranges,al,random.Random(seed),n,timeout=60)
            if q[0]=='crash': r['wit']=({},f'crashes with signal {q[1]}'); break
            if q[0]=='ok' and q[1]: r['wit']=q[1]; break
        if r['wit'] is None:
            q=nat.forked(kern.model_search,m,a,fn,slot,ranges,al,random.Random(seed+1),90,timeout=120)
            if q[0]=='ok' and q[1]: r['wit']=q[1]
    elif not al:
        q=nat.forked(kern.validate,m,fn,a,slot,ranges,random.Random(seed+2),6 if thorough else 3,timeout=60)
        r['val']=q[1] if q[0]=='ok' else (0,q[0]=='exc')
    r['stat']={x:solve.STAT[x]-s0[x] for x in s0}; r['sec']=time.time()-t0
    return r
def run(c,field,pred):
    adxs=[True,False] if pred(f'Fp{field}.{ONE}.') else [True]
    jobs=[]
    for adx in adxs:
        build.module(adx); nat.lib(flags=() if adx else ('-mno-adx',))
        api.offsets()
        for slot,k in kern.K.items():
            if not slot.startswith('Fp'+field+'.') or not pred(slot): continue
            for pn,rg in profiles(slot,k):
                for al in kcheck.aliases(k.ops):
                    if al and ONE not in slot and slot.rsplit('.',1)[1] not in('add','sub'): continue
                    if al and slot.rsplit('.',1)[1] in('intmul','intsqr','intmul2','intsqr2','reduce','reduce2') : continue
                    jobs.append((adx,slot,pn,rg,al,c.seed,c.thorough))
    out=nat.parallel(worker,jobs,8,timeout=max(60,c.left()-60))
    for j,o in zip(jobs,out):
        name=f'{j[1]} [{"ADX" if j[0] else "no ADX"}] {j[2]}'+(f' aliasing {j[4]}' if j[4] else '')
        if o[0]!='ok': c.undec(name,o); continue
        r=o[1]
        if 'stat' in r:
            for x in r['stat']: solve.STAT[x]+=r['stat'][x]
        c.funcs|=set(r.get('fns',[])); c.steps+=r.get('steps',0); c.asm+=r.get('asm',0); c.paths+=1
        if r['status']=='ok':
            c.good(name,{'function':r['fn'],'lanes':r.get('lanes'),'composed':bool(r.get('mode')),'seconds':round(r.get('sec',0),2)})
            v=r.get('val')
            if v:
                c.validated+=v[0]
                if not v[1]: c.undec(name+' (encoding validation)','encoding and native build disagree')
        elif r['wit']:
            d,w=r['wit']; c.violation(j[1],f'{j[1]} ({name}): {w}',{'table_slot':j[1],'function':r['fn'],'adx':j[0],'aliasing':j[4],'operand_digits':{a:[[hex(x) for x in l] for l in b] for a,b in d.items()},'observed':w,'proof_failure':r['detail']})
        else: c.undec(name,r['detail'])
    c.bounds=['operands: every digit vector inside the named profile (full radix: every 64-bit limb vector)','loops are fixed-trip and fully unrolled','aliasing patterns: distinct, destination=first/second source, both sources equal']
    c.assume=['clang -O0 IR of /repo and the assembly interpreter represent the machine code (validated against the gcc -O3 build on concrete operands each run)','composition: Fp448 mul/sqr are checked through the separately proven contracts of integer product and reduction']
def run_C01(c): run(c,'25519',lambda s:ONE in s)
def run_C02(c): run(c,'25519',lambda s:ONE not in s)
def run_C03(c): run(c,'448',lambda s:ONE in s)
def run_C04(c): run(c,'448',lambda s:ONE not in s)
