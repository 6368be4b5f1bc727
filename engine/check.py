"""Bookkeeping of one check run: obligations, evidence, known findings, verdict lines."""
import os,sys,json,time,traceback,threading,random
import terms as tm
from solve import STAT
ROOT=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
class Timeout(BaseException): pass
class Check:
    def __init__(s,pid,tier,seed):
        s.pid=pid;s.tier=tier;s.seed=seed;s.t0=time.time();s.obl=0;s.ok=0;s.undecided=[];s.viol=[];s.known=[];s.samples=[]
        s.funcs=set();s.bounds=[];s.assume=[];s.paths=0;s.steps=0;s.validated=0;s.notes=[];s.asm=0;s.rng=random.Random(seed)
        s.thorough=tier=='thorough'; s.limit=float(os.environ.get('VF_BUDGET','780' if tier=='quick' else '3000'))
        s.findings=[]
        p=os.path.join(ROOT,'known_findings.json')
        if os.path.exists(p): s.findings=[f for f in json.load(open(p)) if f.get('property')==pid and f.get('status')=='open']
        s.evdir=os.path.join(ROOT,'evidence'); os.makedirs(s.evdir,exist_ok=True)
        for f in os.listdir(s.evdir):
            if f.startswith(f'replay_{pid}_'): os.remove(os.path.join(s.evdir,f))
    def left(s): return s.limit-(time.time()-s.t0)
    def sub(s,pid,fn,why,keep=True):
        """run another property's obligations that this one rests on; a violation there is a violation here"""
        d=Check.__new__(Check); d.__dict__.update(s.__dict__); t=time.time()
        d.obl=d.ok=0; d.undecided=[];d.samples=[];d.bounds=[];d.assume=[];d.notes=[];d.rng=random.Random(s.seed);d.limit=s.limit-20
        d.violation=lambda key,what,replay:s.violation(f'{pid}:{key}',f'{what} [{why} {pid}]',replay)
        try: fn(d)
        except Exception: d.undec('check aborted',traceback.format_exc()[-800:])
        s.steps=d.steps; s.asm=d.asm; s.paths=d.paths; s.validated=d.validated
        if keep:
            s.obl+=d.obl; s.ok+=d.ok; s.undecided+=[{'obligation':f"[{pid}] {u['obligation']}",'why':u['why']} for u in d.undecided]
            s.bounds+=[f'[{pid}] {b}' for b in d.bounds]; s.assume+=[f'[{pid}] {a}' for a in d.assume]
        s.notes.append(f'{why} {pid}: {d.ok}/{d.obl} obligations, {time.time()-t:.0f} s')
    def log(s,*a):
        if os.environ.get('VF_V'): print('[%6.1f]'%(time.time()-s.t0),*a,flush=True)
    def note_ex(s,e):
        s.funcs|=e.fnset; s.steps+=e.steps; s.asm+=e.inlineasm; s.paths+=1
    def good(s,name,sample=None):
        s.obl+=1; s.ok+=1; s.log('ok',name)
        if sample is not None or len(s.samples)<6: s.samples.append({'obligation':name,'verdict':'discharged',**({'detail':sample} if sample else {})})
    def undec(s,name,why):
        s.obl+=1; s.undecided.append({'obligation':name,'why':str(why)[:400]}); s.log('UNDECIDED',name,str(why)[:300])
    def violation(s,key,what,replay):
        """key identifies input/call site; replay: json-able dict shown to reproduce on the real code"""
        s.obl+=1
        for f in s.findings:
            if f.get('key')==key:
                if key not in [k for k,_ in s.known]: s.known.append((key,what))
                s.log('known',key); return
        n=len(s.viol); path=os.path.join(s.evdir,f'replay_{s.pid}_{n}.json')
        json.dump({'property':s.pid,'key':key,'what':what,'replay':replay},open(path,'w'),indent=1,default=str)
        s.viol.append((key,what,path)); s.log('VIOLATION',key,what)
    def finish(s):
        cov={'explanation':'symbolic execution of the real LLVM IR and inline assembly built from /repo in this run; every obligation is discharged by the solver for all values in the bounds, or reported undecided',
             'states':s.paths,'transitions':s.steps,'traces_validated_against_impl':s.validated,'samples':s.samples[:20],
             'obligations':s.obl,'discharged':s.ok,'undecided':s.undecided[:40],'undecided_count':len(s.undecided),'known_findings_seen':[k for k,_ in s.known],
             'functions_encoded':sorted(s.funcs),'functions_encoded_count':len(s.funcs),'inline_asm_blocks_executed':s.asm,'bounds':s.bounds,
             'queries':STAT['queries'],'queries_unsat':STAT['unsat'],'queries_sat':STAT['sat'],'queries_unknown':STAT['unknown'],'solver_seconds':round(STAT['time'],2),'notes':s.notes}
        json.dump({'property':s.pid,'tier':s.tier,'seed':s.seed,'level':'model_checking','coverage':cov,'assumptions':s.assume,'wall_s':round(time.time()-s.t0,2),'violations':len(s.viol)},
            open(os.path.join(s.evdir,s.pid+'.json'),'w'),indent=1,default=str)
        for k,w in s.known: print(f'KNOWN-FINDING: property={s.pid} {w} [{k}]')
        for k,w,p in s.viol: print(f'VIOLATION property={s.pid} replay={p} {w}')
        print(f'{s.pid}: {s.ok}/{s.obl} obligations discharged, {len(s.undecided)} undecided, {len(s.known)} known, {len(s.viol)} violations, {STAT["queries"]} queries, {STAT["time"]:.1f}s solver, {time.time()-s.t0:.1f}s')
        sys.stdout.flush()
        return 1 if s.viol else 0
def main(pid,fn,after=None):
    tier=os.environ.get('VERIF_TIER','quick')
    if tier not in('quick','thorough'): tier='quick'
    try: seed=int(os.environ.get('VERIF_SEED','1'))
    except ValueError: seed=1
    c=Check(pid,tier,seed)
    done=threading.Event()
    def dog():
        if not done.wait(c.limit):
            c.notes.append('time budget reached; the rest is undecided'); c.undec('remaining obligations','time budget')
            rc=c.finish(); sys.stdout.flush(); os._exit(rc)
    threading.Thread(target=dog,daemon=True).start()
    try: fn(c)
    except Exception as x:
        c.undec('check aborted',traceback.format_exc()[-1500:])
        if os.environ.get('VF_V'): traceback.print_exc()
    if after: after(c)
    done.set()
    rc=c.finish(); sys.stdout.flush()
    import shutil,build
    if build._tmp: shutil.rmtree(build._tmp,ignore_errors=True)
    os._exit(rc)
