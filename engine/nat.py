"""Replays on the native build, each in a forked child so that a crash is an observation and not the end of the check."""
import sys,os,pickle,select,signal,time,ctypes
import build,api
_lib={}
def lib(names=(),extra='',march=True,flags=(),tag='nat'):
    k=(tuple(names),extra,march,tuple(flags))
    if k not in _lib: _lib[k]=build.native(extra=extra,names=list(names),march=march,flags=flags,tag=tag+str(len(_lib)))
    return _lib[k]
def forked(f,*a,timeout=60):
    """('ok',value) | ('crash',signal) | ('timeout',) | ('exc',text)"""
    r,w=os.pipe(); pid=os.fork()
    if pid==0:
        try:
            os.close(r)
            try: v=('ok',f(*a))
            except BaseException as x:
                v=('exc',repr(x))
                if os.environ.get('VF_V'): sys.stderr.write(f'native {getattr(f,"__name__",f)}: {x!r}\n')
            with os.fdopen(w,'wb') as o: pickle.dump(v,o)
        finally: os._exit(0)
    os.close(w); data=b''; end=time.time()+timeout
    with os.fdopen(r,'rb') as i:
        while True:
            rr,_,_=select.select([i],[],[],max(0,end-time.time()))
            if not rr:
                os.kill(pid,signal.SIGKILL); os.waitpid(pid,0); return ('timeout',)
            b=os.read(i.fileno(),1<<20)
            if not b: break
            data+=b
    _,st=os.waitpid(pid,0)
    if os.WIFSIGNALED(st): return ('crash',os.WTERMSIG(st))
    if not data: return ('crash',-1)
    return pickle.loads(data)
def parallel(f,items,jobs=8,timeout=600):
    """map f over items in forked workers (results pickled); failures give ('exc',..)"""
    n=min(jobs,len(items)); out=[None]*len(items)
    if n<=1: return [forked(f,x,timeout=timeout) for x in items]
    run={}; nxt=0
    def start(i):
        r,w=os.pipe(); pid=os.fork()
        if pid==0:
            try:
                os.close(r)
                try: v=('ok',f(items[i]))
                except BaseException as x: 
                    import traceback
                    v=('exc',traceback.format_exc()[-1500:])
                with os.fdopen(w,'wb') as o: pickle.dump(v,o)
            finally: os._exit(0)
        os.close(w); run[r]=[i,pid,b'',time.time()+timeout]
    while nxt<len(items) or run:
        while nxt<len(items) and len(run)<n: start(nxt); nxt+=1
        rr,_,_=select.select(list(run),[],[],1.0)
        now=time.time()
        for fd in list(run):
            i,pid,d,end=run[fd]
            if fd in rr:
                b=os.read(fd,1<<20)
                if b: run[fd][2]+=b; continue
                os.close(fd); _,st=os.waitpid(pid,0); del run[fd]
                out[i]=pickle.loads(d) if d and not os.WIFSIGNALED(st) else ('crash',os.WTERMSIG(st) if os.WIFSIGNALED(st) else -1)
            elif now>end:
                os.kill(pid,signal.SIGKILL); os.waitpid(pid,0); os.close(fd); del run[fd]; out[i]=('timeout',)
    return out
