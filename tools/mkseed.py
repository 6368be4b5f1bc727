#!/usr/bin/env python3
"""Plant one bug in a scratch copy of /repo, check that it builds, passes the stable tests and that its
demonstration tells the trees apart, then write /verif/seeded/<id>/.
usage: mkseed.py SPEC.py ...   (SPEC defines id, prop, needs, breaks, edits=[(file,old,new)], demo (C source), [flags])"""
import sys, os, subprocess, json, shutil, tempfile
SH = '''#!/bin/bash
# run with cwd /repo; exit 0 when the property's instance holds
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
gcc -O3 -std=gnu99 -m64 -mavx2 -mbmi2 -march=native -DNDEBUG -w -I. -Iinclude -Isrc -Ithird_party FLAGS -o "$t/demo" "$d/demo.c" src/target.c third_party/sha512.c third_party/sha3.c third_party/sha512_2way.c third_party/prng.c || exit 3
( cd "$t" && timeout 120 ./demo )
'''
def sh(cmd, cwd, t=900):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t, text=True)
def main(spec):
    g = {}; exec(open(spec).read(), g)
    S = '/tmp/w/seed'; os.makedirs('/tmp/w', exist_ok=True)
    shutil.rmtree(S, ignore_errors=True)
    sh('git worktree prune', '/repo')
    shutil.copytree('/repo', S, symlinks=True)
    D = tempfile.mkdtemp(prefix='sd', dir='/tmp/w')
    open(D+'/demo.c', 'w').write(g['demo']); open(D+'/demo.sh', 'w').write(SH.replace('FLAGS', g.get('flags', '')))
    for n, t in g.get('files', {}).items(): open(D+'/'+n, 'w').write(t)
    if 'sh' in g: open(D+'/demo.sh', 'w').write(g['sh'])
    os.chmod(D+'/demo.sh', 0o755)
    r = sh('bash %s/demo.sh' % D, S)
    if r.returncode != 0: print(g['id'], 'demo fails on clean tree', r.returncode, r.stdout[-800:]); return 1
    for f, o, n in g['edits']:
        p = S+'/'+f; s = open(p).read()
        if s.count(o) != 1: print(g['id'], 'edit not unique', f, s.count(o)); return 1
        open(p, 'w').write(s.replace(o, n))
    r = sh('bash %s/demo.sh' % D, S)
    if r.returncode in (0, 3): print(g['id'], 'demo does not fail with patch', r.returncode, r.stdout[-500:]); return 1
    diff = sh('git diff', S).stdout
    # build + tests in place of /repo: apply, run, undo
    ap = subprocess.run(['git', '-C', '/repo', 'apply', '-'], input=diff, text=True)
    if ap.returncode: return 1
    try:
        b = sh('bash /opt/vp/build.sh', '/repo')
        if b.returncode: print(g['id'], 'build fails', b.stdout[-500:]); return 1
        sh('bash /opt/vp/test.sh /tmp/w/t_seed.json', '/repo')
        base = json.load(open('/opt/vp/BASELINE.json')); t = json.load(open('/tmp/w/t_seed.json'))
        miss = set(base['stable'])-set(t['passed'])
    finally:
        sh('git checkout -- .', '/repo'); sh('bash /opt/vp/build.sh', '/repo')
    if miss: print(g['id'], 'tests fail', sorted(miss)[:4]); return 1
    O = '/verif/seeded/'+g['id']; shutil.rmtree(O, ignore_errors=True); shutil.copytree(D, O)
    open(O+'/patch.diff', 'w').write(diff)
    json.dump({'property': g['prop'], 'needs': g['needs'], 'what_it_breaks': g['breaks']}, open(O+'/meta.json', 'w'), indent=1)
    shutil.rmtree(D); shutil.rmtree(S)
    print(g['id'], 'kept'); return 0
for s in sys.argv[1:]: main(s)
