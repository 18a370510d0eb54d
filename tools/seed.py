#!/usr/bin/env python3
"""seed.py ID [ID...]: verify planted bugs in a scratch copy: the patch applies
to /repo's HEAD, builds, passes the stable tests; demo.sh exits 0 without and
non-zero with it. seed.py --catch ID...: also run the property's quick check
against a patched copy. No check uses this script."""
import json, os, shutil, subprocess, sys, tempfile
V='/verif/seeded'
def sh(cmd, **k): return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
env='. /opt/vp/env.sh 2>/dev/null; export GOFLAGS=-mod=readonly GOPROXY=off GOTOOLCHAIN=local;'
def verify(i):
    w=tempfile.mkdtemp(prefix='seed-',dir='/tmp')
    try:
        r=w+'/repo'; sh(f'cp -a /repo {r}'); sh(f'git -C {r} checkout -q -- .')
        d=f'{V}/{i}'
        a=sh(f'bash {d}/demo.sh',cwd=r)
        p=sh(f'git -C {r} apply {d}/patch.diff')
        if p.returncode: return 'patch does not apply: '+p.stdout
        b=sh(env+'go build ./... && go vet ./... >/dev/null; go test ./... 2>&1 | grep -v "no test files"',cwd=r)
        bad=[l for l in b.stdout.splitlines() if l.startswith(('FAIL\tgithub.com/zellyn/diskii/','--- FAIL'))]
        c=sh(f'bash {d}/demo.sh',cwd=r)
        out=[]
        if a.returncode!=0: out.append(f'demo fails unpatched ({a.returncode}): {a.stdout[-600:]}')
        if c.returncode==0: out.append('demo passes patched')
        if bad: out.append('tests: '+'\n'.join(bad))
        return '; '.join(out) or 'ok  ('+(c.stdout.strip().splitlines() or ['?'])[-1][:100]+')'
    finally: shutil.rmtree(w,ignore_errors=True)
def catch(i):
    # in scratch copies of /repo and of the harness, so that several can run at once
    d=f'{V}/{i}'; prop=json.load(open(d+'/meta.json'))['property']
    w=tempfile.mkdtemp(prefix='catch-',dir='/tmp')
    try:
        sh(f'cp -a /repo {w}/repo; git -C {w}/repo checkout -q -- .; mkdir {w}/v; cp -a /verif/check.sh /verif/harness /verif/corpus {w}/v/')
        sh(f"sed -i 's#/repo#{w}/repo#g' {w}/v/check.sh {w}/v/harness/go.mod; sed -i 's#\"/repo\"#\"{w}/repo\"#' {w}/v/harness/fw/fw.go")
        if sh(f'git -C {w}/repo apply {d}/patch.diff').returncode: return 'no apply'
        o=sh(f'{w}/v/check.sh {prop} quick',env={**os.environ,'VERIF_SEED':os.environ.get('VERIF_SEED','1')})
    finally: shutil.rmtree(w,ignore_errors=True)
    l=[x for x in o.stdout.splitlines() if x.strip()]
    return ('CAUGHT ' if o.returncode==1 and f'VIOLATION property={prop}' in o.stdout else f'MISSED rc={o.returncode} ')+' | '.join(x.strip()[:110] for x in l[1:2]+l[-1:])
args=sys.argv[1:]; c='--catch' in args; v='--noverify' not in args
ids=[a for a in args if not a.startswith('--')] or sorted(os.listdir(V))
from concurrent.futures import ThreadPoolExecutor
def one(i):
    o=[]
    if v: o.append(verify(i))
    if c: o.append(catch(i))
    return i,o
with ThreadPoolExecutor(3) as ex:
    for i,o in ex.map(one,ids): print(i,*o,sep='\n   ',flush=True)
