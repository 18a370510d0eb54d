#!/usr/bin/env python3
"""mkseed.py FILE: make planted bugs from a Python file that calls
seed(id, prop, needs, breaks, edits=[(file, old, new)...], demo=GO_MAIN or SH)."""
import json, os, subprocess, sys, tempfile, shutil
GO='''#!/bin/bash
# Runs main.go inside the repository's module (through an overlay).
set -u
d=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d) || exit 2
trap 'rm -rf "$w"' EXIT
if [ -f /opt/vp/env.sh ]; then . /opt/vp/env.sh; fi
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-mod=readonly -buildvcs=false"
printf '{"Replace":{"%s/zz_demo/main.go":"%s/main.go"}}' "$PWD" "$d" > "$w/overlay.json"
go build -overlay "$w/overlay.json" -o "$w/demo" ./zz_demo || exit 2
cd "$w" && timeout 120 ./demo
'''
SH='''#!/bin/bash
set -u
d=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d) || exit 2
trap 'rm -rf "$w"' EXIT
if [ -f /opt/vp/env.sh ]; then . /opt/vp/env.sh; fi
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-mod=readonly -buildvcs=false"
go build -o "$w/diskii" . || exit 2
repo=$PWD
cd "$w"
'''
def seed(id, prop, needs, breaks, edits, demo):
    w=tempfile.mkdtemp(prefix='mk-',dir='/tmp'); r=w+'/repo'
    subprocess.run(['git','clone','-q','/repo',r],check=True)
    for f,old,new in edits:
        s=open(f'{r}/{f}').read()
        if s.count(old)!=1: print(id,'PATTERN COUNT',s.count(old),f,old[:50]); return
        open(f'{r}/{f}','w').write(s.replace(old,new))
    subprocess.run(f'cd {r} && gofmt -l $(git diff --name-only)',shell=True)
    d=subprocess.run(['git','-C',r,'diff'],capture_output=True,text=True).stdout
    o=f'/verif/seeded/{id}'; os.makedirs(o,exist_ok=True)
    open(o+'/patch.diff','w').write(d)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(o+'/meta.json','w'),indent=1)
    if demo.lstrip().startswith('package main'):
        open(o+'/main.go','w').write(demo.lstrip()); open(o+'/demo.sh','w').write(GO)
    else: open(o+'/demo.sh','w').write(SH+demo)
    os.chmod(o+'/demo.sh',0o755); shutil.rmtree(w); print('made',id)
exec(open(sys.argv[1]).read())
