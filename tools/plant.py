#!/usr/bin/env python3
# plant.py DEFS.py [ids..] : builds /verif/seeded/<id> from a definitions file (BUGS list), confirming each in a scratch copy under /tmp/pb:
# builds, all existing tests pass with the change, demo passes without and fails with it. Prints what was kept.
import os, sys, subprocess, json, shutil, importlib.util
DEMO = '''#!/bin/bash
# Builds demo.rs against a scratch copy of the library in the current directory and runs it (exit 0: property holds here).
here=$(cd "$(dirname "$0")" && pwd) || exit 2
tmp=$(mktemp -d) || exit 2
trap 'rm -rf -- "$tmp"' EXIT
mkdir -p "$tmp/repo/examples" || exit 2
cp -a Cargo.toml Cargo.lock src "$tmp/repo/" && cp "$here/demo.rs" "$tmp/repo/examples/demo.rs" || exit 2
cd "$tmp/repo" || exit 2
export CARGO_TARGET_DIR="$tmp/target" CARGO_INCREMENTAL=0
timeout 100 cargo run --quiet --offline --example demo 2>"$tmp/err" && exit 0
grep -v '^warning' "$tmp/err" | tail -20
exit 1
'''
PRE = '#![allow(unused_imports, dead_code, warnings)]\nextern crate concordance;\nuse concordance::*;\nuse concordance::overlapping_symbols::*;\n\n'
def sh(c, cwd=None, t=900, env=None):
    e=dict(os.environ); e.update(env or {})
    p=subprocess.run(c,shell=True,cwd=cwd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,timeout=t,env=e,text=True); return p.returncode,p.stdout
R='/tmp/pb/repo'
def fresh():
    os.makedirs('/tmp/pb',exist_ok=True)
    sh('rm -rf /tmp/pb/repo; git clone -q /repo /tmp/pb/repo')
spec=importlib.util.spec_from_file_location('defs',sys.argv[1]); m=importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
want=sys.argv[2:]
fresh()
env={'CARGO_TARGET_DIR':'/tmp/pb/target','CARGO_INCREMENTAL':'1'}
for b in m.BUGS:
    if want and b['id'] not in want: continue
    sh('git checkout -q -- .',R)
    ok=True
    for f,old,new in b['edits']:
        p=f'{R}/src/{f}'; s=open(p).read()
        if s.count(old)!=1: print(b['id'],'EDIT MATCHES',s.count(old),repr(old[:60])); ok=False; break
        open(p,'w').write(s.replace(old,new))
    if not ok: continue
    rc,out=sh('git diff',R); diff=out
    rc,out=sh('timeout 120 cargo test --offline --workspace 2>&1',R,env=env)
    if rc:
        print(b['id'],'TESTS FAIL/BUILD', [l for l in out.splitlines() if 'FAILED' in l or l.startswith('error')][:6]); 
        if 'error' in out and 'could not compile' in out: print('\n'.join([l for l in out.splitlines() if 'warning' not in l][-30:]))
        continue
    d=f'/tmp/pb/out/{b["id"]}'; os.makedirs(d,exist_ok=True)
    open(d+'/patch.diff','w').write(diff); open(d+'/demo.sh','w').write(b.get('demo_sh') or DEMO); os.chmod(d+'/demo.sh',0o755)
    if 'demo' in b: open(d+'/demo.rs','w').write(PRE+b['demo'])
    for k,v in b.get('files',{}).items(): open(d+'/'+k,'w').write(v)
    json.dump({'property':b['prop'],'needs':b['needs'],'what_it_breaks':b['breaks']},open(d+'/meta.json','w'),indent=1)
    rc1,o1=sh(d+'/demo.sh',R)
    sh('git checkout -q -- .',R)
    rc0,o0=sh(d+'/demo.sh',R)
    if rc0==0 and rc1!=0:
        t=f'/verif/seeded/{b["id"]}'; shutil.rmtree(t,ignore_errors=True); shutil.copytree(d,t); print(b['id'],'KEPT |',' '.join(o1.split())[-160:])
    else: print(b['id'],'DEMO BAD unpatched',rc0,'patched',rc1,'\n',o0[-1500:],'\n---\n',o1[-600:])
