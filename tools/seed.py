#!/usr/bin/env python3
"""Makes planted changes from tools/seeds.py and confirms them.
usage: seed.py make ID..   - write /verif/seeded/ID and confirm (build, tests, demo with and without)
       seed.py detect ID.. - run the quick check of the property (CHECKS=C01,.. for others)"""
import json, os, subprocess, sys, shutil, time
V='/verif'; R='/repo'
sys.path.insert(0, V+'/tools')
from seeds import SEEDS, LIB
ENV=dict(os.environ, MC_TARGET=os.environ.get('MC_TARGET','/tmp/mct2'), PATH='/opt/typst/bin:/root/.cargo/bin:'+os.environ['PATH'])
def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=ENV, **k)
def restore():
    sh('git -C /repo checkout -- .')
DEMO='''#!/bin/bash
# Exits 0 if the library does what the demonstration expects of it.
here=$(cd "$(dirname "$0")" && pwd)
export PATH=/opt/typst/bin:/root/.cargo/bin:$PATH HOME=${HOME:-/root} RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
T=/repo/target/debug
W=$(mktemp -d) || exit 2
trap 'rm -rf "$W"' EXIT
for json in $(ls $T/deps/libserde_json-*.rlib); do
  rustc --edition 2021 -A warnings -o "$W/demo" "$here/demo.rs" --extern serde_json=$json -L dependency=$T/deps \\
    --extern mitex=$T/libmitex.rlib --extern mitex_parser=$T/libmitex_parser.rlib --extern mitex_lexer=$T/libmitex_lexer.rlib \\
    --extern mitex_spec=$T/libmitex_spec.rlib --extern mitex_glob=$T/libmitex_glob.rlib --extern mitex_spec_gen=$T/libmitex_spec_gen.rlib 2>"$W/err" && break
done
[ -x "$W/demo" ] || { cat "$W/err"; exit 2; }
timeout 100 "$W/demo"
'''
def make(i):
    s=SEEDS[i]; d=f'{V}/seeded/{i}'
    restore()
    for f,old,new in s['edits']:
        p=f'{R}/{f}'; t=open(p,newline='').read()
        assert t.count(old)==1,(i,f,t.count(old))
        open(p,'w',newline='').write(t.replace(old,new))
    os.makedirs(d,exist_ok=True)
    sh(f'git -C /repo diff > {d}/patch.diff')
    if 'sh' in s:
        open(d+'/demo.sh','w').write(s['sh'])
        if os.path.exists(d+'/demo.rs'): os.remove(d+'/demo.rs')
        for n,f in s.get('files',{}).items(): shutil.copy(f,d+'/'+n)
    else:
        open(d+'/demo.sh','w').write(DEMO)
        open(d+'/demo.rs','w').write(LIB+'fn main() {\n'+s['demo']+'\n}\n')
    os.chmod(d+'/demo.sh',0o755)
    json.dump({'property':s['property'],'needs':s['needs'],'what_it_breaks':s['breaks']},open(d+'/meta.json','w'),indent=1)
    b=sh('bash /opt/vp/build.sh')
    ok=b.returncode==0
    if not ok: print(i,'BUILD FAILS\n',b.stdout[-1500:]); restore(); return
    sh('bash /opt/vp/test.sh /tmp/seed.json')
    r=json.load(open('/tmp/seed.json'))
    stable=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    failed=stable-set(r['passed'])
    demo=sh(d+'/demo.sh',cwd=R)
    restore()
    b=sh('bash /opt/vp/build.sh')
    demo0=sh(d+'/demo.sh',cwd=R)
    good=not failed and demo.returncode not in(0,2) and demo0.returncode==0
    print(i,s['property'],'OK' if good else 'BAD','tests failed:',sorted(failed)[:4],'demo with',demo.returncode,'without',demo0.returncode)
    if demo.returncode in (0,2): print(demo.stdout[-1500:])
    if demo0.returncode: print(demo0.stdout[-1500:])
    if not good: shutil.move(d,'/tmp/badseed-'+i+str(int(time.time())))
def detect(i):
    d=f'{V}/seeded/{i}'
    p=json.load(open(d+'/meta.json'))['property']
    restore()
    a=sh(f'git -C /repo apply {d}/patch.diff'); assert a.returncode==0,a.stdout
    try:
        b=sh(V+'/run.sh build')
        if b.returncode: print(b.stdout[-800:])
        out=[]
        for c in (os.environ.get('CHECKS') or p).split(','):
            t=time.time()
            r=sh(f'MC_NOBUILD=1 timeout 900 {V}/run.sh check {c} quick')
            hit=r.returncode==1 and f'VIOLATION property={c} ' in r.stdout
            out.append(f"{c}:{'CAUGHT' if hit else 'missed' if r.returncode==0 else 'rc%d'%r.returncode}({time.time()-t:.0f}s)")
            if os.environ.get('SHOW'): print(r.stdout[-1500:])
        print(i,p,' '.join(out),flush=True)
    finally:
        restore()
if __name__=='__main__':
    ids=sys.argv[2:] or (sorted(SEEDS) if sys.argv[1]=='make' else sorted(os.listdir(V+'/seeded')))
    try:
        for i in ids: {'make':make,'detect':detect}[sys.argv[1]](i)
    finally:
        restore()
