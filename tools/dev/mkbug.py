import json, os, subprocess, sys
W='/tmp/pw/repo'
V=os.environ.get('V','/verif')
DEMO='''#!/bin/bash
# Builds demo.rs against /repo in a scratch directory and runs it.
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
mkdir -p "$t/src"
cp "$d/demo.rs" "$t/src/main.rs"
cat >"$t/Cargo.toml" <<X
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
proc-macro2 = { path = "/repo"%FEAT% }
[workspace]
X
cd "$t" && %ENV%CARGO_TARGET_DIR="$t/target" timeout 200 cargo run -q --offline
'''
def sh(c): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
def bug(id, prop, edits, needs, what, demo, script=None, feat=', features = ["span-locations"]', env=''):
    if len(sys.argv)>1 and id not in sys.argv[1:]: return
    sh(f'cd {W} && git checkout -q -- .')
    for f, old, new in edits:
        p=f'{W}/{f}'; s=open(p).read()
        assert s.count(old)==1, (id, s.count(old), old)
        open(p,'w').write(s.replace(old,new))
    diff=subprocess.run(['git','-C',W,'diff'],stdout=subprocess.PIPE,text=True).stdout
    sh(f'cd {W} && git checkout -q -- .')
    d=f'{V}/seeded/{id}'; os.makedirs(d,exist_ok=True)
    open(d+'/patch.diff','w').write(diff)
    open(d+"/demo.sh","w").write((script or DEMO).replace('%FEAT%',feat).replace('%ENV%',env)); os.chmod(d+'/demo.sh',0o755)
    open(d+'/demo.rs','w').write(demo)
    json.dump({'property':prop,'needs':needs,'what_it_breaks':what},open(d+'/meta.json','w'),indent=1)
P='src/parse.rs'; F='src/fallback.rs'
exec(open('/tmp/bugs.py').read()); exec(open('/tmp/bugs2.py').read())
