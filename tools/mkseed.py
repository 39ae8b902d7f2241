#!/usr/bin/env python3
"""mkseed.py <spec.py>: makes /verif/seeded/<id> from a python spec:
ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)...], MAIN (rust demo main.rs)."""
import sys,os,json,subprocess,shutil,tempfile
ns={}
exec(open(sys.argv[1]).read(),ns)
d='/verif/seeded/'+ns['ID']; os.makedirs(d,exist_ok=True)
t=tempfile.mkdtemp(); subprocess.check_call(['git','-C','/repo','worktree','prune'])
subprocess.check_call(f'git -C /repo archive HEAD | tar -x -C {t}',shell=True)
subprocess.check_call('git init -q && git add -A && git -c user.email=a@b -c user.name=a commit -qm x',shell=True,cwd=t)
for f,o,n in ns['EDITS']:
    s=open(f'{t}/{f}').read()
    assert s.count(o)==1,(f,s.count(o),o)
    open(f'{t}/{f}','w').write(s.replace(o,n))
p=subprocess.check_output(['git','diff'],cwd=t,text=True)
open(d+'/patch.diff','w').write(p)
shutil.rmtree(t)
open(d+'/main.rs','w').write(ns['MAIN'].lstrip())
open(d+'/demo.sh','w').write('''#!/bin/bash
# Builds main.rs (beside this file) against the derivre crate in the current directory and runs it.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
w="$(mktemp -d)" || exit 3
trap 'rm -rf "$w"' EXIT
mkdir "$w/src" && cp "$here/main.rs" "$w/src/main.rs" && cp "$here/Cargo.lock" "$w/Cargo.lock"
printf '[package]\\nname = "demo"\\nversion = "0.1.0"\\nedition = "2021"\\n[dependencies]\\nderivre = { path = "%s" }\\n[workspace]\\n' "$repo" >"$w/Cargo.toml"
cd "$w" || exit 3
unset RUSTFLAGS CARGO_BUILD_TARGET
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$w/target"
cargo build --offline --quiet --release || exit 3
timeout @T@ ./target/release/demo
'''.replace('@T@',str(ns.get('TIMEOUT',120))))
os.chmod(d+'/demo.sh',0o755)
json.dump({'property':ns['PROP'],'needs':ns['NEEDS'],'what_it_breaks':ns['BREAKS']},open(d+'/meta.json','w'),indent=1)
shutil.copy('/tmp/Cargo.lock.seed',d+'/Cargo.lock')
print(d)
