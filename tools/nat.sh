#!/bin/bash
# replay the violations of the last development run natively, with panics shown
cd "$(dirname "$0")/.."; h=$1
RUSTFLAGS='-A semicolon_in_expressions_from_macros -A warnings' CARGO_TARGET_DIR=$PWD/.build/native RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu cargo build --offline -q --manifest-path native/Cargo.toml || exit 3
python3 - $h <<'P'
import json,sys,subprocess,os
d=json.load(open('/tmp/%s.json'%sys.argv[1]))
for i,v in enumerate(d['violations'][:6]):
    open('/tmp/in.txt','w').write('\n'.join(v['inputs'])+'\n')
    r=subprocess.run(['.build/native/debug/hnative',sys.argv[1],'/tmp/in.txt'],env=dict(os.environ,HLOUD='1'),capture_output=True,text=True)
    print(v['inputs'][0],v['what'],'->',r.returncode,(r.stdout+r.stderr)[-700:])
P
