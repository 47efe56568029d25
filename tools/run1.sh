#!/bin/bash
# usage: run1.sh harness.cpp entry [clang flags] -- [csx flags]   (development helper)
f=$1; e=$2; shift 2; cf=(); while [ $# -gt 0 ] && [ "$1" != -- ]; do cf+=("$1"); shift; done; shift
std=-std=c++14; for x in "${cf[@]}"; do case $x in -std=*) std=$x;; esac; done
/usr/bin/clang++-18 $std -g1 -O0 -Xclang -disable-O0-optnone -fsanitize-address-use-after-scope -fno-discard-value-names -DCETL_ENABLE_DEBUG_ASSERT -I/verif/harness -I${REPO:-/repo}/include -w -ferror-limit=2 -ftemplate-backtrace-limit=3 "${cf[@]}" -emit-llvm -c /verif/harness/$f -o /tmp/d/$e.bc || exit 9
/verif/build/csx /tmp/d/$e.bc --entry vxh_$e --out /tmp/d/$e.json --src ${REPO:-/repo}/include --max-time 60 "$@" 
python3 - /tmp/d/$e.json <<'P'
import json,sys
r=json.load(open(sys.argv[1]))
print({k:r[k] for k in ('complete','timeout','memout','pending','forks','merges','steps','asserts','asserts_symbolic','queries','cache_hits','solver_s','wall_s','unsupported') if k in r})
print({k:v for k,v in r.items() if k.startswith('paths')}, r['reach'])
for e in r['errors'][:int(__import__('os').environ.get('NE','6'))]:
    print('ERR',e['kind'],e['msg'],e['file'],e['line'],[(a,b) for a,b in e['inputs']])
    print('    ',e['stack'][:10] if isinstance(e['stack'],list) else e['stack'])
P
