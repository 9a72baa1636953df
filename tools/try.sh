#!/bin/bash
# try.sh DRIVER [variant] [cases] [seed]: build one driver and run it, for development
d=$1; v=${2:-asan}; n=${3:-200}; s=${4:-1}
I="-std=c++17 -I ${VERIF_REPO:-/repo}/include -I /usr/include/eigen3 -I /verif/harness -w -DGOOSEFEM_EIGEN"
[ $d = c36_python ] && I="$I -I ${VERIF_REPO:-/repo} -I /verif/harness/py_stub"
[ $d = c37_layout ] && I="-I /verif/harness/layout_stub $I"
case $v in
asan) C="clang++ -O1 -g1 -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize-recover=all";;
assert) C="g++ -O1 -DMON_ASSERT -DGOOSEFEM_ENABLE_ASSERT -DXTENSOR_ENABLE_ASSERT";;
assertsan) C="clang++ -O0 -g1 -DMON_ASSERT -DGOOSEFEM_ENABLE_ASSERT -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize=pointer-overflow -fno-sanitize-recover=all";;
asan0) C="clang++ -O0 -g1 -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize-recover=all";;
plain) C="g++ -O1 -DNDEBUG";;
esac
mkdir -p /tmp/try; x=/tmp/try/$d.$v
S=/verif/harness/$d.cpp; [ -f /verif/harness/${d}_tu2.cpp ] && S="$S /verif/harness/${d}_tu2.cpp"
$C $I $S -pthread -o $x 2>/tmp/try/$d.log || { grep -E "error|note: cand" /tmp/try/$d.log | head -${ERR:-20}; exit 1; }
time UBSAN_OPTIONS=print_stacktrace=1 timeout ${T:-300} $x --cases $n --seed $s --out /tmp/try/$d.json 2>/tmp/try/$d.err || { echo "rc=$? case $(cat /tmp/try/$d.json.cur)"; head -${ERR:-14} | cut -c1-220 /tmp/try/$d.err; }
python3 - /tmp/try/$d.json <<'P'
import json,sys
try: d=json.load(open(sys.argv[1]))
except Exception as e: print(e); sys.exit()
print({k:d[k] for k in('cases','oracle','worst','worst_key')}, 'distinct',len(d['distinct']))
print('cover',d['cover'])
print('per_key',d['per_key'])
for v in d['violations'][:8]: print(v['key'],v['case'],v['detail'][:400])
P
