#!/bin/bash
# tools/try.sh ID N [SEED]: compile one harness (plain and sanitized) and run N cases each; development aid
id=$1; n=${2:-20000}; seed=${3:-1}; d=/tmp/w/$id; mkdir -p $d
(g++ -std=gnu++17 -w -O1 -I${VM_REPO:-/repo} -I/verif/rt /verif/rt/$id.cpp -o $d/plain 2>$d/e1 || echo PLAINFAIL) &
g++ -std=gnu++17 -w -O1 -g1 -fsanitize=address,undefined -fno-sanitize-recover=all -I${VM_REPO:-/repo} -I/verif/rt /verif/rt/$id.cpp -o $d/san 2>$d/e2 || echo SANFAIL
wait; grep -m8 error $d/e1
export ASAN_OPTIONS=detect_leaks=0:hard_rss_limit_mb=3000
for v in plain san; do
 /usr/bin/time -f "$v %es" $d/$v run $seed 0 1 $n 200 $d/$v.o || { grep -a fail $d/$v.o.stat; echo "IDX $(python3 -c "import struct;print(struct.unpack('<Q',open('$d/$v.o.progress','rb').read(8))[0])")"; }
done
cat $d/plain.o.stat
