#!/bin/bash
# The Java replacement of spec/BigInt.tla computes what the TLA+ definitions say.
V=$(cd "$(dirname "$0")/.." && pwd)
J=/opt/veriftools/tla; B=${1:-$V/build}; mkdir -p $B/bt
cd $V/spec
run() { java -XX:+UseParallelGC -Xss64m -DTLA-Library=$V/spec -cp "$1$J/tla2tools.jar:$J/CommunityModules-deps.jar" tlc2.TLC -metadir $B/bt/$2.md -config mc/BigIntTest.cfg mc/BigIntTest.tla > $B/bt/$2.out 2>&1; }
run "" pure & run "$B/java:" java & wait
body() { sed -n '/^Starting/,/^Computing\|^Finished computing\|^Model checking\|^Error/p' $1; }
for k in pure java; do body $B/bt/$k.out | grep -v '^[A-Z]' > $B/bt/$k.txt; done
grep -q 'Loading BigInt\|BigInt' $B/bt/java.out
grep -q 'No error' $B/bt/pure.out && grep -q 'No error' $B/bt/java.out && [ -s $B/bt/pure.txt ] && cmp $B/bt/pure.txt $B/bt/java.txt && echo "BigInt: $(wc -c < $B/bt/pure.txt) bytes of results agree"
