----------------------------- MODULE BigIntTest -----------------------------
(* Evaluates the operators of BigInt over boundary operands and prints every *)
(* result.  Run once with and once without the Java replacement: the two     *)
(* outputs must be equal (tools/bigint_test.sh).                             *)
EXTENDS BigInt, TLC
D == {0, 1, 9, 4999, 5000, 9998, 9999}
S1 == { BFromLimbs(s, L) : s \in {-1, 1}, L \in [1..1 -> {0, 1, 10, 500, 9999}] \cup [1..2 -> {0, 1, 5000, 9999}] }
S2 == S1 \cup { BFromLimbs(s, L) : s \in {1}, L \in [1..3 -> {0, 1, 4999, 9999}] } \cup { BFromLimbs(-1, <<1,0,0,0,0,9998>>), BFromLimbs(1, <<9999,9999,9999,9999,9999>>)}
Ints == {-2147483647, -10000, -9999, -1, 0, 1, 10, 9999, 10000, 99999999, 100000000, 2147483647}
Decs == UNION { [1..n -> {0, 1, 9}] : n \in 0..5 }
P(x) == PrintT(x)
Pairs == { <<a, b>> : a \in S2, b \in S1 }
ASSUME P([i \in Ints |-> BInt(i)])
ASSUME P([i \in Ints |-> BToInt(BInt(i))])
ASSUME P([p \in Pairs |-> <<BCmp(p[1], p[2]), BAdd(p[1], p[2]), BSub(p[1], p[2]), BMul(p[1], p[2])>>])
ASSUME P([p \in {q \in Pairs : BSgn(q[2]) # 0} |-> <<BQuo(p[1], p[2]), BRem(p[1], p[2])>>])
ASSUME P([a \in S2 |-> <<BNeg(a), BAbs(a), BLimbs(a), BToDec(a), BDigits(a), BBits(a), BTrailingZeroes(a)>>])
ASSUME P([a \in {b \in S2 : BSgn(b) >= 0} |-> BSqrt(a)])
ASSUME P([a \in S1 |-> [n \in 0..5 |-> <<BPow(a, n), BScale(a, n)>>]])
ASSUME P([n \in 0..13 |-> BPow10(n)])
ASSUME P([d \in Decs |-> <<BFromDec(1, d), BFromDec(-1, d)>>])
ASSUME P([n \in 0..40 |-> <<BRange(2, n), BRange(1, n), BRange(n, n + 3)>>])
ASSUME P([a \in S2 |-> <<BKept(a), [n \in 0..(Len(a) - 1) |-> BPairs(a, n)]>>])
Bytes == UNION { [1..n -> {0, 1, 15, 39, 255}] : n \in {0, 2, 4} }
ASSUME P([b \in Bytes |-> <<BUnpairs(1, b, 1, Len(b) \div 2), BUnpairs(-1, <<7>> \o b, 2, Len(b) \div 2)>>])
ASSUME P([d \in Decs |-> [i \in 1..4 |-> <<SFirstNot(d, i, {0, 1}), SFirstNot(d, i, 0..8), SFirstNot(d, i, {}), SShift(d, 48), SShift(d, -i)>>]])
ASSUME \A a \in S2, b \in S1 : BSgn(b) # 0 => BAdd(BMul(BQuo(a, b), b), BRem(a, b)) = a
VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
=============================================================================
