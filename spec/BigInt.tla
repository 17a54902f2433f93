------------------------------- MODULE BigInt -------------------------------
(***************************************************************************)
(* Integers of any size.                                                   *)
(*                                                                         *)
(* TLC's own integers have 32 bits.  An integer is represented here as the *)
(* tuple <<s, d1, ..., dn>>: s is -1, 0 or 1 and d1..dn are its base-10000 *)
(* digits, most significant first, without leading zeroes; zero is <<0>>.  *)
(*                                                                         *)
(* The definitions below are the meaning.  java/BigInt.java replaces them  *)
(* for speed; spec/mc/BigIntTest.tla checks that both agree.               *)
(***************************************************************************)
EXTENDS Integers, Sequences

BB == 10000

BZero == <<0>>
BOne == <<1, 1>>

LOCAL IsLimbs(L) == \A i \in 1..Len(L) : L[i] \in 0..(BB-1)

\* drop leading zero digits
RECURSIVE StripL(_)
LOCAL StripL(L) == IF L # <<>> /\ L[1] = 0 THEN StripL(Tail(L)) ELSE L

LOCAL Mk(s, L) == LET M == StripL(L) IN IF M = <<>> THEN BZero ELSE <<s>> \o M
LOCAL Mag(a) == Tail(a)

\* from base-10000 digits (leading zeroes allowed) and a sign
BFromLimbs(s, L) == Mk(s, L)

\* from a machine integer (|i| < 2^31)
RECURSIVE NatL(_)
LOCAL NatL(n) == IF n = 0 THEN <<>> ELSE NatL(n \div BB) \o <<n % BB>>
BInt(i) == IF i < 0 THEN Mk(-1, NatL(-i)) ELSE Mk(1, NatL(i))

BSgn(a) == a[1]
BNeg(a) == [a EXCEPT ![1] = -a[1]]
BAbs(a) == IF a[1] < 0 THEN BNeg(a) ELSE a

\* number of base-10000 digits
BLimbs(a) == Len(a) - 1

\* compare magnitudes: -1, 0, 1
LOCAL CmpMag(A, B) ==
    IF Len(A) # Len(B) THEN IF Len(A) < Len(B) THEN -1 ELSE 1
    ELSE IF \A i \in 1..Len(A) : A[i] = B[i] THEN 0
    ELSE LET k == CHOOSE i \in 1..Len(A) : A[i] # B[i] /\ \A j \in 1..(i-1) : A[j] = B[j]
         IN IF A[k] < B[k] THEN -1 ELSE 1

BCmp(a, b) ==
    IF a[1] # b[1] THEN IF a[1] < b[1] THEN -1 ELSE 1
    ELSE IF a[1] = 0 THEN 0 ELSE a[1] * CmpMag(Mag(a), Mag(b))

LOCAL At(A, i) == IF i <= Len(A) THEN A[Len(A) + 1 - i] ELSE 0   \* i-th digit from the right

RECURSIVE AddR(_, _, _, _)
LOCAL AddR(A, B, i, c) ==
    IF i > Len(A) /\ i > Len(B) THEN IF c = 0 THEN <<>> ELSE <<c>>
    ELSE LET t == At(A, i) + At(B, i) + c IN AddR(A, B, i + 1, t \div BB) \o <<t % BB>>

RECURSIVE SubR(_, _, _, _)
LOCAL SubR(A, B, i, c) ==                                          \* A >= B
    IF i > Len(A) THEN <<>>
    ELSE LET t == At(A, i) - At(B, i) - c
         IN SubR(A, B, i + 1, IF t < 0 THEN 1 ELSE 0) \o <<(t + BB) % BB>>

BAdd(a, b) ==
    IF a[1] = 0 THEN b ELSE IF b[1] = 0 THEN a
    ELSE IF a[1] = b[1] THEN Mk(a[1], AddR(Mag(a), Mag(b), 1, 0))
    ELSE LET c == CmpMag(Mag(a), Mag(b))
         IN IF c = 0 THEN BZero
            ELSE IF c > 0 THEN Mk(a[1], SubR(Mag(a), Mag(b), 1, 0))
            ELSE Mk(b[1], SubR(Mag(b), Mag(a), 1, 0))

BSub(a, b) == BAdd(a, BNeg(b))

\* multiply magnitude by one digit
RECURSIVE Mul1R(_, _, _, _)
LOCAL Mul1R(A, d, i, c) ==
    IF i > Len(A) THEN IF c = 0 THEN <<>> ELSE <<c>>
    ELSE LET t == At(A, i) * d + c IN Mul1R(A, d, i + 1, t \div BB) \o <<t % BB>>

RECURSIVE MulR(_, _, _)
LOCAL MulR(A, B, i) ==                                             \* digits i..Len(B) of B, from the left
    IF i = 0 THEN <<>>
    ELSE AddR(MulR(A, B, i - 1) \o <<0>>, Mul1R(A, B[i], 1, 0), 1, 0)

BMul(a, b) == Mk(a[1] * b[1], MulR(Mag(a), Mag(b), Len(Mag(b))))

\* long division of magnitudes, digit by digit (the digit is found by bisection)
RECURSIVE QDigit(_, _, _, _)
LOCAL QDigit(R, B, lo, hi) ==                                      \* largest q in lo..hi with q*B <= R
    IF lo = hi THEN lo
    ELSE LET m == (lo + hi + 1) \div 2
         IN IF CmpMag(StripL(Mul1R(B, m, 1, 0)), R) <= 0 THEN QDigit(R, B, m, hi)
            ELSE QDigit(R, B, lo, m - 1)

RECURSIVE DivR(_, _, _, _, _)
LOCAL DivR(A, B, i, Q, R) ==
    IF i > Len(A) THEN <<Q, R>>
    ELSE LET R1 == StripL(R \o <<A[i]>>)
             q == QDigit(R1, B, 0, BB - 1)
         IN DivR(A, B, i + 1, Q \o <<q>>, StripL(SubR(R1, Mul1R(B, q, 1, 0), 1, 0)))

\* quotient truncated towards zero and the remainder that goes with it
BQuo(a, b) == Mk(a[1] * b[1], DivR(Mag(a), Mag(b), 1, <<>>, <<>>)[1])
BRem(a, b) == Mk(a[1], DivR(Mag(a), Mag(b), 1, <<>>, <<>>)[2])

RECURSIVE BPow(_, _)
BPow(a, n) ==
    IF n = 0 THEN BOne
    ELSE LET h == BPow(a, n \div 2)
         IN IF n % 2 = 0 THEN BMul(h, h) ELSE BMul(BMul(h, h), a)

BPow10(n) == BPow(BInt(10), n)
BScale(a, n) == BMul(a, BPow10(n))                                 \* a * 10^n

\* largest r with r*r <= a, for a >= 0
RECURSIVE SqrtR(_, _, _)
LOCAL SqrtR(a, lo, hi) ==                                          \* lo^2 <= a < hi^2
    IF BCmp(BAdd(lo, BOne), hi) >= 0 THEN lo
    ELSE LET m == BQuo(BAdd(lo, hi), BInt(2))
         IN IF BCmp(BMul(m, m), a) <= 0 THEN SqrtR(a, m, hi) ELSE SqrtR(a, lo, m)
BSqrt(a) == SqrtR(a, BZero, BAdd(a, BOne))

\* decimal digits of the magnitude, most significant first; zero has none
LOCAL Dig4(d) == <<d \div 1000, (d \div 100) % 10, (d \div 10) % 10, d % 10>>
RECURSIVE DecR(_)
LOCAL DecR(L) == IF L = <<>> THEN <<>> ELSE Dig4(L[1]) \o DecR(Tail(L))
BToDec(a) == StripL(DecR(Mag(a)))
BDigits(a) == Len(BToDec(a))

\* number from a sign and decimal digits
RECURSIVE FromDecR(_, _, _)
LOCAL FromDecR(D, i, v) == IF i > Len(D) THEN v
    ELSE FromDecR(D, i + 1, BAdd(BMul(v, BInt(10)), BInt(D[i])))
BFromDec(s, D) == LET v == FromDecR(D, 1, BZero) IN IF s < 0 THEN BNeg(v) ELSE v

\* number of bits of the magnitude: 0 for zero
RECURSIVE BitsR(_, _)
LOCAL BitsR(a, n) == IF BCmp(a, BPow(BInt(2), n)) < 0 THEN n ELSE BitsR(a, n + 1)
BBits(a) == BitsR(BAbs(a), 0)

\* number of trailing decimal zeroes; 0 for zero
RECURSIVE TzR(_, _)
LOCAL TzR(D, n) == IF D[Len(D) - n] # 0 THEN n ELSE TzR(D, n + 1)
BTrailingZeroes(a) == IF a[1] = 0 THEN 0 ELSE TzR(BToDec(a), 0)

\* as a machine integer; |a| must be below 2^31
RECURSIVE ToIntR(_, _, _)
LOCAL ToIntR(L, i, v) == IF i > Len(L) THEN v ELSE ToIntR(L, i + 1, v * BB + L[i])
BToInt(a) == a[1] * ToIntR(Mag(a), 1, 0)

\* product of lo..hi (1 if empty)
RECURSIVE BRange(_, _)
BRange(lo, hi) ==
    IF lo > hi THEN BOne ELSE IF lo = hi THEN BInt(lo)
    ELSE LET m == (lo + hi) \div 2 IN BMul(BRange(lo, m), BRange(m + 1, hi))
----------------------------------------------------------------------------
(* Sequences of bytes and digits that are too long to be handled element   *)
(* by element in TLC                                                       *)

\* number of base-10000 digits without the trailing zero ones
RECURSIVE KeptR(_, _)
LOCAL KeptR(a, n) == IF n > 0 /\ a[n + 1] = 0 THEN KeptR(a, n - 1) ELSE n
BKept(a) == KeptR(a, Len(a) - 1)

\* the first n base-10000 digits as pairs of bytes, low byte first
BPairs(a, n) == [ i \in 1..(2*n) |-> LET g == a[((i + 1) \div 2) + 1] IN IF i % 2 = 1 THEN g % 256 ELSE g \div 256 ]

\* the reverse: n pairs of bytes from index i on; <<>> when one of them is no base-10000 digit
BUnpairs(s, b, i, n) ==
    LET D == [ j \in 1..n |-> b[i + 2*j - 2] + 256 * b[i + 2*j - 1] ]
    IN IF \E j \in 1..n : D[j] >= BB THEN <<>> ELSE BFromLimbs(s, D)

\* first index from i on whose element is not in S
SFirstNot(s, i, S) == LET J == { j \in i..Len(s) : s[j] \notin S }
                      IN IF J = {} THEN Len(s) + 1 ELSE CHOOSE j \in J : \A m \in J : j <= m

\* every element moved by k
SShift(s, k) == [ i \in 1..Len(s) |-> s[i] + k ]
=============================================================================
