---------------------------- MODULE FastDivision ----------------------------
(***************************************************************************)
(* Division for the real functions: each quotient digit is estimated from  *)
(* four digits of the dividend and four of the divisor, wrong estimates    *)
(* are made good by later digits (which may be negative, or too large),    *)
(* and carries are put off until a bound on the columns says that the next *)
(* subtraction might not fit any more.  The estimate is a product of       *)
(* floating-point numbers, so next to an integer it may fall on either     *)
(* side: `lean` says on which (0: exact, -1: below, 1: above, 2: by turns). *)
(*                                                                         *)
(* Base 10 (four digits still tell a digit), columns up to 2147: all       *)
(* divisors up to Long digits.  Base 10000, columns of 32 bits: divisors   *)
(* made from quotients with extreme digits (printed; the library divides 1 *)
(* by them when a power has a negative exponent), and quotients that bring *)
(* the bound to its threshold over divisors of the greatest digits         *)
(* (printed; the library divides like this in logarithms).                 *)
(***************************************************************************)
EXTENDS BigInt, TLC, Randomization

CONSTANTS Base, Limit,
          Long,        \* exhaustive: digits of the divisor
          Steps,       \* exhaustive: digits of the quotient
          Sample       \* 0: exhaustive

VARIABLES num, den,    \* digits of the dividend and the divisor
          col,         \* quotient digits found, then the columns of the remainder
          at,          \* number of quotient digits found
          bound,       \* columns after the first one are at most bound * (Base-1)
          passes,      \* carry passes made
          lean,        \* where estimates next to an integer fall
          fits         \* nothing but the folding of a column into the next one has left the limits
vars == <<num, den, col, at, bound, passes, lean, fits>>

Last == Len(col)
Threshold == (Limit - Limit \div Base - 1) \div (Base - 1)

RECURSIVE Val(_)
Val(s) == IF s = <<>> THEN BZero ELSE BAdd(BMul(Val(SubSeq(s, 1, Len(s) - 1)), BInt(Base)), BInt(s[Len(s)]))
RECURSIVE Digits(_)
Digits(b) == IF BSgn(b) = 0 THEN <<>> ELSE Append(Digits(BQuo(b, BInt(Base))), BToInt(BRem(b, BInt(Base))))

AbsI(i) == IF i < 0 THEN -i ELSE i
Zeroes(n) == [i \in 1..n |-> 0]

----------------------------------------------------------------------------
(* Operands *)

Numerators == { <<1>>, <<Base - 1, 7 % Base>>, <<2, 0, 0, 0, 1>> }
Exhaustive == { <<x, y>> : x \in Numerators, y \in UNION { [1..k -> 0..(Base - 1)] : k \in 1..Long } }

\* runs of extreme quotient digits: 1 / (their number) is the divisor
Corner == { 0, 1, Base \div 2, Base - 2, Base - 1 }
Seeds == [a : Corner, b : Corner, c : Corner, m : 0..24, n : 0..24, k : 0..24, f : {1, 2, Base \div 2, Base - 1}, l : 1..80]
Run(d, n) == [i \in 1..n |-> d]
Quotient(s) == <<s.f>> \o Run(s.a, s.m) \o Run(s.b, s.n) \o Run(s.c, s.k)
First(s, n) == SubSeq(s, 1, IF n < Len(s) THEN n ELSE Len(s))
Divisor(s) ==
    LET q == Quotient(s)
    IN First(Digits(BQuo(BPow(BInt(Base), 2 * Len(q) + 2), Val(q))), s.l)

\* quotient digits that sum up to just the room below the threshold, a divisor of large digits
Full == [at : 0..22, off : {-2, -1, 0, 1, 2, 10, 19, 20, 21, 22}, n : 20..60, x : {0, 1, 2, 20, 21, 22, 23, 40}, d : {Base - 1, Base - 2, 0}, more : {0, 1, 30, 31, 60}, e : {Base - 1, Base - 2}, w : {Base - 1, Base - 2}]
Nines(n) == Run(Base - 1, n)
Insert(q, k, d) == SubSeq(q, 1, IF k < Len(q) THEN k ELSE Len(q)) \o <<d>> \o SubSeq(q, k + 1, Len(q))
Filled(s) ==
    LET room == Threshold - 1 + s.off
    IN Insert(Nines(room \div (Base - 1)), s.at, room % (Base - 1)) \o Run(s.e, s.more)
Large(s) == <<s.w>> \o Insert(Nines(s.n), s.x, s.d)
Product(s) == LET p == Digits(BMul(Val(Filled(s)), Val(Large(s)))) IN <<First(p, 80), Large(s)>>
Boundary == { Product(s) : s \in RandomSubset(Sample, Full) }
Reciprocals == { <<<<1>>, Divisor(s)>> : s \in RandomSubset(Sample, Seeds) }

Init ==
    /\ \E o \in (IF Sample = 0 THEN Exhaustive ELSE Reciprocals \cup Boundary) :
          /\ o[2][1] # 0
          /\ num = o[1] /\ den = o[2]
    /\ col = <<0>> \o num \o Zeroes(IF Sample = 0 THEN Steps ELSE 87 - Len(num))
    /\ lean \in -1..2
    /\ at = 0 /\ bound = 1 /\ passes = 0 /\ fits = TRUE

----------------------------------------------------------------------------
(* One quotient digit *)

RECURSIVE Lead(_, _, _, _)
Lead(s, i, n, v) ==
    IF n = 0 THEN v
    ELSE Lead(s, i + 1, n - 1, BAdd(BMul(v, BInt(Base)), IF i <= Len(s) THEN BInt(s[i]) ELSE BZero))
Four(s, i) == Lead(s, i, 4, BZero)

\* quotient towards minus infinity
FloorQuo(a, b) ==
    LET q == BQuo(a, b) IN IF BSgn(BRem(a, b)) < 0 THEN BSub(q, BOne) ELSE q

\* the relative error of the estimate is far below 2^-40 of Base
Fine == BPow(BInt(2), 36)
Estimate(c, i) ==
    LET a == Four(c, i)
        b == Four(den, 1)
        q == FloorQuo(a, b)
        r == BSub(a, BMul(q, b))
        n == BToInt(q)
    IN IF BCmp(BMul(r, Fine), b) < 0 /\ BSgn(a) # 0 /\ (lean = -1 \/ (lean = 2 /\ i % 2 = 0)) THEN n - 1
       ELSE IF BCmp(BMul(BSub(b, r), Fine), b) < 0 /\ (lean = 1 \/ (lean = 2 /\ i % 2 = 1)) THEN n + 1
       ELSE n

RECURSIVE Passed(_, _, _)
\* carries into column i, from the last column; columns before i stay
Passed(c, i, carry) ==
    IF Len(c) = i THEN [c EXCEPT ![i] = @ + carry]
    ELSE LET x == c[Len(c)] + carry IN Append(Passed(SubSeq(c, 1, Len(c) - 1), i, x \div Base), x % Base)

Less(c, i, q) == [j \in DOMAIN c |-> IF j - i + 1 \in 1..Len(den) THEN c[j] - q * den[j - i + 1] ELSE c[j]]

\* quotient digit q goes to column i; what is left there goes to the next one, ten thousandfold
Folded(c, i, q) ==
    LET x == BAdd(BMul(BInt(c[i]), BInt(Base)), BInt(c[i + 1]))
    IN <<[c EXCEPT ![i] = q, ![i + 1] = IF BCmp(BAbs(x), BInt(Limit)) <= 0 THEN BToInt(x) ELSE 0], BCmp(BAbs(x), BInt(Limit)) <= 0>>

Place(c, i, q, b) ==
    LET f == Folded(Less(c, i, q), i, q)
    IN col' = f[1] /\ fits' = (fits /\ f[2]) /\ bound' = b

Digit ==
    /\ at < Last - 1
    /\ LET i == at + 1
           q == Estimate(col, i)
       IN    IF q = 0 THEN Place(col, i, 0, bound) /\ UNCHANGED passes
             ELSE IF bound + AbsI(q) <= Threshold THEN Place(col, i, q, bound + AbsI(q)) /\ UNCHANGED passes
             ELSE LET c == Passed(col, i, 0)
                      p == Estimate(c, i)
                  IN Place(c, i, p, 1 + AbsI(p)) /\ passes' = passes + 1
    /\ at' = at + 1
    /\ UNCHANGED <<num, den, lean>>

Say == PrintT("FAST " \o ToString(num) \o " " \o ToString(den) \o " " \o ToString(passes))
Finish ==
    /\ at = Last - 1
    /\ col' = [col EXCEPT ![Last] = Estimate(col, Last)]
    /\ at' = Last
    /\ IF Sample > 0 /\ lean = 0 THEN Say ELSE TRUE
    /\ UNCHANGED <<num, den, bound, passes, lean, fits>>

Next == Digit \/ Finish

----------------------------------------------------------------------------
(* Laws *)

\* columns after the first two stay within the bound; everything stays within the limit, also while carries are passed on
Within == \A j \in (at + 3)..Last : AbsI(col[j]) <= bound * (Base - 1)
Fits == fits /\ \A j \in (at + 2)..Last : AbsI(col[j]) <= Limit - Limit \div Base
Tight == bound <= Threshold + 1

\* digits are estimated at most one off, so none is below -1 or above Base
Near == \A j \in 1..at : j < Last => col[j] \in -1..Base

\* quotient found * divisor + remainder = dividend, but for what fell off the end
Kept ==
    LET unit == BPow(BInt(Base), Len(den) - 1)
        found == Val(SubSeq(col, 1, at) \o Zeroes(Last - at))
        rest == Val(Zeroes(at) \o SubSeq(col, at + 1, Last))
        whole == Val(<<0>> \o num \o Zeroes(Last - 1 - Len(num)))
        off == BSub(BMul(BSub(whole, rest), unit), BMul(found, Val(den)))
    IN at < Last /\ (at % 7 = 0 \/ at = Last - 1) =>
          IF at + Len(den) <= Last THEN BSgn(off) = 0
          ELSE BCmp(BAbs(off), BMul(unit, BInt((Len(den) + 1) * (Base + 1)))) <= 0

\* the digits that are kept are right: the error stays within the last two of the five guard digits
Accurate ==
    LET whole == BMul(Val(<<0>> \o num \o Zeroes(Last - 1 - Len(num))), BPow(BInt(Base), Len(den) - 1))
        off == BSub(BMul(Val(col), Val(den)), whole)
    IN at = Last => BCmp(BAbs(off), BMul(Val(den), BInt((Len(den) + 2) * Base))) <= 0
=============================================================================
