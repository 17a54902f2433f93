------------------------------ MODULE Multiply ------------------------------
(***************************************************************************)
(* Multiplication of digit strings with deferred carries: the products of  *)
(* digits are added up in columns of limited size, and carries are passed  *)
(* on only when a bound on the columns (kept in units of Base-1) says that *)
(* the next row might not fit any more.                                    *)
(*                                                                         *)
(* With a small Base and a small Limit every pair of operands up to a      *)
(* length is tried.  With Base = 10000 and Limit = 2^31-1 (also the limit  *)
(* of TLC's own integers) the operands are built so that the bound comes   *)
(* to stand at, just below and just above its threshold, once or several   *)
(* times; they are printed and multiplied by the library.                  *)
(***************************************************************************)
EXTENDS BigInt, TLC, Randomization

CONSTANTS Base, Limit, Long, Sample

VARIABLES p, q,      \* operands (p not longer than q)
          row,       \* digits of p still to be done
          col,       \* columns, most significant first: digit i of p times digit j of q goes to column i+j
          bound,     \* no column exceeds bound * (Base-1)
          passes     \* carry passes made
vars == <<p, q, row, col, bound, passes>>

Digit == 0..(Base - 1)
Threshold == (Limit - Limit \div Base) \div (Base - 1)

RECURSIVE Val(_)
Val(s) == IF s = <<>> THEN BZero ELSE BAdd(BMul(Val(SubSeq(s, 1, Len(s) - 1)), BInt(Base)), BInt(s[Len(s)]))

Texts == UNION { [1..n -> Digit] : n \in 1..Long }
Exhaustive == { <<a, b>> \in Texts \X Texts : Len(a) <= Len(b) /\ a[1] # 0 /\ b[1] # 0 }

Nines(n) == [i \in 1..n |-> Base - 1]
Insert(s, at, x) == SubSeq(s, 1, at) \o <<x>> \o SubSeq(s, at + 1, Len(s))

\* digits which bring the bound from `from` to Threshold + off: nines and one filler
Filled(from, off, at) ==
    LET room == Threshold + off - from
        n == room \div (Base - 1)
        f == room % (Base - 1)
    IN IF f = 0 THEN Nines(n) ELSE Insert(Nines(n), IF at > n THEN n ELSE at, f)

\* after a carry pass the bound starts from 1 + the digit that caused it
Chain(s) ==
    LET a == Filled(0, s.o1, s.at)
        b == Filled(1 + s.d, s.o2, s.at2)
    IN IF s.rounds = 1 THEN a \o <<s.d>>
       ELSE a \o <<s.d>> \o b \o Nines(s.tail)

Reverse(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
\* rows are done from the last digit of p
Seeds == RandomSubset(Sample, [o1 : {-1, 0, 1}, o2 : {-1, 0, 1}, at : {0, 1, 7, 30}, at2 : {0, 3, 30}, d : {Base - 1, Base \div 2, 1, Base - 2},
                               rounds : {1, 2}, tail : {0, 1, 2}, more : {0, 1, 2, 22}, mid : {Base - 1, Base - 2, 0, 1}])
Second(s, n) == [i \in 1..(n + s.more) |-> IF i = (n + 1) \div 2 THEN s.mid ELSE Base - 1]
Constructed == { LET a == Reverse(Chain(s)) IN <<a, Second(s, Len(a))>> : s \in Seeds }

Init ==
    /\ \E o \in (IF Sample = 0 THEN Exhaustive ELSE Constructed) : p = o[1] /\ q = o[2]
    /\ row = Len(p)
    /\ col = [i \in 1..(Len(p) + Len(q)) |-> 0]
    /\ bound = 0 /\ passes = 0

\* carries, from the last column
RECURSIVE Passed(_, _)
Passed(c, carry) ==
    IF c = <<>> THEN <<>>
    ELSE LET x == c[Len(c)] + carry IN Append(Passed(SubSeq(c, 1, Len(c) - 1), x \div Base), x % Base)

Add(c, d) == [i \in DOMAIN c |-> LET j == i - row IN IF j \in 1..Len(q) THEN c[i] + d * q[j] ELSE c[i]]

Row ==
    /\ row > 0
    /\ LET d == p[row]
           full == bound + d > Threshold
       IN IF d = 0 THEN UNCHANGED <<col, bound, passes>>
          ELSE /\ col' = Add(IF full THEN Passed(col, 0) ELSE col, d)
               /\ bound' = IF full THEN 1 + d ELSE bound + d
               /\ passes' = IF full THEN passes + 1 ELSE passes
    /\ row' = row - 1
    /\ UNCHANGED <<p, q>>

Say == PrintT("MUL " \o ToString(p) \o " " \o ToString(q) \o " " \o ToString(passes'))
Next == Row /\ (row = 1 /\ Sample > 0 => Say)

----------------------------------------------------------------------------
(* Laws *)

\* columns stay within the bound, and so within the limit even while carries are passed on
Within == \A i \in DOMAIN col : col[i] \div (Base - 1) <= bound /\ (col[i] \div (Base - 1) = bound => col[i] % (Base - 1) = 0)
                                /\ col[i] <= Limit - Limit \div Base
Tight == bound <= Threshold

\* the columns always hold the product of q and the digits of p done
Holds == row \in {0, Len(p) \div 2} => Val(col) = BMul(Val(SubSeq(p, row + 1, Len(p))), Val(q))
=============================================================================
