----------------------------- MODULE SquareRoot -----------------------------
(***************************************************************************)
(* Newton's iteration for square roots: the approximation becomes the mean *)
(* of itself and of the quotient of the operand by it, both rounded to the *)
(* same digit, until nothing changes.  The division used for that is fast  *)
(* but not exact, a quotient which is very near to a tie may be rounded to *)
(* either side.                                                            *)
(*                                                                         *)
(* Exhaustive: every operand up to Max and every first guess.  The         *)
(* iteration has to come to an end (Ends) at the root (Close).  It does so *)
(* when the last two approximations are remembered (Memory = 2), and does  *)
(* not when only the last one is (Memory = 1): next to m + 1/4 both m and  *)
(* m + 1 may lead to the other (Zone).                                     *)
(*                                                                         *)
(* Numerics: the operands whose root is so near to m + 1/4, at the digit   *)
(* where the library computes, that a quotient cannot be told from the tie *)
(* are found with the Chinese remainder theorem and printed.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, BigInt

CONSTANTS Max, Slack, Memory,
          Scales, Parts          \* of the operands printed

VARIABLES arg,      \* the operand
          root,     \* the approximation
          past,     \* approximations remembered
          over

vars == <<arg, root, past, over>>

Abs(n) == IF n < 0 THEN -n ELSE n

\* the quotients that x by n may give
Quotients(x, n) == { q \in {x \div n, x \div n + 1} : 2 * Slack * Abs(x - q * n) <= n * (Slack + 2) }
Means(x, n) == { (n + q + 1) \div 2 : q \in Quotients(x, n) }

Last(s, n) == IF Len(s) > n THEN SubSeq(s, Len(s) - n + 1, Len(s)) ELSE s

Init == /\ arg \in 1..Max
        /\ root \in 1..(arg + 1)
        /\ past = <<root>>
        /\ over = FALSE

Next == /\ ~over
        /\ \E n \in Means(arg, root) :
              /\ root' = n
              /\ over' = (n = 0 \/ \E i \in 1..Len(past) : past[i] = n)
              /\ past' = Last(Append(past, n), Memory)
        /\ UNCHANGED arg

Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Ends == <>over

Close == over => (root - 1) * (root - 1) <= arg /\ arg <= (root + 1) * (root + 1)

\* the integer root
Floor(x) == CHOOSE m \in 0..x : m * m <= x /\ x < (m + 1) * (m + 1)
Zone == LET m == Floor(arg) IN
        (m + 1) \in Means(arg, m) /\ m \in Means(arg, m + 1) =>
            Slack * Abs(2 * (arg - m * m) - m) <= 2 * m + Slack

----------------------------------------------------------------------------
(* The root of x * 10^-scale is computed with scale + 8 decimals: with      *)
(* n = scale + 16, y = 4m + 1 and 16 x 10^n = y^2 - s^2 for a small odd s,  *)
(* the root is m + 1/4 but for s^2 / 32m.                                   *)

Mod(a, b) == BRem(BAdd(BRem(a, b), b), b)

Odd(scale, part) ==
    BAdd(BMul(BQuo(BSqrt(BQuo(BMul(BInt(16 * part), BPow10(scale + 16)), BPow10(21))), BInt(2)), BInt(2)), BOne)

Y(scale, s, sign) ==
    LET n == scale + 16
        two == BPow(BInt(2), n + 4)
        five == BPow(BInt(5), n)
        a == Mod(BMul(BInt(sign), s), two)
        b == Mod(BMul(BInt(-sign), s), five)
        half == BQuo(BAdd(five, BOne), BInt(2))            \* 1/2 modulo five
    IN BAdd(a, BMul(two, Mod(BMul(BSub(b, a), Mod(BPow(half, n + 4), five)), five)))

Operand(scale, part, sign) ==
    LET s == Odd(scale, part)
        y == Y(scale, s, sign)
    IN IF Mod(y, BInt(4)) # BOne THEN BZero
       ELSE BQuo(BSub(BMul(y, y), BMul(s, s)), BMul(BInt(16), BPow10(scale + 16)))

\* root and past hold the operand and its scale
InitNear == \E scale \in Scales, part \in Parts, sign \in {1, -1} :
    LET x == Operand(scale, part, sign) IN
    /\ BSgn(x) # 0
    /\ arg = x /\ root = scale /\ past = <<>> /\ over = TRUE
    /\ PrintT("ROOT " \o ToString(scale) \o " " \o ToString(x))

NextNear == FALSE /\ UNCHANGED vars

InZone == LET x == BScale(arg, root + 16)
              m == BSqrt(x)
              off == BSub(BMul(BInt(2), BSub(x, BMul(m, m))), m)
          IN BCmp(BMul(BAbs(off), BPow10(14)), m) < 0
=============================================================================
