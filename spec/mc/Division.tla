------------------------------ MODULE Division ------------------------------
(***************************************************************************)
(* Long division digit by digit (Knuth, volume 2, algorithm 4.3.1 D), the  *)
(* way a quotient of base-10000 numerics has to be found: a trial digit    *)
(* from two digits of the dividend and one of the divisor, its correction  *)
(* by a third digit, multiply and subtract, and the rare step back.        *)
(*                                                                         *)
(* Two uses.  With a small Base every dividend and divisor up to a length  *)
(* is tried, and the laws are checked in every state.  With Base = 10000   *)
(* dividends are built from extreme quotient digits and remainders; those  *)
(* whose way through the algorithm is rare are printed and divided by the  *)
(* library.                                                                *)
(***************************************************************************)
EXTENDS BigInt, FiniteSets, TLC, Randomization

CONSTANTS Base,
          LongU, LongV,    \* exhaustive: lengths of dividend and divisor
          Sample           \* 0: exhaustive; otherwise the number of random constructed operands

VARIABLES u, v,      \* as given
          top, bot,  \* working dividend (with a leading zero), normalized divisor
          by,        \* the factor of the normalization
          at,        \* quotient digits found
          quo,       \* the quotient so far
          fixes,     \* corrections of the trial digit, digit by digit
          backs      \* quotient digits that needed a step back

vars == <<u, v, top, bot, by, at, quo, fixes, backs>>

Digit == 0..(Base - 1)
Half == Base \div 2

----------------------------------------------------------------------------
(* Numbers as digits *)

RECURSIVE Val(_)
Val(s) == IF s = <<>> THEN BZero ELSE BAdd(BMul(Val(SubSeq(s, 1, Len(s) - 1)), BInt(Base)), BInt(s[Len(s)]))

\* digit times n plus carry, from the right
RECURSIVE Scaled(_, _, _)
Scaled(s, n, carry) ==
    IF s = <<>> THEN <<carry>>
    ELSE LET x == s[Len(s)] * n + carry IN Append(Scaled(SubSeq(s, 1, Len(s) - 1), n, x \div Base), x % Base)

RECURSIVE Digits(_)
Digits(b) == IF BSgn(b) = 0 THEN <<>> ELSE Append(Digits(BQuo(b, BInt(Base))), BToInt(BRem(b, BInt(Base))))

Exhaustive ==
    { <<p, q>> : p \in UNION { [1..n -> Digit] : n \in 1..LongU }, q \in UNION { [1..n -> Digit] : n \in 2..LongV } }

\* dividend = quotient * divisor + remainder
Corner == { d \in {0, 1, 2, Half - 1, Half, Half + 1, Base - 2, Base - 1} : d >= 0 }
Seeds == RandomSubset(Sample, [q : [1..3 -> Corner], f : Corner \ {0}, v : [1..2 -> Corner], w : Corner \cup {17 % Base, 7777 % Base}, r : -2..6])
Divisor(s) == IF s.r = 6 THEN <<s.f, s.v[1]>> ELSE <<s.f>> \o s.v \o (IF s.r = 5 THEN <<s.w>> ELSE <<>>)
Rest(s, d) == CASE s.r = -2 -> BSub(d, BOne) [] s.r = -1 -> BZero [] s.r = 0 -> BOne [] s.r = 1 -> BQuo(d, BInt(2))
                [] s.r = 2 -> BSub(d, BInt(2)) [] s.r = 3 -> BSub(d, BInt(s.w + 1)) [] OTHER -> BSub(d, BOne)
Constructed == { <<Digits(BAdd(BMul(Val(s.q), Val(Divisor(s))), Rest(s, Val(Divisor(s))))), Divisor(s)>> : s \in Seeds }

----------------------------------------------------------------------------
Init ==
    /\ \E p \in (IF Sample = 0 THEN Exhaustive ELSE Constructed) :
          /\ p[2][1] # 0 /\ p[1] # <<>>
          /\ u = p[1] /\ v = p[2]
    /\ by = IF v[1] < Half THEN Base \div (v[1] + 1) ELSE 1
    /\ top = Scaled(u, by, 0) \o [i \in 1..Len(v) |-> 0]
    /\ bot = Tail(Scaled(v, by, 0))
    /\ at = 0 /\ quo = <<>> /\ fixes = <<>> /\ backs = {}

\* the quotient of u * Base^Len(v) by v
Steps == Len(top) - Len(v)

RECURSIVE Corrected(_, _, _, _)
Corrected(q, two, third, n) ==
    IF BCmp(BMul(BInt(bot[2]), BInt(q)), BAdd(BMul(BSub(BInt(two), BMul(BInt(q), BInt(bot[1]))), BInt(Base)), BInt(third))) > 0
    THEN Corrected(q - 1, two, third, n + 1) ELSE <<q, n>>

\* window of the dividend under the divisor, less q times the divisor; <<digits, borrow>>
RECURSIVE Less(_, _, _, _, _)
Less(w, d, q, carry, borrow) ==
    IF w = <<>> THEN <<<<>>, carry + borrow>>
    ELSE LET p == q * d[Len(d)] + carry
             x == w[Len(w)] - (p % Base) - borrow
             r == Less(SubSeq(w, 1, Len(w) - 1), SubSeq(d, 1, Len(d) - 1), q, p \div Base, IF x < 0 THEN 1 ELSE 0)
         IN <<Append(r[1], IF x < 0 THEN x + Base ELSE x), r[2]>>

RECURSIVE Plus(_, _, _)
Plus(w, d, carry) ==
    IF w = <<>> THEN <<>>
    ELSE LET x == w[Len(w)] + d[Len(d)] + carry
         IN Append(Plus(SubSeq(w, 1, Len(w) - 1), SubSeq(d, 1, Len(d) - 1), x \div Base), x % Base)

Window == SubSeq(top, at + 1, at + 1 + Len(v))
Wide(d) == <<0>> \o d

TrialDigit ==
    LET two == top[at + 1] * Base + top[at + 2] IN
    Corrected(IF top[at + 1] = bot[1] THEN Base - 1 ELSE two \div bot[1], two, top[at + 3], 0)

Step ==
    /\ at < Steps
    /\ LET t == TrialDigit
           s == Less(Window, Wide(bot), t[1], 0, 0)
           back == s[2] # 0
           w == IF back THEN Plus(s[1], Wide(bot), 0) ELSE s[1]
       IN /\ top' = SubSeq(top, 1, at) \o w \o SubSeq(top, at + 2 + Len(v), Len(top))
          /\ quo' = Append(quo, IF back THEN t[1] - 1 ELSE t[1])
          /\ fixes' = Append(fixes, t[2])
          /\ backs' = IF back THEN backs \cup {at} ELSE backs
    /\ at' = at + 1
    /\ UNCHANGED <<u, v, bot, by>>

Rare == backs # {} \/ (\E i \in 1..Len(fixes) : fixes[i] >= 2)
Say == PrintT("DIV " \o ToString(u) \o " " \o ToString(v) \o " " \o ToString(backs) \o " " \o ToString(fixes))
Next == Step /\ (at + 1 = Steps /\ Sample > 0 /\ Rare' => Say)

----------------------------------------------------------------------------
(* Laws *)

InDigits == \A i \in 1..Len(top) : top[i] \in Digit

\* the divisor is normalized without growing, and the dividend with it
Normal == /\ bot[1] >= Half /\ Len(bot) = Len(v)
          /\ Val(bot) = BMul(Val(v), BInt(by))

\* the trial digit is right or one too large, and the part of the dividend above is below the divisor
Trial == at < Steps =>
    LET q == BQuo(Val(Window), Val(bot)) IN
    /\ BCmp(q, BInt(Base)) < 0
    /\ BToInt(q) \in {TrialDigit[1], TrialDigit[1] - 1}

\* nothing is lost: dividend * Base^Len(v) = quotient * divisor + what is left, at every step
RECURSIVE Power(_)
Power(n) == IF n = 0 THEN BOne ELSE BMul(Power(n - 1), BInt(Base))
Kept == BMul(BMul(Val(u), BInt(by)), Power(Len(v))) =
        BAdd(BMul(BMul(Val(quo), Val(bot)), Power(Steps - at)), Val(top))

Done == at = Steps => Val(quo) = BQuo(BMul(Val(u), Power(Len(v))), Val(v)) /\ BCmp(Val(top), Val(bot)) < 0
=============================================================================
