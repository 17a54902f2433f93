------------------------------- MODULE Floats -------------------------------
(***************************************************************************)
(* Floating-point numbers of both formats: every exponent (or a part of    *)
(* them) with mantissas at the ends and in the middle.  The laws           *)
(* characterise the conversions by distances; the bits are printed and     *)
(* converted by the library, there and back.                               *)
(***************************************************************************)
EXTENDS Machine, TLC, IOUtils

BE == FALSE

CONSTANTS Step,      \* take every Step-th exponent
          Offset

VARIABLES fmt, bits, done

FormatOf(n) == IF n = 64 THEN F64 ELSE F32
Hidden(F) == P2(F.m - 1)

Exponents(F) == { x \in 0..(F.ex - 1) : x % Step = Offset \/ x \in {0, 1, 2, F.ex - 1, F.ex - 2, (F.ex - 1) \div 2} }
Mantissas(F) == LET h == Hidden(F) IN
    { BZero, BOne, BSub(h, BOne), BQuo(h, BInt(2)), BSub(BQuo(h, BInt(2)), BOne), BQuo(h, BInt(3)), BQuo(BMul(h, BInt(2)), BInt(7)), BQuo(h, BInt(10)) }

\* half way to the next float, and a little to both sides of that
Middle(bs, F) ==
    LET ex == BToInt(BQuo(bs, Hidden(F))) fr == BRem(bs, Hidden(F))
        m == IF ex = 0 THEN fr ELSE BAdd(fr, Hidden(F))
        e == F.e0 + Max2(ex, 1) - 2
        t == BAdd(BAdd(m, m), BOne)
    IN IF e >= 0 THEN Num(BMul(t, P2(e)), 0) ELSE Num(BMul(t, BPow(BInt(5), -e)), -e)
Beside(x, k) == Num(BAdd(BScale(x.c, 1), BInt(k)), x.ds + 1)

Say(bs, F) == LET x == Middle(bs, F) IN
    PrintT("FLOAT " \o ToString(WordsOf(bs, F.w)) \o " " \o ToString(Enc(x)) \o " " \o ToString(Enc(Beside(x, 1)))
           \o " " \o ToString(Enc(Beside(x, -1))))

Init == fmt \in {64, 32} /\ bits = <<>> /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED fmt
        /\ LET F == FormatOf(fmt) IN
           \E x \in Exponents(F), m \in Mantissas(F) : bits' = BAdd(BMul(BInt(x), Hidden(F)), m)
        /\ Say(bits', FormatOf(fmt))

----------------------------------------------------------------------------
Same(x, y) == Cmp(x, y) = 0
AbsOf(x) == Num(BAbs(x.c), x.ds)
Half(x) == Num(BMul(x.c, BInt(5)), x.ds + 1)

ValOf(F) ==
    LET ex == BToInt(BQuo(bits, Hidden(F))) fr == BRem(bits, Hidden(F))
        m == IF ex = 0 THEN fr ELSE BAdd(fr, Hidden(F))
        e == F.e0 + Max2(ex, 1) - 1
    IN IF e >= 0 THEN Num(BMul(m, P2(e)), 0) ELSE Num(BMul(m, BPow(BInt(5), -e)), -e)

\* at most 15 (6) digits, at most half a unit of the last one away, no zeroes at the end
LawC16 == done =>
    LET F == FormatOf(fmt)
        o == FromFloat(WordsOf(bits, F.w), F)
        x == ValOf(F)
    IN /\ o.k = "ok"
       /\ IF BSgn(bits) = 0 THEN o.v = Zero(0)
          ELSE LET y == o.v
                   w == DecWeight(x)
                   u == F.dig - 1 - w                    \* the last digit counts 10^-u
                   unit == IF u >= 0 THEN Num(BOne, u) ELSE Num(BPow10(-u), 0)
               IN /\ BDigits(y.c) - BTrailingZeroes(y.c) <= F.dig
                  /\ y.ds > 0 => BTrailingZeroes(y.c) = 0
                  /\ Cmp(AbsOf(DiffOf(x, y)), Half(unit)) <= 0

\* the value of a float converts to that float; so does its decimal when the format holds enough digits
LawC17 == done =>
    LET F == FormatOf(fmt) x == ValOf(F) IN
    /\ FloatOf(x, F) = [k |-> "ok", f |-> WordsOf(bits, F.w)]
    /\ LET y == Middle(bits, F)                    \* a tie goes to the even one of both, the sides to the nearer one
           up == BAdd(bits, BOne)
           Is(v, q) == NearestBits(v.c, BPow10(v.ds), F) = q
       IN /\ Is(y, IF IsOdd(bits) THEN up ELSE bits)
          /\ Is(Beside(y, 1), up) /\ Is(Beside(y, -1), bits)
=============================================================================
