-------------------------------- MODULE Laws --------------------------------
(***************************************************************************)
(* The statements of properties.jsonl as laws of the specification itself, *)
(* checked on every pair of a set of operands made from boundary digits,   *)
(* boundary weights and boundary scales.  The laws do not use the          *)
(* definitions they are about: an exact sum is characterised by taking it  *)
(* apart again, a quotient by multiplying back, text by reading it.        *)
(*                                                                         *)
(* The states are also the behaviours which the library is run on: the     *)
(* operands are printed and the executed programs are judged by Trace.     *)
(***************************************************************************)
EXTENDS Machine, TLC, IOUtils, Randomization

BE == FALSE

Wide == IOEnv.WIDE          \* "0": the small set, "1": a random part of the large set
Size == CHOOSE n \in 1..5000 : ToString(n) = IOEnv.SIZE

----------------------------------------------------------------------------
(* Operands *)

\* base-10000 digits of the leading, middle and last group
First(wide) == IF wide THEN {1, 2, 9, 10, 99, 100, 999, 1000, 4999, 5000, 5001, 9999} ELSE {1, 5000, 9999}
Inner(wide) == IF wide THEN {0, 1, 4999, 5000, 9998, 9999} ELSE {0, 9999}
Last(wide)  == IF wide THEN {1, 10, 1000, 4999, 5000, 5001, 9000, 9990, 9999} ELSE {1, 5000, 9999}

Limbs(wide) == { <<f>> : f \in First(wide) }
          \cup { <<f, l>> : f \in First(wide), l \in Last(wide) }
          \cup { <<f, m, l>> : f \in First(wide), m \in Inner(wide), l \in Last(wide) }
          \cup (IF wide THEN { <<f, m, n, l>> : f \in {1, 5000, 9999}, m \in Inner(wide), n \in Inner(wide), l \in {1, 5000, 9999} } ELSE {})

Exps(wide)  == IF wide THEN {-66, -65, -64, -63, -4, -3, -2, -1, 0, 1, 2, 3, 61, 62, 63, 64} ELSE {-3, -2, -1, 0, 1}
Pads(wide)  == IF wide THEN {0, 1, 2, 3, 4, 16} ELSE {0, 1, 5}

\* L * 10000^e with pad further digits after the point
Made(L, e, s, pad) ==
    LET m == BFromLimbs(s, L)
        tz == BTrailingZeroes(m)
        low == Max2(0, -4 * e - tz)              \* digits after the point that the value needs
    IN Num(Shift10(m, 4 * e + low + pad), low + pad)

Special == { NaN, Zero(0), Zero(1), Zero(4), Zero(63), Zero(64), Zero(1000), Num(BOne, 0), Num(BNeg(BOne), 0),
             Num(BInt(10), 1), Num(BInt(2), 0), Num(BInt(-5), 1), Num(BInt(15), 1), Num(BInt(25), 1), Num(BInt(3), 0) }

\* the ends of the format
Ends == { Num(BSub(BPow10(131072), BOne), 0), Num(BNeg(BPow10(131071)), 0), Num(BOne, 16383), Num(BInt(-9999), 16383) }

Narrow == { Made(L, e, s, p) : L \in Limbs(FALSE), e \in Exps(FALSE), s \in {-1, 1}, p \in Pads(FALSE) }
Broad  == { Made(t[1], t[2], t[3], t[4]) : t \in RandomSubset(Size, Limbs(TRUE) \X Exps(TRUE) \X {-1, 1} \X Pads(TRUE)) }

Operand == (IF Wide = "1" THEN Broad ELSE { v \in RandomSubset(Size, Narrow) : TRUE }) \cup Special

----------------------------------------------------------------------------
(* States: an operand, then a pair *)

\* (state variables must not have the names of parameters: TLC would not keep the values of constants)
VARIABLES left, right
vars == <<left, right>>
Pick == [k |-> "pick"]

Runnable(v) == v.k # "pick"
Say(x, y) == PrintT("RUN " \o ToString(Enc(x)) \o " " \o (IF Runnable(y) THEN ToString(Enc(y)) ELSE "-"))

Init == left = Pick /\ right = Pick
ChooseLeft == left = Pick /\ left' \in Operand /\ UNCHANGED right
ChooseRight == left # Pick /\ right = Pick /\ right' \in Operand /\ UNCHANGED left

\* the two next-state relations (one is chosen in the configuration)
NextOne == ChooseLeft /\ Say(left', Pick)
NextTwo == ChooseLeft \/ (ChooseRight /\ Say(left, right'))

Fin1 == IsNum(left)
Fin2 == IsNum(left) /\ IsNum(right)
HasA == Runnable(left)
HasB == Runnable(right)

----------------------------------------------------------------------------
Same(x, y) == Cmp(x, y) = 0
Unit(n) == Num(BOne, n)                               \* 10^-n for n >= 0
Ulp(n) == IF n >= 0 THEN Unit(n) ELSE Num(BPow10(-n), 0)
Half(x) == Num(BMul(x.c, BInt(5)), x.ds + 1)
AbsOf(x) == Num(BAbs(x.c), x.ds)
Times(x, y) == Num(BMul(x.c, y.c), x.ds + y.ds)

\* the exact sum is taken apart by the exact difference, and grows with its operands
LawC01 == Fin2 =>
    LET s == Add(left, right) d == Sub(left, right) IN
    /\ s.k = "ok" => s.v.ds = Max2(left.ds, right.ds) /\ Same(DiffOf(s.v, right), left) /\ Same(DiffOf(s.v, left), right)
                     /\ Cmp(s.v, left) = BSgn(right.c) /\ s = Add(right, left)
    /\ d.k = "ok" => d.v.ds = Max2(left.ds, right.ds) /\ Same(SumOf(d.v, right), left) /\ BSgn(d.v.c) = Cmp(left, right)
                     /\ d = Add(left, Num(BNeg(right.c), right.ds))
    /\ s.k = "none" => BDigits(SumOf(left, right).c) - Max2(left.ds, right.ds) > 131072

\* a (b + 1) = a b + a, and the sizes and signs multiply
LawC02 == Fin2 =>
    LET p == Mul(left, right) IN
    p.k = "ok" => /\ p.v.ds = left.ds + right.ds /\ p = Mul(right, left)
                  /\ BSgn(p.v.c) = BSgn(left.c) * BSgn(right.c)
                  /\ Same(Times(left, SumOf(right, Unit(0))), SumOf(p.v, left))
                  /\ (BSgn(p.v.c) # 0 => DecWeight(p.v) - DecWeight(left) - DecWeight(right) \in {0, 1})

\* multiplied back, the quotient is at most half a unit away; it has at least 13 digits unless the scale is capped, and
\* at most 21 unless an operand asks for more
LawC03 == Fin2 =>
    LET q == Div(left, right) IN
    /\ (q.k = "none") = (BSgn(right.c) = 0 \/ (BSgn(right.c) # 0 /\ q.k = "none" /\ DecWeight(left) - DecWeight(right) >= 131071))
    /\ q.k = "ok" =>
         LET n == q.v.ds
             err == AbsOf(DiffOf(left, Times(q.v, right)))
             half == Half(Times(AbsOf(right), Unit(n)))
         IN /\ Cmp(err, half) <= 0
            /\ Cmp(err, half) = 0 => Cmp(AbsOf(Times(q.v, right)), AbsOf(left)) > 0
            /\ n >= Max2(left.ds, right.ds) \/ n = 1000
            /\ n <= 1000
            /\ (BSgn(q.v.c) # 0 /\ n < 1000) => DecWeight(q.v) + n + 1 >= 13
            /\ n \in {0, left.ds, right.ds, 1000} \/ (BSgn(q.v.c) # 0 => DecWeight(q.v) + n + 1 <= 21)

\* x = trunc(x/y) y + x%y
LawC04 == Fin2 =>
    LET t == DivT(left, right) r == Rem(left, right) IN
    /\ (t.k = "none" <=> BSgn(right.c) = 0) \/ DecWeight(left) - DecWeight(right) >= 131071
    /\ (t.k = "ok" /\ r.k = "ok") =>
         /\ t.v.ds = 0 /\ r.v.ds = Max2(left.ds, right.ds)
         /\ Same(SumOf(Times(t.v, right), r.v), left)
         /\ Cmp(AbsOf(r.v), AbsOf(right)) < 0
         /\ BSgn(r.v.c) \in {0, BSgn(left.c)}

Places == {-9, -5, -4, -3, -1, 0, 1, 2, 3, 4, 5, 8, 63, 64, 1000, 1001}
LawC05 == Fin1 => \A p \in Places :
    LET n == Min2(p, 1000)
        r == Round(left, p) t == Trunc(left, p) IN
    (r.k = "ok" /\ t.k = "ok") =>
         LET e == AbsOf(DiffOf(r.v, left)) d == AbsOf(DiffOf(t.v, left)) IN
         /\ r.v.ds = Max2(n, 0) /\ t.v.ds = Max2(n, 0)
         /\ (n < 0 => BSgn(BRem(r.v.c, BPow10(-n))) = 0 /\ BSgn(BRem(t.v.c, BPow10(-n))) = 0)
         /\ Cmp(e, Half(Ulp(n))) <= 0
         /\ Cmp(e, Half(Ulp(n))) = 0 => Cmp(AbsOf(r.v), AbsOf(left)) > 0
         /\ Cmp(d, Ulp(n)) < 0 /\ Cmp(AbsOf(t.v), AbsOf(left)) <= 0
         /\ Round(r.v, p) = r /\ Trunc(t.v, p) = t
LawC05int == Fin1 =>
    LET c == Ceil(left) f == Floor(left) one == Unit(0) IN
    (c.k = "ok" /\ f.k = "ok") =>
         /\ c.v.ds = 0 /\ f.v.ds = 0
         /\ Cmp(c.v, left) >= 0 /\ Cmp(DiffOf(c.v, left), one) < 0
         /\ Cmp(f.v, left) <= 0 /\ Cmp(DiffOf(left, f.v), one) < 0
         /\ Same(Floor(Neg(left).v).v, Neg(c.v).v)

LawC06 == Fin1 =>
    /\ Neg(Neg(left).v) = Ok(left) /\ BSgn(SumOf(left, Neg(left).v).c) = 0 /\ Neg(left).v.ds = left.ds
    /\ Cmp(AbsV(left).v, Zero(0)) >= 0 /\ AbsV(left).v \in {left, Neg(left).v}
    /\ Same(Times(Signum(left).v, AbsV(left).v), left) /\ Signum(left).v.ds = 0
    /\ Inc(left).k = "ok" => Same(DiffOf(Inc(left).v, left), Unit(0)) /\ Inc(left).v.ds = left.ds
    /\ Info(left)[2] + Info(left)[3] = 1

LawC07 == (HasB /\ (IsNaN(left) \/ IsNaN(right))) =>
    \A op \in {"add", "sub", "mul", "div", "divt", "rem"} : Exact2(op, left, right) = Ok(NaN)

LawC08 == HasB =>
    LET t == Cmp(left, right) IN
    /\ t = -Cmp(right, left)
    /\ Fin2 => t = BSgn(DiffOf(left, right).c)
    /\ (t = 0 /\ left # right) => left.ds # right.ds
    /\ \A c \in Special : (t <= 0 /\ Cmp(right, c) <= 0) => Cmp(left, c) <= 0
    /\ (IsNaN(left) => t = IF IsNaN(right) THEN 0 ELSE 1)

LawC09 == HasB =>
    /\ (Cmp(left, right) = 0) = (Reduced(left) = Reduced(right))
    /\ (Cmp(left, right) = 0) = (Normalized(left) = Normalized(right))
    /\ Same(Reduced(left), left)

Only(S) == CHOOSE x \in S : S = {x}
LawC11 == HasA =>
    /\ Parse(Display(left)) = { Ok(left) }
    /\ HasB => (Display(left) = Display(right)) = (left = right)
    /\ Fin1 => LET t == Display(left) n == Len(t) IN
         /\ (t[1] = Minus) = (BSgn(left.c) < 0)
         /\ IF left.ds = 0 THEN \A i \in 1..n : t[i] # Point ELSE t[n - left.ds] = Point

LawC12 == HasA => \A m \in {101, 69} :
    LET t == Scientific(left, m)
        o == Only(Parse(t))
    IN /\ o.k = "ok" /\ Same(o.v, left)
       /\ Fin1 => LET i == IF t[1] = Minus THEN 2 ELSE 1
                      e == CHOOSE j \in 1..Len(t) : t[j] = m
                  IN /\ t[i] \in 48..57 /\ (BSgn(left.c) # 0 => t[i] # 48)
                     /\ (e = i + 1 \/ (t[i + 1] = Point /\ e > i + 2 /\ t[e - 1] # 48))
                     /\ Len(t) - e >= 3 /\ t[e + 1] \in {43, 45}

LawC13 == HasA =>
    /\ Dec(Enc(left)) = left /\ Canonical(Enc(left))
    /\ HasB => (Enc(left) = Enc(right)) = (left = right)
    /\ Fin1 => LET z == Enc(left) IN
         /\ (z[6] >= 128) = (left.ds <= 63 /\ Weight(left) \in -64..63)
         /\ Len(z) % 2 = 0
         /\ Len(z) > 8 => (z[Len(z)] # 0 \/ z[Len(z) - 1] # 0)

\* both forms are read as the same; the old one is canonical only where the short header is too small
LawC27 == HasA =>
    /\ Dec(EncLong(left)) = left
    /\ Old(EncLong(left)) = (IsNaN(left) \/ IsShort(left))
    /\ ~Old(Enc(left)) /\ Canonical(EncLong(left)) = ~Old(EncLong(left))
    /\ HasB => (EncLong(left) = EncLong(right)) = (left = right)

LawC15 == Fin1 => \A ty \in DOMAIN IntBits :
    LET o == ToInt(left, ty) IN
    IF o.k = "ok"
    THEN LET v == FromInt(o.t).v e == AbsOf(DiffOf(v, left)) IN
         /\ Cmp(e, Half(Unit(0))) <= 0 /\ Cmp(v, Num(IntMin(ty), 0)) >= 0 /\ Cmp(v, Num(IntMax(ty), 0)) <= 0
         /\ Cmp(e, Half(Unit(0))) = 0 => Cmp(AbsOf(v), AbsOf(left)) > 0
    ELSE \/ Cmp(SumOf(left, Half(Unit(0))), Num(IntMax(ty), 0)) > 0
         \/ Cmp(DiffOf(left, Half(Unit(0))), Num(IntMin(ty), 0)) < 0

\* the numeric that a float stands for, exactly
FloatVal(bits, F) ==
    LET h == P2(F.m - 1)
        ex == BToInt(BQuo(bits, h)) fr == BRem(bits, h)
        m == IF ex = 0 THEN fr ELSE BAdd(fr, h)
        e == F.e0 + Max2(ex, 1) - 1
    IN IF e >= 0 THEN Num(BMul(m, P2(e)), 0) ELSE Num(BMul(m, BPow(BInt(5), -e)), -e)

LawC17 == Fin1 => \A F \in {F64, F32} :
    LET o == FloatOf(left, F) IN
    (o.k = "ok" /\ BSgn(left.c) # 0) =>
         LET w == WordsVal([o.f EXCEPT ![1] = o.f[1] % 32768])
             x == AbsOf(left)
             Off(z) == AbsOf(DiffOf(FloatVal(z, F), x))
         IN /\ (o.f[1] >= 32768) = (BSgn(left.c) < 0)
            /\ BCmp(w, InfBits(F)) < 0 =>
                 /\ LET up == Off(BAdd(w, BOne)) IN
                      BCmp(BAdd(w, BOne), InfBits(F)) < 0 => Cmp(Off(w), up) < 0 \/ (Cmp(Off(w), up) = 0 /\ ~IsOdd(w))
                 /\ BSgn(w) > 0 => LET dn == Off(BSub(w, BOne)) IN Cmp(Off(w), dn) < 0 \/ (Cmp(Off(w), dn) = 0 /\ ~IsOdd(w))

\* what has no more digits than the float can tell apart comes back
LawC16 == Fin1 => \A F \in {F64, F32} :
    LET o == FloatOf(left, F) r == Reduced(left) IN
    (o.k = "ok" /\ BDigits(r.c) - BTrailingZeroes(r.c) <= F.dig /\ BCmp(WordsVal([o.f EXCEPT ![1] = o.f[1] % 32768]), InfBits(F)) < 0
                /\ FExp(o.f, F) > 0)
    => LET z == FromFloat(o.f, F) IN z.k = "ok" /\ z.v = r

LawC18 == Fin1 => \A p \in {1, 2, 3, 4, 5, 9, 16, 1000} : \A s \in {0, 1, 2, 4, 5, 16, 1000} : s <= p =>
    LET t == ApplyTypmod(left, p, s) IN
    /\ t[2] = left \/ t[2].ds = s
    /\ t[1] = 0 => /\ Cmp(AbsOf(t[2]), Num(BPow10(p), s)) < 0
                   /\ Cmp(AbsOf(DiffOf(t[2], left)), Half(Unit(s))) <= 0
                   /\ ApplyTypmod(t[2], p, s) = t
    /\ t[1] = 1 => Cmp(AbsOf(t[2]), Num(BPow10(p), s)) >= 0

\* one result or two neighbours are allowed for a root, and the exact one when there is one
LawC19 == (Fin1 /\ BSgn(left.c) >= 0 /\ AbsI(DecWeight(left)) < 400) =>
    LET n == SqrtScale(left)
        e == 2 * n - left.ds
        c == BSqrt(IF e >= 0 THEN BScale(left.c, e) ELSE BQuo(left.c, BPow10(-e)))
        ok == { d \in {-2, -1, 0, 1, 2} : SqrtNear(left, BAdd(c, BInt(d)), n) }
    IN /\ ok \subseteq {0, 1} /\ ok # {}
       /\ LET s == Times(left, left) IN s.ds <= 1000 => SqrtNear(s, BAbs(AtScale(left, SqrtScale(s))), SqrtScale(s))

\* ln ab = ln a + ln b, exp ln a = a, and exactly one or two results are allowed
Small(v) == IsNum(v) /\ BSgn(v.c) > 0 /\ AbsI(DecWeight(v)) < 300 /\ v.ds < 300
Tiny(x, n) == BCmp(BAbs(x), BInt(n)) <= 0
LawC20 == (Small(left) /\ Small(right)) =>
    LET P == 40 p == Times(left, right)
        la == LnFix(left.c, left.ds, P) lb == LnFix(right.c, right.ds, P)
    IN /\ Tiny(BSub(LnFix(p.c, p.ds, P), BAdd(la, lb)), 10)
       /\ LET n == 20 c == BQuo(LnFix(left.c, left.ds, n + 1), Ten)
          IN { d \in {-2, -1, 0, 1, 2} : LnNear(left, BAdd(c, BInt(d)), n) } \in {{0}, {1}, {-1}, {0, 1}, {0, -1}}
       /\ (Cmp(left, right) < 0) => BCmp(la, lb) <= 0
LawC21 == (Fin1 /\ AbsI(DecWeight(left)) < 3 /\ Fin2 /\ AbsI(DecWeight(right)) < 3) =>
    LET P == 60 s == SumOf(left, right)
        ea == ExpFix(Fix(left, P), P, 30) eb == ExpFix(Fix(right, P), P, 30) es == ExpFix(Fix(s, P), P, 30)
    IN \* e^left e^right = e^(left+right), to the digits there are
       LET m == BMul(ea, eb) t == BScale(es, 30)
           tol == BMul(BInt(20), BAdd(BAdd(ea, eb), BPow10(30)))
       IN BCmp(BAbs(BSub(m, t)), BAdd(tol, BQuo(t, BPow10(25)))) <= 0
LawC22 == (Small(left) /\ BDigits(left.c) < 40) =>
    \* the exact power and the one through logarithms agree
    \A i \in {-3, -1, 1, 2, 5} :
        LET e == Num(BInt(i), 0) n == 20 S == n + Guard
            x == PowFix(left, e, n)
            P == Max2(S + AbsI(i) * (AbsI(DecWeight(left)) + 1) + 2, 0) + 8
            y == ExpFix(LnTimes(left, e, P), P, S)
        IN Tiny(BSub(x, y), 2)
=============================================================================
