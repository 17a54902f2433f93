------------------------------ MODULE Numeric ------------------------------
(***************************************************************************)
(* What a numeric is, how it is stored, and what each operation yields.    *)
(*                                                                         *)
(* A numeric is NaN or a decimal number c * 10^-ds, c an integer of any    *)
(* size and ds its scale.  Every exact operation is a function from        *)
(* numerics to an outcome: a value, None, an error or a panic.  The        *)
(* outcomes of roots, logarithms and powers are given in Real.tla as       *)
(* relations, because their result is a rounded real number.               *)
(***************************************************************************)
EXTENDS BigInt, Integers, Sequences, FiniteSets

CONSTANT BigEndian       \* byte order of the length word (cargo feature big-endian-varlen)

MaxScale  == 16383       \* largest scale of the format
MaxWeight == 32767       \* largest base-10000 weight: 131072 digits before the point
MaxDisplayScale == 1000
MinSigDigits == 16

NaN == [k |-> "nan"]
Num(c, ds) == [k |-> "num", c |-> c, ds |-> ds]
Bad == [k |-> "bad"]     \* bytes that are no numeric
Zero(ds) == Num(BZero, ds)
IsNaN(v) == v.k = "nan"
IsNum(v) == v.k = "num"

Max2(a, b) == IF a >= b THEN a ELSE b
Min2(a, b) == IF a <= b THEN a ELSE b
Clamp(x, lo, hi) == Max2(lo, Min2(x, hi))
AbsI(i) == IF i < 0 THEN -i ELSE i
Ten == BInt(10)

\* a * 10^n, truncated towards zero when n is negative
Shift10(a, n) == IF n >= 0 THEN BScale(a, n) ELSE BQuo(a, BPow10(-n))

----------------------------------------------------------------------------
(* Outcomes *)

Ok(v)     == [k |-> "ok", v |-> v]
None      == [k |-> "none"]
Err(m)    == [k |-> "err", m |-> m]
Panic(m)  == [k |-> "panic", m |-> m]

MOverflow == "value overflows numeric format"
MDivZero  == "attempt to divide by zero"
MEmpty    == "cannot parse numeric from empty string"
MInvalid  == "invalid numeric literal"
MConvert  == "cannot convert to numeric"
MRange    == "value is out of range"
MSqrtNeg  == "cannot take square root of a negative number"
MLnZero   == "cannot take logarithm of zero"
MLnNeg    == "cannot take logarithm of a negative number"
MPowZero  == "zero raised to a negative power is undefined"
MPowNeg   == "a negative number raised to a non-integer power yields a complex result"

----------------------------------------------------------------------------
(* Shape: base-10000 groups, weight *)

\* groups after the point
FracGroups(ds) == (ds + 3) \div 4

\* all groups, most significant first, the last one the last fractional group
Groups(v) == BScale(v.c, 4 * FracGroups(v.ds) - v.ds)

\* power of 10000 of the first group; 0 for zero
Weight(v) == IF BSgn(v.c) = 0 THEN 0 ELSE (BDigits(v.c) - 1 - v.ds) \div 4

FirstGroup(v) == IF BSgn(v.c) = 0 THEN 0 ELSE Groups(v)[2]

\* power of ten of the first digit
DecWeight(v) == BDigits(v.c) - 1 - v.ds

Fits(v) == v.ds <= MaxScale /\ Weight(v) <= MaxWeight
FitOr(v, o) == IF Fits(v) THEN Ok(v) ELSE o

----------------------------------------------------------------------------
(* The stored form *)

LenWord(n) ==
    IF BigEndian THEN << (n \div 16777216) % 64, (n \div 65536) % 256, (n \div 256) % 256, n % 256 >>
    ELSE LET w == n * 4 IN << w % 256, (w \div 256) % 256, (w \div 65536) % 256, (w \div 16777216) % 256 >>

U16(x) == << x % 256, x \div 256 >>

IsShort(v) == v.ds <= 63 /\ Weight(v) \in -64..63

Enc(v) ==
    IF IsNaN(v) THEN LenWord(6) \o U16(49152)
    ELSE LET L == Groups(v)
             n == BKept(L)
             w == Weight(v)
             neg == BSgn(v.c) < 0
             h == IF IsShort(v)
                  THEN U16(32768 + (IF neg THEN 8192 ELSE 0) + v.ds * 128 + (IF w < 0 THEN 128 + w ELSE w))
                  ELSE U16((IF neg THEN 16384 ELSE 0) + v.ds) \o U16(IF w < 0 THEN 65536 + w ELSE w)
         IN LenWord(4 + Len(h) + 2 * n) \o h \o BPairs(L, n)

\* the long header is valid for every value and for NaN (PostgreSQL before 9.1 wrote no other)
EncLong(v) ==
    IF IsNaN(v) THEN LenWord(8) \o U16(49152) \o U16(0)
    ELSE LET L == Groups(v)
             n == BKept(L)
             w == Weight(v)
         IN LenWord(8 + 2 * n) \o U16((IF BSgn(v.c) < 0 THEN 16384 ELSE 0) + v.ds)
            \o U16(IF w < 0 THEN 65536 + w ELSE w) \o BPairs(L, n)

\* the numeric that bytes stand for (any layout the format allows, not only the canonical one)
Dec(b) ==
    IF Len(b) < 6 THEN Bad
    ELSE LET h == b[5] + 256 * b[6]
             top == h \div 16384
             long == top < 2
             hl == IF long THEN 8 ELSE 6
         IN IF SubSeq(b, 1, 4) # LenWord(Len(b)) THEN Bad
            ELSE IF top = 3 THEN IF h = 49152 /\ (Len(b) = 6 \/ (Len(b) = 8 /\ b[7] = 0 /\ b[8] = 0)) THEN NaN ELSE Bad
            ELSE IF Len(b) < hl \/ (Len(b) - hl) % 2 # 0 THEN Bad
            ELSE LET n == (Len(b) - hl) \div 2
                     ds == IF long THEN h % 16384 ELSE (h \div 128) % 64
                     neg == IF long THEN top = 1 ELSE (h \div 8192) % 2 = 1
                     w16 == IF long THEN b[7] + 256 * b[8] ELSE 0
                     w == IF long THEN (IF w16 >= 32768 THEN w16 - 65536 ELSE w16)
                          ELSE (h % 64) - (IF (h \div 64) % 2 = 1 THEN 64 ELSE 0)
                     m == BUnpairs(IF neg THEN -1 ELSE 1, b, hl + 1, n)
                     e == 4 * (w - n + 1) + ds            \* c = m * 10^e
                 IN IF m = <<>> THEN Bad
                    ELSE IF n = 0 \/ e >= 0 THEN Num(BScale(m, Max2(e, 0)), ds)
                    ELSE IF BSgn(m) = 0 THEN Zero(ds)
                    ELSE IF BTrailingZeroes(m) >= -e THEN Num(BQuo(m, BPow10(-e)), ds)
                    ELSE Bad

----------------------------------------------------------------------------
(* Rounding *)

\* n/d rounded to the nearest integer, ties away from zero (d > 0)
RoundDiv(n, d) ==
    LET q == BQuo(BAdd(BAdd(BAbs(n), BAbs(n)), d), BAdd(d, d))
    IN IF BSgn(n) < 0 THEN BNeg(q) ELSE q

\* ties to even (n >= 0)
RoundDivEven(n, d) ==
    LET q == BQuo(n, d)
        r == BRem(n, d)
        t == BCmp(BAdd(r, r), d)
    IN IF t > 0 \/ (t = 0 /\ BSgn(BRem(q, BInt(2))) # 0) THEN BAdd(q, BOne) ELSE q

\* c * 10^-ds as an integer multiple of 10^-n, rounded or truncated
AtScale(v, n) == IF n >= v.ds THEN BScale(v.c, n - v.ds) ELSE RoundDiv(v.c, BPow10(v.ds - n))
TruncAt(v, n) == IF n >= v.ds THEN BScale(v.c, n - v.ds) ELSE BQuo(v.c, BPow10(v.ds - n))

RoundTo(v, n) == IF n >= 0 THEN Num(AtScale(v, n), n) ELSE Num(BScale(AtScale(v, n), -n), 0)
TruncTo(v, n) == IF n >= 0 THEN Num(TruncAt(v, n), n) ELSE Num(BScale(TruncAt(v, n), -n), 0)

Round(v, n) == IF IsNaN(v) THEN Ok(NaN)
               ELSE FitOr(RoundTo(v, Clamp(n, -MaxDisplayScale, MaxDisplayScale)), Panic(MOverflow))
Trunc(v, n) == IF IsNaN(v) THEN Ok(NaN)
               ELSE FitOr(TruncTo(v, Clamp(n, -MaxDisplayScale, MaxDisplayScale)), Panic(MOverflow))

IsIntegral(v) == v.ds = 0 \/ BSgn(v.c) = 0 \/ BTrailingZeroes(v.c) >= v.ds

Ceil(v) == IF IsNaN(v) THEN Ok(NaN)
           ELSE LET t == TruncAt(v, 0)
                IN FitOr(Num(IF BSgn(v.c) > 0 /\ ~IsIntegral(v) THEN BAdd(t, BOne) ELSE t, 0), Panic(MOverflow))
Floor(v) == IF IsNaN(v) THEN Ok(NaN)
            ELSE LET t == TruncAt(v, 0)
                 IN FitOr(Num(IF BSgn(v.c) < 0 /\ ~IsIntegral(v) THEN BSub(t, BOne) ELSE t, 0), Panic(MOverflow))

----------------------------------------------------------------------------
(* Exact arithmetic *)

Common(a, b) == Max2(a.ds, b.ds)
SumOf(a, b)  == LET s == Common(a, b) IN Num(BAdd(BScale(a.c, s - a.ds), BScale(b.c, s - b.ds)), s)
DiffOf(a, b) == LET s == Common(a, b) IN Num(BSub(BScale(a.c, s - a.ds), BScale(b.c, s - b.ds)), s)

Add(a, b) == IF IsNaN(a) \/ IsNaN(b) THEN Ok(NaN) ELSE FitOr(SumOf(a, b), None)
Sub(a, b) == IF IsNaN(a) \/ IsNaN(b) THEN Ok(NaN) ELSE FitOr(DiffOf(a, b), None)
Mul(a, b) == IF IsNaN(a) \/ IsNaN(b) THEN Ok(NaN) ELSE FitOr(Num(BMul(a.c, b.c), a.ds + b.ds), None)

\* at least 16 significant digits, no less than either scale, at most 1000
DivScale(a, b) ==
    LET q == Weight(a) - Weight(b) - (IF FirstGroup(a) <= FirstGroup(b) THEN 1 ELSE 0)
    IN Min2(Max2(Max2(MinSigDigits - 4 * q, 0), Common(a, b)), MaxDisplayScale)

\* a/b as a multiple of 10^-n: numerator and (positive) denominator
QuoParts(a, b, n) ==
    LET e == n + b.ds - a.ds
        num == IF e >= 0 THEN BScale(a.c, e) ELSE a.c
        den == IF e >= 0 THEN b.c ELSE BScale(b.c, -e)
    IN IF BSgn(den) < 0 THEN <<BNeg(num), BNeg(den)>> ELSE <<num, den>>

Div(a, b) ==
    IF IsNaN(a) \/ IsNaN(b) THEN Ok(NaN)
    ELSE IF BSgn(b.c) = 0 THEN None
    ELSE LET n == DivScale(a, b)
             p == QuoParts(a, b, n)
         IN FitOr(Num(RoundDiv(p[1], p[2]), n), None)

TruncQuo(a, b) == LET p == QuoParts(a, b, 0) IN BQuo(p[1], p[2])

DivT(a, b) ==
    IF IsNaN(a) \/ IsNaN(b) THEN Ok(NaN)
    ELSE IF BSgn(b.c) = 0 THEN None
    ELSE FitOr(Num(TruncQuo(a, b), 0), None)

Rem(a, b) ==
    IF IsNaN(a) \/ IsNaN(b) THEN Ok(NaN)
    ELSE IF BSgn(b.c) = 0 THEN None
    ELSE LET s == Common(a, b)
         IN FitOr(Num(BRem(BScale(a.c, s - a.ds), BScale(b.c, s - b.ds)), s), None)

Neg(a)    == IF IsNaN(a) THEN Ok(NaN) ELSE Ok(Num(BNeg(a.c), a.ds))
AbsV(a)   == IF IsNaN(a) THEN Ok(NaN) ELSE Ok(Num(BAbs(a.c), a.ds))
Signum(a) == IF IsNaN(a) THEN Ok(NaN) ELSE Ok(Num(BInt(BSgn(a.c)), 0))
Inc(a)    == IF IsNaN(a) THEN Ok(NaN) ELSE FitOr(Num(BAdd(a.c, BPow10(a.ds)), a.ds), Panic(MOverflow))

\* sign and scale as the observers report them: [is_nan, is_negative, is_positive, scale or -1]
B01(p) == IF p THEN 1 ELSE 0
Info(a) == IF IsNaN(a) THEN <<1, 0, 0, -1>>
           ELSE <<0, B01(BSgn(a.c) < 0), B01(BSgn(a.c) >= 0), a.ds>>

----------------------------------------------------------------------------
(* Order *)

\* -1, 0, 1; NaN equals itself and is above everything
Cmp(a, b) ==
    IF IsNaN(a) THEN IF IsNaN(b) THEN 0 ELSE 1
    ELSE IF IsNaN(b) THEN -1
    ELSE IF BSgn(a.c) # BSgn(b.c) THEN (IF BSgn(a.c) < BSgn(b.c) THEN -1 ELSE 1)
    ELSE LET s == Common(a, b) IN BCmp(BScale(a.c, s - a.ds), BScale(b.c, s - b.ds))

\* partial_cmp (0 less, 1 equal, 2 greater), then the bits of < <= > >= == !=
CmpCode(t) == (t + 1) + (IF t < 0 THEN 4 ELSE 0) + (IF t <= 0 THEN 8 ELSE 0) + (IF t > 0 THEN 16 ELSE 0)
              + (IF t >= 0 THEN 32 ELSE 0) + (IF t = 0 THEN 64 ELSE 0) + (IF t # 0 THEN 128 ELSE 0)

\* the value with every trailing fractional zero removed: equal for equal values only
Reduced(v) ==
    IF IsNaN(v) THEN v
    ELSE IF BSgn(v.c) = 0 THEN Zero(0)
    ELSE LET t == Min2(v.ds, BTrailingZeroes(v.c)) IN Num(BQuo(v.c, BPow10(t)), v.ds - t)

----------------------------------------------------------------------------
(* Text *)

TNaN == <<78, 97, 78>>
Minus == 45
Point == 46
DigitText(D) == SShift(D, 48)
Zeroes(n) == [ i \in 1..n |-> 0 ]

Display(v) ==
    IF IsNaN(v) THEN TNaN
    ELSE LET d0 == BToDec(v.c)
             d  == IF Len(d0) <= v.ds THEN Zeroes(v.ds + 1 - Len(d0)) \o d0 ELSE d0
             n  == Len(d) - v.ds
             t  == DigitText(d)
             s  == IF BSgn(v.c) < 0 THEN <<Minus>> ELSE <<>>
         IN IF v.ds = 0 THEN s \o t ELSE s \o SubSeq(t, 1, n) \o <<Point>> \o SubSeq(t, n + 1, Len(t))

Normalized(v) == Display(Reduced(v))

NatText(n) == IF n < 10 THEN <<48, 48 + n>> ELSE DigitText(BToDec(BInt(n)))   \* at least two digits

\* d.ddd e [+-] dd with as many digits as the value needs; E is the exponent mark
Scientific(v, mark) ==
    IF IsNaN(v) THEN TNaN
    ELSE LET z == BTrailingZeroes(v.c)
             d == IF BSgn(v.c) = 0 THEN <<0>> ELSE SubSeq(BToDec(v.c), 1, BDigits(v.c) - z)
             e == IF BSgn(v.c) = 0 THEN 0 ELSE DecWeight(v)
             t == DigitText(d)
         IN (IF BSgn(v.c) < 0 THEN <<Minus>> ELSE <<>>) \o <<t[1]>>
            \o (IF Len(t) > 1 THEN <<Point>> \o SubSeq(t, 2, Len(t)) ELSE <<>>)
            \o <<mark>> \o <<IF e < 0 THEN 45 ELSE 43>> \o NatText(AbsI(e))

----------------------------------------------------------------------------
(* Parsing *)

Blank == {32, 9, 10, 12, 13}
Digit == 48..57
AllBlank(s, i) == SFirstNot(s, i, Blank) > Len(s)
At(s, i) == IF i <= Len(s) THEN s[i] ELSE -1
Lower(c) == IF c \in 65..90 THEN c + 32 ELSE c
DigitsOf(s, i, j) == SShift(SubSeq(s, i, j), -48)          \* s[i..j]

\* exponent part that starts (after the mark) at i: where it ends and its value
ExpPart(s, i) ==
    LET sg == At(s, i) \in {43, 45}
        j == IF sg THEN i + 1 ELSE i
        e == SFirstNot(s, j, Digit)
        z == SFirstNot(s, j, {48})
        n == e - z                                  \* significant digits
        m == BFromDec(1, DigitsOf(s, z, e - 1))
        big == n > 10 \/ (n > 0 /\ BCmp(m, BInt(1073741823)) >= 0)
    IN IF e = j THEN [bad |-> TRUE]
       ELSE [bad |-> FALSE, next |-> e, over |-> big,
             exp |-> IF big \/ n <= 0 THEN 0 ELSE IF At(s, i) = 45 THEN -BToInt(m) ELSE BToInt(m)]

\* the outcomes allowed for a text: where it is malformed and out of range at once, either error will do
Parse(s) ==
    LET i0 == SFirstNot(s, 1, Blank) IN
    IF i0 > Len(s) THEN { Err(MEmpty) }
    ELSE IF i0 + 2 <= Len(s) /\ Lower(s[i0]) = 110 /\ Lower(s[i0+1]) = 97 /\ Lower(s[i0+2]) = 110
         THEN IF AllBlank(s, i0 + 3) THEN { Ok(NaN) } ELSE { Err(MInvalid) }
    ELSE
    LET neg == s[i0] = 45
        i1 == IF s[i0] \in {43, 45} THEN i0 + 1 ELSE i0
        i2 == SFirstNot(s, i1, Digit)                \* integral: i1 .. i2-1
        pt == At(s, i2) = Point
        i3 == IF pt THEN SFirstNot(s, i2 + 1, Digit) ELSE i2
        nf == IF pt THEN i3 - i2 - 1 ELSE 0
        ni == i2 - i1
        hasE == At(s, i3) \in {101, 69}
        ex == IF hasE THEN ExpPart(s, i3 + 1) ELSE [bad |-> FALSE, next |-> i3, over |-> FALSE, exp |-> 0]
        D  == DigitsOf(s, i1, i2 - 1) \o (IF pt THEN DigitsOf(s, i2 + 1, i3 - 1) ELSE <<>>)
        m  == BFromDec(1, D)
        ds == Max2(0, nf - ex.exp)
        nd == BDigits(m)
        dw == nd - 1 - nf + ex.exp                  \* power of ten of the first non-zero digit
        over == ex.over \/ ds > MaxScale \/ (BSgn(m) # 0 /\ dw >= 131072)
    IN IF ni + nf = 0 THEN { Err(MInvalid) }
       ELSE IF ex.bad THEN { Err(MInvalid) }
       ELSE IF ~AllBlank(s, ex.next) THEN { Err(MInvalid) } \cup (IF ex.over THEN { Err(MOverflow) } ELSE {})
       ELSE IF over THEN { Err(MOverflow) }
       ELSE LET c == IF BSgn(m) = 0 THEN BZero ELSE Shift10(m, ds - nf + ex.exp)
            IN { Ok(Num(IF neg THEN BNeg(c) ELSE c, ds)) }

----------------------------------------------------------------------------
(* Integers *)

P2(n) == BPow(BInt(2), n)
IntBits == [i8 |-> 8, i16 |-> 16, i32 |-> 32, i64 |-> 64, i128 |-> 128, isize |-> 64,
            u8 |-> 8, u16 |-> 16, u32 |-> 32, u64 |-> 64, u128 |-> 128, usize |-> 64]
Signed == {"i8", "i16", "i32", "i64", "i128", "isize"}
IntMin(ty) == IF ty \in Signed THEN BNeg(P2(IntBits[ty] - 1)) ELSE BZero
IntMax(ty) == BSub(P2(IntBits[ty] - (IF ty \in Signed THEN 1 ELSE 0)), BOne)

\* an integer written in decimal (no blanks, optional minus)
IntOfText(s) == IF At(s, 1) = Minus THEN BFromDec(-1, DigitsOf(s, 2, Len(s))) ELSE BFromDec(1, DigitsOf(s, 1, Len(s)))

FromInt(s) == Ok(Num(IntOfText(s), 0))

ToInt(v, ty) ==
    IF IsNaN(v) THEN Err(MConvert)
    ELSE LET n == AtScale(v, 0)
         IN IF BCmp(n, IntMin(ty)) < 0 \/ BCmp(n, IntMax(ty)) > 0 THEN Err(MRange)
            ELSE [k |-> "ok", t |-> Display(Num(n, 0))]

\* n! for a machine integer given as text
Factorial(s) ==
    LET n == IntOfText(s)
    IN IF BCmp(n, BOne) <= 0 THEN Ok(Num(BOne, 0))
       ELSE IF BCmp(n, BInt(32177)) > 0 THEN None
       ELSE Ok(Num(BRange(2, BToInt(n)), 0))

----------------------------------------------------------------------------
(* Floating point: words of 16 bits, most significant first *)

WordsVal(f) == BAdd(BMul(BInt(f[1]), P2(16 * (Len(f) - 1))),
                    IF Len(f) = 2 THEN BInt(f[2])
                    ELSE BAdd(BAdd(BMul(BInt(f[2]), P2(32)), BMul(BInt(f[3]), P2(16))), BInt(f[4])))
WordsOf(b, n) == [ i \in 1..n |-> BToInt(BRem(BQuo(b, P2(16 * (n - i))), BInt(65536))) ]

\* format: mantissa bits (with the hidden one), exponent of the least subnormal, exponent field mask, sign weight
F64 == [m |-> 53, e0 |-> -1074, ex |-> 2047, w |-> 4, dig |-> 15]
F32 == [m |-> 24, e0 |-> -149,  ex |-> 255,  w |-> 2, dig |-> 6]

FSign(f) == f[1] \div 32768
FExp(f, F) == LET x == f[1] % 32768 IN x \div (IF F.w = 4 THEN 16 ELSE 128)
FFrac(f, F) == LET g == [ f EXCEPT ![1] = f[1] % (IF F.w = 4 THEN 16 ELSE 128) ] IN WordsVal(g)

\* decimal with F.dig significant digits nearest to the float (ties to even), no trailing zeroes
FromFloat(f, F) ==
    LET ex == FExp(f, F)
        fr == FFrac(f, F)
        m == IF ex = 0 THEN fr ELSE BAdd(fr, P2(F.m - 1))
        e == F.e0 + Max2(ex, 1) - 1
        N == IF e >= 0 THEN BMul(m, P2(e)) ELSE m
        D == IF e >= 0 THEN BOne ELSE P2(-e)
        x0 == BDigits(N) - BDigits(D)                           \* 10^(x0-1) < N/D < 10^(x0+1)
        x1 == IF BCmp(IF x0 >= 0 THEN N ELSE BScale(N, -x0), IF x0 >= 0 THEN BScale(D, x0) ELSE D) >= 0 THEN x0 ELSE x0 - 1
        sh == F.dig - 1 - x1
        q0 == RoundDivEven(IF sh >= 0 THEN BScale(N, sh) ELSE N, IF sh >= 0 THEN D ELSE BScale(D, -sh))
        z  == BTrailingZeroes(q0)
        k  == z - sh                                            \* value = (q0/10^z) * 10^k
        c0 == Shift10(q0, -z)
        c  == IF k >= 0 THEN BScale(c0, k) ELSE c0
    IN IF ex = F.ex THEN IF BSgn(fr) # 0 THEN Ok(NaN) ELSE Err(MConvert)
       ELSE IF BSgn(m) = 0 THEN Ok(Zero(0))
       ELSE Ok(Num(IF FSign(f) = 1 THEN BNeg(c) ELSE c, Max2(0, -k)))

\* bits of the nearest float of a magnitude N/D > 0 (ties to even; overflow gives infinity)
NearestBits(N, D, F) ==
    LET b0 == BBits(N) - BBits(D)                               \* 2^(b0-1) < N/D < 2^(b0+1)
        ge == BCmp(IF b0 >= 0 THEN N ELSE BMul(N, P2(-b0)), IF b0 >= 0 THEN BMul(D, P2(b0)) ELSE D) >= 0
        E  == IF ge THEN b0 ELSE b0 - 1
        u  == Max2(E - F.m + 1, F.e0)                           \* exponent of the unit
        q  == IF E < F.e0 - 2 THEN BZero
              ELSE RoundDivEven(IF u >= 0 THEN N ELSE BMul(N, P2(-u)), IF u >= 0 THEN BMul(D, P2(u)) ELSE D)
        inf == BMul(BInt(F.ex), P2(F.m - 1))
        r  == BAdd(q, BMul(BInt(u - F.e0), P2(F.m - 1)))
    IN IF E > F.ex THEN inf ELSE IF BCmp(r, inf) >= 0 THEN inf ELSE r

InfBits(F) == BMul(BInt(F.ex), P2(F.m - 1))

\* the float words allowed for v, or the error
FloatOf(v, F) ==
    LET mag(G) == NearestBits(BAbs(v.c), BPow10(v.ds), G)
        b == mag(F)
        s == IF BSgn(v.c) < 0 THEN P2(16 * F.w - 1) ELSE BZero
        small == F.w = 2
        b64 == mag(F64)
    IN IF BSgn(v.c) = 0 THEN [k |-> "ok", f |-> WordsOf(BZero, F.w)]
       ELSE IF small /\ BCmp(b, InfBits(F32)) >= 0 /\ BCmp(b64, InfBits(F64)) < 0 THEN Err(MRange)
       ELSE IF small /\ BSgn(b) = 0 /\ BSgn(b64) # 0 THEN Err(MRange)
       ELSE [k |-> "ok", f |-> WordsOf(BAdd(b, s), F.w)]

FloatNaN(f, F) == FExp(f, F) = F.ex /\ BSgn(FFrac(f, F)) # 0

----------------------------------------------------------------------------
(* Type modifiers *)

TypmodOk(p, s) == p \in 1..1000 /\ s \in 0..p
TypmodValue(p, s) == p * 65536 + s + 4
TypmodText(p, s) == <<40>> \o DigitText(BToDec(BInt(p))) \o <<44, 32>>
                    \o (IF s = 0 THEN <<48>> ELSE DigitText(BToDec(BInt(s)))) \o <<41>>

\* <<overflow, value afterwards>>; p < 0 is the default modifier
ApplyTypmod(v, p, s) ==
    IF p < 0 \/ IsNaN(v) THEN <<0, v>>
    ELSE LET r == RoundTo(v, s)
         IN IF ~Fits(r) THEN <<1, v>>
            ELSE <<B01(BSgn(r.c) # 0 /\ BDigits(r.c) > p), r>>
=============================================================================
