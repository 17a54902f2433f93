-------------------------------- MODULE Real --------------------------------
(***************************************************************************)
(* Roots, exponentials, logarithms and powers.                             *)
(*                                                                         *)
(* These operations round a real number to a scale.  The specification     *)
(* gives the scale and how far the result may be from the real number, in  *)
(* hundredths of a unit of the last digit (50 is correct rounding).  Real  *)
(* numbers are fixed-point integers: X stands for X * 10^-P, computed with *)
(* enough guard digits for the comparison.                                 *)
(***************************************************************************)
EXTENDS Numeric

Guard == 6           \* digits beyond the last one used in comparisons

----------------------------------------------------------------------------
(* Fixed-point functions *)

\* z^n/n + z^(n+2)/(n+2) + ... for n odd; t = z^n, zz = z^2, all times 10^P
RECURSIVE AtanhSum(_, _, _, _, _)
AtanhSum(t, zz, n, U, acc) ==
    LET a == BQuo(t, BInt(n))
    IN IF BSgn(a) = 0 THEN acc
       ELSE AtanhSum(BQuo(BMul(t, zz), U), zz, n + 2, U, BAdd(acc, a))
Atanh(z, P) == LET U == BPow10(P) IN AtanhSum(z, BQuo(BMul(z, z), U), 1, U, BZero)

\* ln 2 = 18 atanh(1/26) - 2 atanh(1/4801) + 8 atanh(1/8749)
Ln2At(P) ==
    LET Q == P + 10
        A(n) == Atanh(BQuo(BPow10(Q), BInt(n)), Q)
        s == BAdd(BSub(BMul(BInt(18), A(26)), BMul(BInt(2), A(4801))), BMul(BInt(8), A(8749)))
    IN BQuo(s, BPow10(10))

LnDigits == 1200
Ln2Table == Ln2At(LnDigits)
Ln2(P) == IF P <= LnDigits THEN BQuo(Ln2Table, BPow10(LnDigits - P)) ELSE Ln2At(P)

\* ln of the positive number c * 10^-ds
LnFix(c, ds, P) ==
    LET Q == P + 12
        U == BPow10(Q)
        D == BPow10(ds)
        j0 == BBits(c) - BBits(D)
        j == IF j0 > 0 THEN j0 ELSE IF j0 < -1 THEN j0 ELSE 0      \* near 1 the series takes x as it is
        m == IF j >= 0 THEN BQuo(BMul(c, U), BMul(D, P2(j))) ELSE BQuo(BMul(BMul(c, P2(-j)), U), D)
        z == BQuo(BMul(BSub(m, U), U), BAdd(m, U))
        s == BMul(BInt(2), Atanh(z, Q))
    IN BQuo(BAdd(s, IF j = 0 THEN BZero ELSE BMul(BInt(j), Ln2(Q))), BPow10(12))

RECURSIVE TaylorSum(_, _, _, _, _)
TaylorSum(t, r, n, U, acc) ==
    IF BSgn(t) = 0 THEN acc
    ELSE TaylorSum(BQuo(BQuo(BMul(t, r), U), BInt(n)), r, n + 1, U, BAdd(acc, t))

RECURSIVE SquareN(_, _, _)
SquareN(x, n, U) == IF n = 0 THEN x ELSE SquareN(BQuo(BMul(x, x), U), n - 1, U)

\* e^(Y * 10^-P) as an integer multiple of 10^-S; P decides the relative precision
ExpFix(Y, P, S) ==
    LET Q == P + 14
        U == BPow10(Q)
        Z == BScale(Y, 14)
        L == Ln2(Q)
        k == BToInt(RoundDiv(Z, L))
        r == BQuo(BSub(Z, BMul(BInt(k), L)), P2(16))
        t == SquareN(TaylorSum(U, r, 1, U, BZero), 16, U)
        e == S - Q
    IN IF k >= 0 THEN Shift10(BMul(t, P2(k)), e)
       ELSE IF e >= 0 THEN BQuo(BScale(t, e), P2(-k)) ELSE BQuo(t, BMul(P2(-k), BPow10(-e)))

\* log10(e) * 10^30
Log10E == BFromDec(1, <<4,3,4,2,9,4,4,8,1,9,0,3,2,5,1,8,2,7,6,5,1,1,2,8,9,1,8,9,1,7>>)

\* |E - c| <= h/100 where E is given as E * 10^Guard
Near(E, c, h) ==
    BCmp(BMul(BAbs(BSub(E, BScale(c, Guard))), BInt(100)), BAdd(BScale(BInt(h), Guard), BInt(1000))) <= 0

\* truncation towards zero of X * 10^-P for X known up to err
TruncRange(X, err, P) ==
    LET lo == BToInt(Shift10(BSub(X, err), -P)) hi == BToInt(Shift10(BAdd(X, err), -P)) IN lo..hi

ScaleFor(w, ds) == Clamp(MinSigDigits - w, ds, MaxDisplayScale)
LimitScale(n, ds) == Min2(Max2(Max2(n, ds), 0), MaxDisplayScale)

Positive(v) == IsNum(v) /\ BSgn(v.c) > 0
IsOne(v) == IsNum(v) /\ BCmp(v.c, BPow10(v.ds)) = 0

----------------------------------------------------------------------------
(* Square root *)

\* floor((w+1)/2*4 - 1) digits before the point
SqrtScale(v) == LimitScale(MinSigDigits - (2 * (Weight(v) + 1) - 1), v.ds)

\* c * 10^-n is within 0.51 units of the root
SqrtNear(v, c, n) ==
    LET e  == 2 * n - v.ds
        X  == BMul(IF e >= 0 THEN BScale(v.c, e) ELSE v.c, BInt(10000))
        Sq(y) == LET z == BMul(y, y) IN IF e >= 0 THEN z ELSE BScale(z, -e)
        lo == BSub(BMul(c, BInt(100)), BInt(51))
        hi == BAdd(BMul(c, BInt(100)), BInt(51))
    IN /\ BSgn(c) >= 0
       /\ BSgn(lo) <= 0 \/ BCmp(Sq(lo), X) <= 0
       /\ BCmp(Sq(hi), X) >= 0

----------------------------------------------------------------------------
(* Logarithms *)

\* the decimal weights of |ln v| an estimate from the leading two groups may report
\* (truncated towards zero, 0 for v = 1)
LnWeights(v) ==
    LET one == BPow10(v.ds)
        d == BSub(v.c, one)
        near == BCmp(BMul(v.c, BInt(10)), BMul(one, BInt(9))) >= 0 /\ BCmp(BMul(v.c, BInt(10)), BMul(one, BInt(11))) <= 0
        x == Num(d, v.ds)
        g == FirstGroup(x)
        P == 12
        L == BAbs(LnFix(v.c, v.ds, P))
        W(y) == LET n == BDigits(y) - 1 - P                \* floor of log10
                IN IF n < 0 /\ BTrailingZeroes(y) # BDigits(y) - 1 THEN n + 1 ELSE n
        err == BPow10(P - 3)
    IN IF near THEN IF BSgn(d) = 0 THEN {0}
                    ELSE { 4 * Weight(x) + (IF g >= 1000 THEN 3 ELSE IF g >= 100 THEN 2 ELSE IF g >= 10 THEN 1 ELSE 0) }
       ELSE W(BSub(L, err))..W(BAdd(L, err))

LnScales(v) == { LimitScale(MinSigDigits - w, v.ds) : w \in LnWeights(v) }

\* beyond 1e+-1000 the last digit may be off by one
LnSlack(v) == IF AbsI(DecWeight(v)) > 1000 THEN 100 ELSE 60

LnNear(v, c, n) == Near(LnFix(v.c, v.ds, n + Guard), c, LnSlack(v))

LogScales(v, b) == { LimitScale(MinSigDigits - (x - y), Max2(v.ds, b.ds)) : x \in LnWeights(v), y \in LnWeights(b) }

LogNear(v, b, c, n) ==
    LET small == Max2(0, 1 - DecWeight(Num(BSub(b.c, BPow10(b.ds)), b.ds)))
        P == n + Guard + 2 * small + 12
        y == BQuo(BScale(LnFix(v.c, v.ds, P), n + Guard), LnFix(b.c, b.ds, P))
    IN Near(y, c, Max2(LnSlack(v), LnSlack(b)))

----------------------------------------------------------------------------
(* Exponential *)

ExpLimit == 6000

ExpRange(v) == BCmp(BAbs(v.c), BScale(BInt(ExpLimit), v.ds)) < 0

Fix(v, P) == Shift10(v.c, P - v.ds)

ExpScales(v) ==
    LET t == BQuo(BMul(Fix(v, 30), Log10E), BPow10(30))
        u == IF BCmp(BAbs(t), BScale(BInt(2000), 30)) > 0 THEN BScale(BInt(2000 * BSgn(t)), 30) ELSE t
    IN { LimitScale(MinSigDigits - w, v.ds) : w \in TruncRange(u, BPow10(18), 30) }

\* decimal digits of e^y before the point, at least; y an integer multiple of 10^-30
ExpDigits(Y) == BToInt(Shift10(BQuo(BMul(Y, Log10E), BPow10(30)), -30)) + 1

ExpNear(v, c, n) ==
    LET P == Max2(n + Guard + ExpDigits(Fix(v, 30)), 0) + 8
    IN Near(ExpFix(Fix(v, P), P, n + Guard), c, 60)

----------------------------------------------------------------------------
(* Power *)

IsI32(v) == IsIntegral(v) /\ LET n == TruncAt(v, 0) IN BCmp(n, IntMin("i32")) >= 0 /\ BCmp(n, IntMax("i32")) <= 0
IsOdd(n) == BSgn(BRem(n, BInt(2))) # 0

\* the absolute value of a is raised; exponent n a machine integer
IntPowScale(a) == LimitScale(MinSigDigits, a.ds)

\* can the power be computed exactly here?
ExactPow(a, n) == AbsI(n) <= 400000 /\ BDigits(a.c) * AbsI(n) <= 400000

\* ln|a| * e at P digits
LnTimes(a, e, P) ==
    LET Q == P + BDigits(e.c) + 6
        l == LnFix(BAbs(a.c), a.ds, Q)
    IN Shift10(BMul(l, e.c), P - Q - e.ds)

\* log10 of |a|^e at 30 digits
PowLog(a, e) == BQuo(BMul(LnTimes(a, e, 30), Log10E), BPow10(30))

\* the power of |a| as a multiple of 10^-(n + Guard), for a # 0
PowFix(a, e, n) ==
    LET i == IF IsI32(e) /\ BLimbs(e.c) <= 2 + FracGroups(e.ds) THEN BToInt(TruncAt(e, 0)) ELSE 2000000000
        m == BAbs(a.c)
        S == n + Guard
    IN IF ExactPow(a, i)
       THEN IF i >= 0 THEN Shift10(BPow(m, i), S - i * a.ds)
            ELSE LET j == S - i * a.ds                \* 10^(S + |i| ds) / m^|i|
                 IN IF j < 0 THEN BZero ELSE BQuo(BPow10(j), BPow(m, -i))
       ELSE LET t == PowLog(a, e)
            IN IF BCmp(t, BScale(BInt(-S - 20), 30)) < 0 THEN BZero
               ELSE IF BCmp(t, BScale(BInt(200000), 30)) > 0 THEN BNeg(BPow10(Guard + 1))   \* beyond every numeric
               ELSE LET dig == BToInt(Shift10(t, -30)) + 2
                        P == Max2(S + dig, 0) + 8
                    IN ExpFix(LnTimes(a, e, P), P, S)

\* scales of a power with an exponent that is no 32-bit integer
LnWeightOf(a) == LET W == LnWeights(Num(BAbs(a.c), a.ds)) IN CHOOSE w \in W : \A x \in W : w <= x
PowScales(a, e) ==
    LET t == PowLog(a, e)
        lr == LimitScale(8 - LnWeightOf(a), 0)
        \* the estimate uses ln|a| rounded at lr digits
        err == BAdd(Shift10(BAdd(BAbs(TruncAt(e, 0)), BInt(2)), 30 - lr), BPow10(18))
        u == IF BCmp(BAbs(t), BScale(BInt(3000), 30)) > 0 THEN BScale(BInt(3000 * BSgn(t)), 30) ELSE t
    IN { LimitScale(MinSigDigits - w, Common(a, e)) : w \in TruncRange(u, IF BCmp(err, BScale(BInt(9), 30)) > 0 THEN BScale(BInt(9), 30) ELSE err, 30) }

\* how e * ln|a| compares with a bound: -1, 0 (too close to tell), 1
PowSide(a, e, bound) ==
    LET d == BSub(LnTimes(a, e, 12), BScale(BInt(bound), 12))
    IN IF BCmp(BAbs(d), BPow10(10)) <= 0 THEN 0 ELSE BSgn(d)

=============================================================================
