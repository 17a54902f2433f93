------------------------------- MODULE Texts -------------------------------
(***************************************************************************)
(* All short texts over the characters that matter to the grammar of       *)
(* numerics.  The law compares the scanner in Numeric!Parse with the       *)
(* grammar as it is stated: a text is a number when some way of cutting it *)
(* into blanks, sign, digits, point, digits, exponent and blanks exists.   *)
(* The texts are printed, and parsed by the library.                       *)
(***************************************************************************)
EXTENDS Machine, TLC, IOUtils

BE == FALSE

CONSTANTS Alphabet, Longest

VARIABLE txt

Init == txt = <<>>
Next == Len(txt) < Longest /\ \E ch \in Alphabet : txt' = Append(txt, ch) /\ PrintT("TEXT " \o ToString(txt'))

----------------------------------------------------------------------------
(* The grammar, declaratively *)

Piece(s, i, j) == SubSeq(s, i + 1, j)                \* characters i+1 .. j
AllIn(s, S) == \A i \in 1..Len(s) : s[i] \in S

\* the number with sign sg, digits d before and f after the point and exponent e, as <<coefficient, power of ten>>
IntVal(D) == BFromDec(1, SShift(D, -48))
SignOf(s) == IF s = <<45>> THEN -1 ELSE 1

\* ways to cut: blanks end at i, sign at j, digits at k, point at l, fraction at m, exponent at n, blanks to the end
Spans(s, i, S, most) == { j \in i..Len(s) : j - i <= most /\ AllIn(Piece(s, i, j), S) }
ExpPiece(s, i, j) ==
    \/ j = i
    \/ /\ j > i /\ s[i + 1] \in {101, 69}
       /\ LET x == Piece(s, i + 1, j)
              y == IF x # <<>> /\ x[1] \in {43, 45} THEN Tail(x) ELSE x
          IN y # <<>> /\ AllIn(y, Digit)
Cuts(s) ==
    UNION { UNION { UNION { UNION { UNION {
        { <<i, j, k, l, m, n>> : n \in { n \in m..Len(s) : ExpPiece(s, m, n) /\ AllIn(Piece(s, n, Len(s)), Blank) } }
        : m \in { m \in Spans(s, l, Digit, 99) : (l = k => m = l) /\ (k - j) + (m - l) > 0 } }
        : l \in Spans(s, k, {Point}, 1) }
        : k \in Spans(s, j, Digit, 99) }
        : j \in Spans(s, i, {43, 45}, 1) }
        : i \in Spans(s, 0, Blank, 99) }

ValueOf(s, c) ==
    LET D == Piece(s, c[2], c[3]) F == Piece(s, c[4], c[5])
        X == IF c[6] = c[5] THEN <<48>> ELSE Piece(s, c[5] + 1, c[6])
        y == IF X[1] \in {43, 45} THEN Tail(X) ELSE X
        e == BToInt(IntVal(y)) * (IF X[1] = 45 THEN -1 ELSE 1)
        m == IntVal(D \o F)
        ds == Max2(0, Len(F) - e)
    IN Num(BMul(BInt(SignOf(Piece(s, c[1], c[2]))), BScale(m, ds - Len(F) + e)), ds)

IsNaNText(s) == \E i \in 0..Len(s) : /\ AllIn(Piece(s, 0, i), Blank)
                                     /\ i + 3 <= Len(s)
                                     /\ Lower(s[i+1]) = 110 /\ Lower(s[i+2]) = 97 /\ Lower(s[i+3]) = 110
                                     /\ AllIn(Piece(s, i + 3, Len(s)), Blank)

LawC10 ==
    LET C == Cuts(txt) P == Parse(txt)
    IN IF IsNaNText(txt) THEN P = { Ok(NaN) }
       ELSE IF C = {} THEN P = { IF AllIn(txt, Blank) THEN Err(MEmpty) ELSE Err(MInvalid) }
       ELSE \* every way to cut gives the same number
            \A c \in C : P = { Ok(ValueOf(txt, c)) }
=============================================================================
