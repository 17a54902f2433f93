------------------------------ MODULE Machine ------------------------------
(***************************************************************************)
(* A program over sixteen registers that hold numerics.                    *)
(*                                                                         *)
(* The state is the register file.  A call is a record: its operation, its *)
(* arguments, the outcome the library gave and the registers that changed. *)
(* Broken(e, ...) is the set of properties that the call breaks; a step of *)
(* the machine is a call with Broken(e) = {}.  Properties carry the names  *)
(* used in properties.jsonl.                                               *)
(***************************************************************************)
EXTENDS Real

Reg == 0..15
Empty == [v |-> [k |-> "empty"], b |-> <<>>]
InitRegs == [r \in Reg |-> Empty]

----------------------------------------------------------------------------
(* Which property an operation belongs to *)

Owner(op) ==
    CASE op \in {"add", "sub", "opadd", "opsub"} -> "C01"
      [] op \in {"mul", "opmul"} -> "C02"
      [] op \in {"div", "opdiv"} -> "C03"
      [] op \in {"divt", "rem", "oprem"} -> "C04"
      [] op \in {"round", "trunc", "ceil", "floor", "mround", "mtrunc"} -> "C05"
      [] op \in {"neg", "abs", "signum", "inc", "mneg", "mabs", "info", "opneg"} -> "C06"
      [] op \in {"cmp", "sort"} -> "C08"
      [] op \in {"hash", "hmap", "norm"} -> "C09"
      [] op = "parse" -> "C10"
      [] op = "disp" -> "C11"
      [] op = "sci" -> "C12"
      [] op \in {"view", "raw"} -> "C13"
      [] op \in {"serde", "dejson", "debin"} -> "C14"
      [] op \in {"fromint", "toint"} -> "C15"
      [] op \in {"fromf64", "fromf32"} -> "C16"
      [] op \in {"tof64", "tof32"} -> "C17"
      [] op \in {"typmod", "tmnew"} -> "C18"
      [] op = "sqrt" -> "C19"
      [] op \in {"ln", "log", "log2", "log10"} -> "C20"
      [] op = "exp" -> "C21"
      [] op = "pow" -> "C22"
      [] op = "fact" -> "C23"
      [] OTHER -> "C25"

Forms == {"opadd", "opsub", "opmul", "opdiv", "oprem", "opneg"}
Binary == {"add", "sub", "mul", "div", "divt", "rem", "log", "pow", "opadd", "opsub", "opmul", "opdiv", "oprem"}
Unary == {"neg", "abs", "signum", "inc", "ceil", "floor", "round", "trunc", "sqrt", "ln", "log2", "log10", "exp",
          "mneg", "mabs", "mround", "mtrunc", "opneg"}
Creating == {"parse", "zero", "nan", "fromint", "fromf64", "fromf32", "fact", "raw", "dejson", "debin"}
Copying == {"clone", "clonefrom", "toowned", "cow", "cowown", "thread"}

----------------------------------------------------------------------------
(* The register file after a call *)

Changed(e) == { e.ch[i].r : i \in 1..Len(e.ch) }
After(e, R, r) ==
    IF r \in Changed(e) THEN e.ch[CHOOSE i \in 1..Len(e.ch) : e.ch[i].r = r].b ELSE R[r].b

RegOf(b) == IF b = <<>> THEN Empty ELSE [v |-> Dec(b), b |-> b]
Apply(e, R) == IF e.ch = <<>> THEN R ELSE [ r \in Reg |-> IF r \in Changed(e) THEN RegOf(After(e, R, r)) ELSE R[r] ]

\* the long header where the short one would do: valid, read by the library but never made
Old(b) == b # <<>> /\ LET v == Dec(b) IN v.k # "bad" /\ EncLong(v) = b /\ Enc(v) # b

Canonical(b) == b = <<>> \/ LET v == Dec(b) IN v.k # "bad" /\ Enc(v) = b

\* the bytes of a numeric, with either header
Valid(b) == LET v == Dec(b) IN v.k # "bad" /\ (Enc(v) = b \/ EncLong(v) = b)

----------------------------------------------------------------------------
(* Exact operations: the outcomes allowed *)

Exact2(op, A, B) ==
    CASE op \in {"add", "opadd"} -> Add(A, B)
      [] op \in {"sub", "opsub"} -> Sub(A, B)
      [] op \in {"mul", "opmul"} -> Mul(A, B)
      [] op \in {"div", "opdiv"} -> Div(A, B)
      [] op = "divt" -> DivT(A, B)
      [] op \in {"rem", "oprem"} -> Rem(A, B)

Exact1(e, A) ==
    CASE e.op \in {"neg", "mneg", "opneg"} -> Neg(A)
      [] e.op \in {"abs", "mabs"} -> AbsV(A)
      [] e.op = "signum" -> Signum(A)
      [] e.op = "inc" -> Inc(A)
      [] e.op = "ceil" -> Ceil(A)
      [] e.op = "floor" -> Floor(A)
      [] e.op \in {"round", "mround"} -> Round(A, e.n)
      [] e.op \in {"trunc", "mtrunc"} -> Trunc(A, e.n)

\* the bytes a JSON text stands for when it is one string, else <<-1>>
NoText == << -1 >>
JsonBlank == {32, 9, 10, 13}
JsonPlain == (32..255) \ {34, 92}
Hex(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 65..70 THEN c - 55 ELSE IF c \in 97..102 THEN c - 87 ELSE 100000
Hex4(s, i) == IF i + 3 > Len(s) THEN 100000
              ELSE Hex(s[i]) * 4096 + Hex(s[i + 1]) * 256 + Hex(s[i + 2]) * 16 + Hex(s[i + 3])
Utf8(u) == IF u < 128 THEN <<u>>
           ELSE IF u < 2048 THEN << 192 + (u \div 64), 128 + (u % 64) >>
           ELSE IF u < 65536 THEN << 224 + (u \div 4096), 128 + ((u \div 64) % 64), 128 + (u % 64) >>
           ELSE << 240 + (u \div 262144), 128 + ((u \div 4096) % 64), 128 + ((u \div 64) % 64), 128 + (u % 64) >>
JsonEscape == [ c \in {34, 92, 47, 98, 102, 110, 114, 116} |->
    CASE c = 98 -> 8 [] c = 102 -> 12 [] c = 110 -> 10 [] c = 114 -> 13 [] c = 116 -> 9 [] OTHER -> c ]

RECURSIVE JsonRest(_, _)
\* from the inside of the string at i to the end of the text
JsonRest(s, i) ==
    LET j == SFirstNot(s, i, JsonPlain)
        more(c, k) == LET t == JsonRest(s, k) IN IF t = NoText THEN NoText ELSE SubSeq(s, i, j - 1) \o c \o t
    IN IF j > Len(s) THEN NoText
       ELSE IF s[j] = 34 THEN IF SFirstNot(s, j + 1, JsonBlank) > Len(s) THEN SubSeq(s, i, j - 1) ELSE NoText
       ELSE IF s[j] # 92 \/ j = Len(s) THEN NoText
       ELSE IF s[j + 1] \in DOMAIN JsonEscape THEN more(<< JsonEscape[s[j + 1]] >>, j + 2)
       ELSE IF s[j + 1] # 117 THEN NoText
       ELSE LET u == Hex4(s, j + 2) IN
            IF u >= 65536 \/ u \in 56320..57343 THEN NoText
            ELSE IF u \notin 55296..56319 THEN more(Utf8(u), j + 6)
            ELSE IF j + 7 > Len(s) \/ At(s, j + 6) # 92 \/ At(s, j + 7) # 117 THEN NoText
            ELSE LET w == Hex4(s, j + 8) IN
                 IF w \in 56320..57343 THEN more(Utf8(65536 + (u - 55296) * 1024 + (w - 56320)), j + 12) ELSE NoText

JsonText(s) ==
    LET i == SFirstNot(s, 1, JsonBlank) IN IF At(s, i) = 34 THEN JsonRest(s, i + 1) ELSE NoText

Created(e) ==
    CASE e.op = "parse" -> Parse(e.s)
      [] e.op = "zero" -> { Ok(Zero(0)) }
      [] e.op = "nan" -> { Ok(NaN) }
      [] e.op = "fromint" -> { FromInt(e.s) }
      [] e.op = "fromf64" -> { FromFloat(e.f, F64) }
      [] e.op = "fromf32" -> { FromFloat(e.f, F32) }
      [] e.op = "fact" -> { Factorial(e.s) }
      [] e.op = "raw" -> { Ok(Dec(e.s)) }
      [] e.op = "dejson" -> LET t == JsonText(e.s)
                            IN IF t = NoText THEN { Err("") } ELSE { IF o.k = "ok" THEN o ELSE Err("") : o \in Parse(t) }
      [] e.op = "debin" -> { IF Valid(e.s) THEN Ok(Dec(e.s)) ELSE Err("") }

\* what the library answered, in the form of an outcome (b: bytes of the target afterwards)
Answer(e, b) ==
    CASE e.k = "ok" -> IF b = <<>> THEN [k |-> "gone"] ELSE Ok(Dec(b))
      [] e.k = "none" -> None
      [] OTHER -> [k |-> e.k, m |-> IF "m" \in DOMAIN e THEN e.m ELSE ""]

----------------------------------------------------------------------------
(* Rounded real functions: is the answer allowed? *)

IsOk(o) == o.k = "ok" /\ IsNum(o.v)

RootOk(A, o) ==
    IF BSgn(A.c) < 0 THEN o = Panic(MSqrtNeg)
    ELSE IsOk(o) /\ o.v.ds = SqrtScale(A) /\ SqrtNear(A, o.v.c, o.v.ds)

LnPanic(A) == IF BSgn(A.c) = 0 THEN Panic(MLnZero) ELSE Panic(MLnNeg)

LnOk(A, o) ==
    IF BSgn(A.c) <= 0 THEN o = LnPanic(A)
    ELSE IsOk(o) /\ o.v.ds \in LnScales(A) /\ LnNear(A, o.v.c, o.v.ds)

LogOk(A, B, o) ==
    IF BSgn(A.c) <= 0 THEN o = LnPanic(A)
    ELSE IF BSgn(B.c) <= 0 THEN o = LnPanic(B)
    ELSE IF IsOne(B) THEN o = Panic(MDivZero)
    ELSE IsOk(o) /\ o.v.ds \in LogScales(A, B) /\ LogNear(A, B, o.v.c, o.v.ds)

ExpOk(A, o) ==
    IF ~ExpRange(A) THEN o = None
    ELSE IsOk(o) /\ o.v.ds \in ExpScales(A) /\ ExpNear(A, o.v.c, o.v.ds)

SignedAs(neg, c) == BSgn(c) = 0 \/ (BSgn(c) < 0) = neg

IntPowOk(A, B, o) ==
    LET neg == BSgn(A.c) < 0 /\ IsOdd(TruncAt(B, 0))
        n == IntPowScale(A)
    IN IF BSgn(B.c) = 0 THEN o = Ok(Num(BPow10(n), n))
       ELSE IF BSgn(A.c) = 0 THEN o = Ok(Zero(n))
       ELSE IF o.k = "ok"
            THEN IsOk(o) /\ o.v.ds = n /\ SignedAs(neg, o.v.c) /\ Near(PowFix(A, B, n), BAbs(o.v.c), 60)
            ELSE o = None /\ LET t == PowLog(A, B)         \* log10 of the power
                             IN BCmp(t, BSub(BScale(BInt(131072), 30), BPow10(20))) >= 0
\* None is the only answer when the power has more than 131072 digits: no other result fits the format

RealPowOk(A, B, o) ==
    LET neg == BSgn(A.c) < 0 /\ IsOdd(TruncAt(B, 0))
        side == PowSide(A, B, ExpLimit)
    IN IF BSgn(A.c) = 0 THEN o = Ok(Zero(MinSigDigits))
       ELSE IF side > 0 THEN o = None
       ELSE IF side = 0 /\ o = None THEN TRUE
       ELSE IsOk(o) /\ o.v.ds \in PowScales(A, B) /\ SignedAs(neg, o.v.c) /\ Near(PowFix(A, B, o.v.ds), BAbs(o.v.c), 60)

PowOk(A, B, o) ==
    IF IsNaN(A) THEN o = IF IsNum(B) /\ BSgn(B.c) = 0 THEN Ok(Num(BOne, 0)) ELSE Ok(NaN)
    ELSE IF IsNaN(B) THEN o = IF IsOne(A) THEN Ok(Num(BOne, 0)) ELSE Ok(NaN)
    ELSE IF BSgn(A.c) = 0 /\ BSgn(B.c) < 0 THEN o = Panic(MPowZero)
    ELSE IF BSgn(A.c) < 0 /\ ~IsIntegral(B) THEN o = Panic(MPowNeg)
    ELSE IF IsI32(B) THEN IntPowOk(A, B, o)
    ELSE RealPowOk(A, B, o)

Two == Num(BInt(2), 0)
TenV == Num(BInt(10), 0)

RealOps == {"sqrt", "ln", "log", "log2", "log10", "exp", "pow"}

RealOk(e, A, B, o) ==
    IF e.op = "pow" THEN PowOk(A, B, o)
    ELSE IF IsNaN(A) \/ (e.op = "log" /\ IsNaN(B)) THEN o = Ok(NaN)
    ELSE CASE e.op = "sqrt" -> RootOk(A, o)
           [] e.op = "ln" -> LnOk(A, o)
           [] e.op = "log2" -> LogOk(A, Two, o)
           [] e.op = "log10" -> LogOk(A, TenV, o)
           [] e.op = "log" -> LogOk(A, B, o)
           [] e.op = "exp" -> ExpOk(A, o)

----------------------------------------------------------------------------
(* Operator forms against the checked operation on the same operands *)

FormOk(e, R) ==
    LET A == R[e.a].v B == R[e.b].v b == After(e, R, e.d)
        zero == e.op \in {"opdiv", "oprem"} /\ IsNum(A) /\ IsNum(B) /\ BSgn(B.c) = 0
    IN CASE e.ck = "ok" -> e.k = "ok" /\ b = e.cb
         [] e.ck = "none" -> e.k = "panic" /\ e.m = (IF zero THEN MDivZero ELSE MOverflow)
         [] OTHER -> e.k = e.ck

----------------------------------------------------------------------------
(* Observations *)

Flag(p) == IF p THEN 1 ELSE 0

CmpOk(e, A, B, R) ==
    LET t == Cmp(A, B)
    IN /\ e.v = [ i \in 1..14 |-> CmpCode(t) ]
       /\ e.mx = R[IF t > 0 THEN e.a ELSE e.b].b
       /\ e.mn = R[IF t <= 0 THEN e.a ELSE e.b].b

SortOk(e, R) ==
    LET n == Len(e.rs)
        V(r) == R[r].v
        at(r) == CHOOSE i \in 1..n : e.rs[i] = r
    IN /\ { e.v[i] : i \in 1..Len(e.v) } = { e.rs[i] : i \in 1..n } /\ Len(e.v) = n
       /\ \A i \in 1..(n-1) : LET t == Cmp(V(e.v[i]), V(e.v[i+1])) IN t < 0 \/ (t = 0 /\ at(e.v[i]) < at(e.v[i+1]))
       /\ e.u = << Cardinality({ Reduced(V(e.rs[i])) : i \in 1..n }) >>
       /\ e.w = [ i \in 1..n |-> 1 ]

\* hs: the hashes seen so far, as pairs of reduced value and hash
HashOk(e, A, hs) ==
    LET h == SubSeq(e.v, 1, 4)
    IN /\ h = SubSeq(e.v, 5, 8)
       /\ \A p \in hs : p[1] = Reduced(A) => p[2] = h

CborHead(n) == IF n < 24 THEN <<64 + n>> ELSE IF n < 256 THEN <<88, n>> ELSE IF n < 65536 THEN <<89, n \div 256, n % 256>>
               ELSE <<90, n \div 16777216, (n \div 65536) % 256, (n \div 256) % 256, n % 256>>
Le64(n) == << n % 256, (n \div 256) % 256, (n \div 65536) % 256, n \div 16777216, 0, 0, 0, 0 >>

Payload(f, A, b) ==
    CASE f = "json" -> <<34>> \o Display(A) \o <<34>>
      [] f \in {"bincode", "bincoden"} -> Le64(Len(b)) \o b
      [] f \in {"cbor", "cborn"} -> CborHead(Len(b)) \o b

ToIntOk(e, A) ==
    LET o == ToInt(A, e.ty)
    IN IF o.k = "ok" THEN e.k = "ok" /\ e.t = o.t ELSE e.k = "err" /\ e.m = o.m

ToFloatOk(e, A, F) ==
    IF IsNaN(A) THEN e.k = "ok" /\ FloatNaN(e.v, F)
    ELSE LET o == FloatOf(A, F) IN IF o.k = "ok" THEN e.k = "ok" /\ e.v = o.f ELSE e.k = "err" /\ e.m = o.m

TypmodNewOk(e) ==
    IF TypmodOk(e.pr, e.sc)
    THEN e.k = "ok" /\ e.v = <<e.pr, e.sc, e.pr, e.sc, TypmodValue(e.pr, e.sc)>> /\ e.t = TypmodText(e.pr, e.sc)
    ELSE e.k = "none"

----------------------------------------------------------------------------
(* The verdict on a call *)

Observing == {"cmp", "sort", "hash", "hmap", "disp", "sci", "norm", "info", "view", "toint", "tof64", "tof32", "tmnew"}
Control == {"history", "mark", "quiet", "crash", "skip"}

\* registers a call may write when it succeeds
Writes(e) ==
    IF e.op \in Observing \cup {"history", "skip"} THEN {}
    ELSE IF e.op \in {"mark", "quiet", "crash"} THEN Reg
    ELSE IF e.op \in {"swap", "move"} THEN {e.d, e.a}
    ELSE {e.d}

Operands(e) ==
    IF e.op \in Binary \cup {"cmp", "hmap"} THEN {e.a, e.b}
    ELSE IF e.op = "sort" THEN { e.rs[i] : i \in 1..Len(e.rs) }
    ELSE IF "a" \in DOMAIN e THEN {e.a} ELSE {}

Set(p, tags) == IF p THEN {} ELSE tags

HasNaN(e, R) == \E r \in Operands(e) : IsNaN(R[r].v)

\* properties broken by the value or the message a call gives
Wrong(e, R, hs) ==
    LET A == R[e.a].v
        B == R[e.b].v
        own == {Owner(e.op)}
        arith == IF HasNaN(e, R) THEN {"C07"} \cup (IF Owner(e.op) = "C06" THEN {"C06"} ELSE {}) ELSE own
        res == After(e, R, e.d)
        ans == Answer(e, res)
        okk == e.k = "ok"
    IN CASE e.op \in Forms ->
              Set(FormOk(e, R), {"C24"})
              \cup LET chk == IF e.ck = "ok" THEN Ok(Dec(e.cb)) ELSE [k |-> e.ck]
                   IN Set(chk = (IF e.op = "opneg" THEN Exact1(e, A) ELSE Exact2(e.op, A, B)), arith)
         [] e.op \in RealOps -> Set(RealOk(e, A, IF e.op \in {"log", "pow"} THEN B ELSE A, ans), arith)
         [] e.op \in Binary -> Set(ans = Exact2(e.op, A, B), arith)
         [] e.op \in Unary -> Set(ans = Exact1(e, A), arith)
         [] e.op = "raw" -> Set(okk /\ res = Enc(Dec(e.s)), IF Old(e.s) THEN {"C27"} ELSE {"C13", "C25"})
         [] e.op \in Creating -> Set(ans \in Created(e), own)
         [] e.op = "typmod" ->
              LET t == ApplyTypmod(A, e.pr, e.sc)
              IN Set(okk /\ ans = Ok(t[2]) /\ e.v = <<t[1]>>, own \cup (IF IsNaN(A) THEN {"C07"} ELSE {}))
         [] e.op = "tmnew" -> Set(TypmodNewOk(e), own)
         [] e.op = "cmp" -> Set(okk /\ CmpOk(e, A, B, R), own)
         [] e.op = "sort" -> Set(okk /\ SortOk(e, R), own)
         [] e.op = "hash" -> Set(okk /\ HashOk(e, A, hs), own)
         [] e.op = "hmap" -> Set(okk /\ e.v = (IF Cmp(A, B) = 0 THEN <<1, 1, 1>> ELSE <<0, 0, 2>>), own)
         [] e.op = "norm" -> Set(okk /\ e.t = Normalized(A) /\ e.u = e.t, own)
         [] e.op = "disp" -> Set(okk /\ e.t = Display(A) /\ e.u = e.t, own)
         [] e.op = "sci" -> Set(okk /\ e.t = Scientific(A, 101) /\ e.u = e.t /\ e.v = Scientific(A, 69) /\ e.w = e.v, own)
         [] e.op = "info" -> Set(okk /\ e.v = Info(A), own \cup (IF IsNaN(A) THEN {"C07"} ELSE {}))
         [] e.op = "view" -> Set(okk /\ e.b = R[e.a].b /\ e.u = e.b /\ e.v = <<1, 1, 1>>, own)
         [] e.op = "toint" -> Set(ToIntOk(e, A), own \cup (IF IsNaN(A) THEN {"C07"} ELSE {}))
         [] e.op = "tof64" -> Set(ToFloatOk(e, A, F64), own)
         [] e.op = "tof32" -> Set(ToFloatOk(e, A, F32), own)
         [] e.op = "serde" -> Set(okk /\ res = R[e.a].b /\ e.p = Payload(e.fo, A, res), own)
         [] e.op \in Copying -> Set(okk /\ res = R[e.a].b, {"C25"})
         [] e.op = "move" -> Set(okk /\ res = R[e.a].b /\ After(e, R, e.a) = <<>>, {"C25"})
         [] e.op = "swap" -> Set(okk /\ res = R[e.a].b /\ After(e, R, e.a) = R[e.d].b, {"C25"})
         [] e.op = "drop" -> Set(okk /\ res = <<>>, {"C25"})
         [] e.op = "crash" -> {Owner(e.of)} \cup (IF e.rc = 99 THEN {} ELSE {"C25"})
         [] OTHER -> {}

Failed(e) == e.k \in {"none", "err", "panic"}

\* sus: operands of failed calls that were not assigned since; failed: has a call failed since the last mark
Broken(e, R, hs, sus, failed) ==
    \* an operand that is no numeric was reported when it was stored
    (IF \E r \in Operands(e) : R[r].v.k = "bad" THEN {"C13"} ELSE Wrong(e, R, hs))
    \* only the target changes, and nothing when the call fails
    \cup Set(Changed(e) \subseteq Writes(e), {"C25"})
    \cup Set(~Failed(e) \/ Changed(e) = {}, {"C26"})
    \* whatever is stored is canonical
    \cup Set(\A i \in 1..Len(e.ch) : Canonical(e.ch[i].b), {"C13"})
    \* the same call reading its borrowed operands from the old form gave the same
    \cup (IF "g" \in DOMAIN e /\ e.g = 0 THEN {"C27"} ELSE {})
    \* the same call on operands made afresh gave the same
    \cup (IF "h" \in DOMAIN e /\ e.h = 0 THEN {"C25"} \cup (IF Operands(e) \cap sus # {} THEN {"C26"} ELSE {}) ELSE {})
    \* nothing live, every block returned once, with its size, and nothing written around it
    \cup (IF e.op = "quiet" THEN Set(e.v = <<0, 0, 0, 0, 0>>, {"C25"})
                                 \cup Set(~failed \/ SubSeq(e.v, 3, 5) = <<0, 0, 0>>, {"C26"}) ELSE {})
=============================================================================
