----------------------------- MODULE Behaviours -----------------------------
(***************************************************************************)
(* All short behaviours of a program over three registers, and random long *)
(* ones.  What a numeric's buffer looks like depends on how the value came *)
(* about, so behaviours, and not states, are what the library is run on:   *)
(* the history is part of the state.                                       *)
(***************************************************************************)
EXTENDS Machine, TLC, IOUtils

BE == FALSE

CONSTANTS Length,       \* calls in a behaviour
          Part, Parts   \* which part of the starting values

Alive == 0..2

VARIABLES file,         \* register -> numeric, or Gone
          hist,         \* calls made
          start         \* the values of registers 0 and 1 at the beginning

Gone == [k |-> "empty"]

Values == <<
    Num(BInt(99999999), 4),                    \* a carry runs out of the front
    Num(BInt(-5), 5),                          \* rounds to zero, or up
    Zero(2), NaN,
    Num(BPow10(70), 66),                       \* long header, trailing zeroes
    Num(BAdd(BPow10(24), BOne), 12),
    Num(BInt(50000), 1),                       \* short, integral
    Num(BNeg(BSub(BPow10(40), BOne)), 20),
    Num(BInt(7), 300) >>

N == Len(Values)
StartSet == { p \in (1..N) \X (1..N) : ((p[1] - 1) * N + p[2] - 1) % Parts = Part }

----------------------------------------------------------------------------
(* Calls: text of the call, outcome kind, new register file *)

\* (not written with \/: TLC would take both sides as alternatives of an action)
Bounded(v) == IF v.k = "num" THEN BDigits(v.c) <= 120 /\ v.ds <= 400 ELSE TRUE

\* result of an outcome put into d
Put(f, d, o) == IF o.k = "ok" THEN [f EXCEPT ![d] = o.v] ELSE f

T(s, x) == s \o " " \o ToString(x)

OneIn == {"mneg", "mabs"}
OneOut == {"neg", "abs", "inc", "ceil", "floor", "signum"}
TwoOp == {"add", "sub", "mul", "div", "rem"}
Live(f) == { r \in Alive : f[r].k # "empty" }

Calls(f) ==
    LET L == Live(f) IN
    { [t |-> T(op, a), o |-> Exact1([op |-> op], f[a]), d |-> a] : op \in OneIn, a \in L }
    \cup { [t |-> T(T(op, d), a), o |-> Exact1([op |-> op], f[a]), d |-> d] : op \in OneOut, a \in L, d \in {1} }
    \cup { [t |-> T(T("mround", a), n), o |-> Round(f[a], n), d |-> a] : a \in L, n \in {-1, 0, 3} }
    \cup { [t |-> T(T("mtrunc", a), n), o |-> Trunc(f[a], n), d |-> a] : a \in L, n \in {-4, 2} }
    \cup { [t |-> T("typmod", a) \o " 6 2", o |-> Ok(ApplyTypmod(f[a], 6, 2)[2]), d |-> a] : a \in L }
    \cup { [t |-> T(T(T(op, d), a), b), o |-> Exact2(op, f[a], f[b]), d |-> d] : op \in TwoOp, a \in L \cap {0}, b \in L \cap {1}, d \in {0, 2} }
    \cup { [t |-> T(T(T(T("op" \o op, a), a), b), 9 + fm), o |-> Exact2(op, f[a], f[b]), d |-> a] : op \in TwoOp, a \in L \cap {0}, b \in L \cap {0, 1}, fm \in {0, 1} }
    \cup { [t |-> T(T(T(T("op" \o op, 2), a), b), fm), o |-> Exact2(op, f[a], f[b]), d |-> 2] : op \in {"add", "mul"}, a \in L \cap {0}, b \in L \cap {1}, fm \in {3, 7} }
    \cup { [t |-> T(T(op, d), a), o |-> Ok(f[a]), d |-> d] : op \in {"clone", "toowned", "cowown"}, a \in L \cap {0}, d \in {1} }
    \cup { [t |-> T(T("clonefrom", 0), 1), o |-> Ok(f[1]), d |-> 0] : a \in { a \in {0} : {0, 1} \subseteq L } }
    \cup { [t |-> "parse 0 2d392e393935", o |-> Ok(Num(BInt(-9995), 3)), d |-> 0] }
    \cup { [t |-> T("parse", 0) \o " 312e2e", o |-> Err(MInvalid), d |-> 0] }

Moves(f) ==
    { [t |-> "swap 0 1", f |-> [f EXCEPT ![0] = f[1], ![1] = f[0]]] : x \in { x \in {0} : {0, 1} \subseteq Live(f) } }
    \cup { [t |-> "move 2 0", f |-> [f EXCEPT ![2] = f[0], ![0] = Gone]] : x \in Live(f) \cap {0} }
    \cup { [t |-> "drop 1", f |-> [f EXCEPT ![1] = Gone]] : x \in Live(f) \cap {1} }

----------------------------------------------------------------------------
Init == /\ start \in StartSet
        /\ file = (0 :> Values[start[1]] @@ 1 :> Values[start[2]] @@ 2 :> Gone)
        /\ hist = <<>>

Say == Len(hist') = Length => PrintT("HIST " \o ToString(Enc(Values[start[1]])) \o " " \o ToString(Enc(Values[start[2]])) \o " " \o ToString(hist'))

Step == \/ \E c \in Calls(file) : /\ IF c.o.k = "ok" THEN Bounded(c.o.v) ELSE TRUE
                                  /\ file' = Put(file, c.d, c.o)
                                  /\ hist' = Append(hist, c.t)
        \/ \E m \in Moves(file) : file' = m.f /\ hist' = Append(hist, m.t)
Next == Len(hist) < Length /\ Step /\ UNCHANGED start /\ Say

vars == <<file, hist, start>>
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
(* What the properties say about every behaviour *)

\* whatever is stored is a numeric in canonical form, and its bytes give it back
Stored == \A r \in Live(file) : Dec(Enc(file[r])) = file[r] /\ Canonical(Enc(file[r]))

\* a call changes one register, a move two; a failing call changes none
Frame == [][ Cardinality({ r \in Alive : file[r] # file'[r] }) <= 2 ]_vars
FailedCalls == [][ \A c \in Calls(file) : (hist' = Append(hist, c.t) /\ c.o.k # "ok") => file' = file ]_vars
=============================================================================
