------------------------------- MODULE Trace -------------------------------
(***************************************************************************)
(* Checks recorded executions against Machine.                             *)
(*                                                                         *)
(* The log is one sequence of calls; it starts anew (empty registers) at   *)
(* the positions in Starts.  Every call is judged by Machine!Broken in the *)
(* state reached so far; broken properties are printed and the machine     *)
(* goes on from what the registers really hold.  The run is complete when  *)
(* every position of the log was reached.                                  *)
(***************************************************************************)
EXTENDS Machine, TLC, Recording, IOUtils

BE == "BIG_ENDIAN" \in DOMAIN IOEnv /\ IOEnv.BIG_ENDIAN = "1"

Log == Recorded(IOEnv.LOG)
Starts == Recorded(IOEnv.STARTS)[1]
StartSet == { Starts[i] : i \in 1..Len(Starts) }

VARIABLES pos,    \* the next call
          regs,   \* register file
          hs,     \* hashes seen since the last mark
          sus,    \* operands of failed calls
          failed  \* a call has failed since the last mark

vars == <<pos, regs, hs, sus, failed>>

Init == /\ pos \in StartSet
        /\ regs = InitRegs
        /\ hs = {}
        /\ sus = {}
        /\ failed = FALSE

Report(e, B) == IF B = {} THEN TRUE ELSE PrintT(<<"BROKEN", e.i, e.op, B>>)

Next ==
    /\ pos <= Len(Log)
    /\ LET e == Log[pos]
           reset == e.op \in {"mark", "quiet", "crash"}
       IN /\ Report(e, Broken(e, regs, hs, sus, failed))
          /\ regs' = IF reset THEN InitRegs ELSE Apply(e, regs)
          /\ hs' = IF reset THEN {} ELSE IF e.op = "hash" /\ e.k = "ok" THEN hs \cup {<<Reduced(regs[e.a].v), SubSeq(e.v, 1, 4)>>} ELSE hs
          /\ sus' = IF reset THEN {} ELSE IF Failed(e) THEN sus \cup Operands(e) ELSE sus \ Writes(e)
          /\ failed' = IF reset THEN FALSE ELSE failed \/ Failed(e)
    /\ pos' = pos + 1

Spec == Init /\ [][Next]_vars
Place == pos
=============================================================================
