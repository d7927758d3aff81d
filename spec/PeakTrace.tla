------------------------------- MODULE PeakTrace -------------------------------
(* Recorded executions of real components against PeakLang.                         *)
(*   [ev |-> "prog", P, pid]            the program under execution                 *)
(*   [ev |-> "new", o]                  a fresh instance o of it                    *)
(*   [ev |-> "call", o, in, out, how]   one call of instance o and what it returned *)
(*                                      (out = <<>> if the call failed)             *)
(*   [ev |-> "poke", o, n, v]           content v stored into register n from outside *)
(*   [ev |-> "peek", o, n, v]           register n read from outside as v           *)
(* Instances are independent: each carries its own state.                           *)
EXTENDS PeakLang, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, pi, obj
Ev == Trace[i]
P == Trace[pi].P
Fail(clause, detail) == PrintT("FAIL " \o ToJson([i |-> i, pi |-> pi, clause |-> clause, detail |-> detail]))
Must(clause, ok, detail) == IF ok THEN TRUE ELSE Fail(clause, detail)

Init == i = 1 /\ pi = 1 /\ obj = <<>>
Prog == Ev.ev = "prog" /\ pi' = i /\ obj' = <<>>
New  == Ev.ev = "new" /\ obj' = (Ev.o :> InitSt(P)) @@ obj /\ UNCHANGED pi
Call == /\ Ev.ev = "call"
        /\ LET res == StepP(P, obj[Ev.o], Ev.in) IN
             /\ Must("output", Ev.out = res.out, <<Ev.how, Ev.in, Ev.out, res.out>>)
             /\ obj' = [obj EXCEPT ![Ev.o] = res.st]
        /\ UNCHANGED pi
Poke == Ev.ev = "poke" /\ obj' = [obj EXCEPT ![Ev.o].r[Ev.n] = Ev.v] /\ UNCHANGED pi
Peek == /\ Ev.ev = "peek"
        /\ Must("content", Ev.v = obj[Ev.o].r[Ev.n], <<Ev.n, Ev.v, obj[Ev.o].r[Ev.n]>>)
        /\ UNCHANGED <<pi, obj>>
Step == i <= Len(Trace) /\ i' = i + 1 /\ (Prog \/ New \/ Call \/ Poke \/ Peek)
Finish == i = Len(Trace) + 1 /\ i' = i + 1 /\ UNCHANGED <<pi, obj>> /\ PrintT("DONE " \o ToJson([n |-> i - 1]))
Next == Step \/ Finish
Spec == Init /\ [][Next]_<<i, pi, obj>>
=============================================================================
