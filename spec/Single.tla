------------------------------- MODULE Single -------------------------------
(***************************************************************************)
(* The single-subscriber subject (AsyncSingleSubject): producers wait for  *)
(* the observer.  GEN as in module Subject.                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxPush, Len0, GEN

VARIABLES obs,      \* is there an observer?
          had,      \* was there ever one?
          P,        \* pushes [k, st]: wait, in (being handled), ret, raised, cancelled, void (returned undelivered)
          stopped, disposed, log, script
vars == <<obs, had, P, stopped, disposed, log, script>>
Init == obs = FALSE /\ had = FALSE /\ P = <<>> /\ stopped = FALSE /\ disposed = FALSE /\ log = <<>> /\ script = <<>>

Awake(p) == P[p].st = "wait" /\ (obs \/ disposed)
            /\ \A q \in 1..(p - 1) : P[q].st # "wait"          \* first come, first served
Busy == \E p \in 1..Len(P) : Awake(p)
Env(a) == (GEN => ~Busy /\ Len(script) < Len0) /\ script' = IF GEN THEN Append(script, a) ELSE script

Outcome(k) == IF disposed THEN "raised" ELSE IF ~obs THEN "wait" ELSE IF stopped THEN "void" ELSE "in"
Enter(p, k, st) == /\ stopped' = (stopped \/ (st = "in" /\ k # "n"))
                   /\ log' = IF st = "in" THEN Append(log, p) ELSE log
\* nobody overtakes a producer that is still waiting
Push(k) == /\ Len(P) < MaxPush /\ Env(<<"push", k>>)
           /\ LET behind == \E q \in 1..Len(P) : P[q].st = "wait"
                  st == IF behind /\ ~disposed THEN "wait" ELSE Outcome(k)
              IN P' = Append(P, [k |-> k, st |-> st]) /\ Enter(Len(P) + 1, k, st)
           /\ UNCHANGED <<obs, had, disposed>>
Wake(p) == /\ p \in 1..Len(P) /\ Awake(p) /\ UNCHANGED script
           /\ LET st == Outcome(P[p].k) IN P' = [P EXCEPT ![p].st = st] /\ Enter(p, P[p].k, st)
           /\ UNCHANGED <<obs, had, disposed>>
Sub == /\ ~had /\ ~disposed /\ Env(<<"sub", 1>>) /\ obs' = TRUE /\ had' = TRUE
       /\ UNCHANGED <<P, stopped, disposed, log>>
Finish(p) == /\ p \in 1..Len(P) /\ P[p].st = "in" /\ Env(<<"go", 1, p>>)
             /\ P' = [P EXCEPT ![p].st = "ret"] /\ UNCHANGED <<obs, had, stopped, disposed, log>>
Cancel(p) == /\ p \in 1..Len(P) /\ P[p].st = "wait" /\ Env(<<"cancel", p>>)
             /\ P' = [P EXCEPT ![p].st = "cancelled"] /\ UNCHANGED <<obs, had, stopped, disposed, log>>
Dispose(how) == /\ ~disposed /\ (how = "uns" => obs) /\ Env(<<how, 1>>) /\ disposed' = TRUE /\ obs' = FALSE
                /\ UNCHANGED <<had, P, stopped, log>>
Next == (\E k \in {"n", "e", "c"} : Push(k)) \/ Sub \/ Dispose("ds") \/ Dispose("uns")
        \/ \E p \in 1..MaxPush : Wake(p) \/ Finish(p) \/ Cancel(p)
Spec == Init /\ [][Next]_vars
Live == Spec /\ \A p \in 1..MaxPush : WF_vars(Wake(p)) /\ WF_vars(Finish(p))

InOrder == \A i, j \in 1..Len(log) : i < j => log[i] < log[j]           \* also: once each
OneEnd == \A i \in 1..Len(log) : P[log[i]].k # "n" => i = Len(log)
Told == \A p \in 1..Len(P) : P[p].st \in {"in", "ret"} <=> \E i \in 1..Len(log) : log[i] = p
Inv == InOrder /\ OneEnd /\ Told
\* nobody hangs once there is, or was, an observer or the subject was disposed
NoHang == \A p \in 1..MaxPush : (p <= Len(P) /\ (had \/ disposed)) ~> (p <= Len(P) /\ P[p].st \notin {"wait", "in"})

Emit == GEN /\ ~Busy /\ Len(script) = Len0 => PrintT("@S " \o ToJson([cfg |-> "single", script |-> script]))
=============================================================================
