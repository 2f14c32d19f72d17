------------------------------ MODULE TestUtil ------------------------------
(***************************************************************************)
(* The testing utilities: a test subject pushes scheduled notifications at *)
(* their time; a recording observer stores what it is given.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxN, Len0, GEN, MaxT

VARIABLES t, todo,    \* scheduled: set of [p, k, due]
          n, rec,     \* recorded: <<push, time>>
          over, script
vars == <<t, todo, n, rec, over, script>>
Init == t = 0 /\ todo = {} /\ n = 0 /\ rec = <<>> /\ over = FALSE /\ script = <<>>
Due == {x \in todo : x.due <= t}
Env(a) == (GEN => Due = {} /\ Len(script) < Len0) /\ script' = IF GEN THEN Append(script, a) ELSE script
Max(a, b) == IF a > b THEN a ELSE b
\* how: "at" an absolute time; "later" (awaited) and "sched" (in the background) after a delay; "now"
Schedule(how, k, d) ==
  /\ n < MaxN /\ Env(<<how, k, d>>) /\ n' = n + 1
  /\ todo' = todo \cup {[p |-> n + 1, k |-> k, due |-> IF how = "at" THEN Max(t, d) ELSE IF how = "now" THEN t ELSE t + d]}
  /\ UNCHANGED <<t, rec, over>>
Wait == /\ t < MaxT /\ Due = {} /\ Env(<<"w">>) /\ t' = t + 1 /\ UNCHANGED <<todo, n, rec, over>>
Arrive(x) == /\ x \in Due /\ UNCHANGED script /\ todo' = todo \ {x}
             /\ rec' = IF over THEN rec ELSE Append(rec, <<x.p, t>>)
             /\ over' = (over \/ x.k # "n") /\ UNCHANGED <<t, n>>
Next == (\E k \in {"n", "e", "c"}, how \in {"at", "later", "sched", "now"}, d \in 0..2 : (how = "now" => d = 0) /\ Schedule(how, k, d))
        \/ Wait \/ \E x \in todo : Arrive(x)
Spec == Init /\ [][Next]_vars
Fair == Spec /\ WF_vars(\E x \in todo : Arrive(x)) /\ WF_vars(Wait)
Ordered == \A i, j \in 1..Len(rec) : i < j => rec[i][2] <= rec[j][2]
OnTime == \A x \in todo : x.due >= t
Inv == Ordered /\ OnTime
AllArrive == \A p \in 1..MaxN : (\E x \in todo : x.p = p /\ x.due <= MaxT) ~> ~(\E x \in todo : x.p = p)
Emit == GEN /\ Due = {} /\ Len(script) = Len0 => PrintT("@S " \o ToJson([cfg |-> "sched", script |-> script]))
=============================================================================
