------------------------------- MODULE Bridge -------------------------------
(***************************************************************************)
(* to_observable: a synchronous subscription on an asynchronous source.    *)
(* Establishing and disposing the asynchronous subscription happen in the  *)
(* background.                                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxPush, Len0, GEN

VARIABLES st,       \* "none", "asked", "on", "off"
          disp,     \* the synchronous subscription was disposed
          npush, over, seen, script
vars == <<st, disp, npush, over, seen, script>>
Init == st = "none" /\ disp = FALSE /\ npush = 0 /\ over = FALSE /\ seen = <<>> /\ script = <<>>
Busy == st = "asked" \/ (st = "on" /\ (disp \/ over))
\* the background work need not have happened when the next action comes
Env(a) == (GEN => Len(script) < Len0) /\ script' = IF GEN THEN Append(script, a) ELSE script
Subscribe == st = "none" /\ Env(<<"sub">>) /\ st' = "asked" /\ UNCHANGED <<disp, npush, over, seen>>
Establish == st = "asked" /\ Env(<<"est">>) /\ st' = "on" /\ UNCHANGED <<disp, npush, over, seen>>
Push(k) == /\ st = "on" /\ ~over /\ npush < MaxPush /\ Env(<<"push", k>>) /\ npush' = npush + 1
           /\ seen' = IF disp THEN seen ELSE Append(seen, npush + 1)
           /\ over' = (k # "n") /\ UNCHANGED <<st, disp>>
Dispose == st # "none" /\ ~disp /\ Env(<<"ds">>) /\ disp' = TRUE /\ UNCHANGED <<st, npush, over, seen>>
Unsubscribe == st = "on" /\ (disp \/ over) /\ UNCHANGED script /\ st' = "off" /\ UNCHANGED <<disp, npush, over, seen>>
Next == Subscribe \/ Establish \/ (\E k \in {"n", "e", "c"} : Push(k)) \/ Dispose \/ Unsubscribe
Spec == Init /\ [][Next]_vars
Fair == Spec /\ WF_vars(Establish) /\ WF_vars(Unsubscribe)
InOrder == \A i \in 1..Len(seen) : seen[i] = i
Inv == InOrder
Silent == [][disp => seen' = seen]_vars
Gone == disp ~> st = "off"
Emit == GEN /\ Len(script) >= 3 => PrintT("@S " \o ToJson([cfg |-> "bridge", script |-> script]))
=============================================================================
