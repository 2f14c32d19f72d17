------------------------------ MODULE SubFail -------------------------------
(***************************************************************************)
(* Sequences that cannot be subscribed.  A pipeline opens sources: the     *)
(* inner ones an outer sequence brings (merged, merged with a bound,       *)
(* switched) or a fixed set in a fixed order (pair modes, or one source).  *)
(* A bad source is "opening" until the environment lets its subscription   *)
(* fail.  A failure must be reported (as an error, or by the subscribe     *)
(* call) and must leave no other source behind.  GEN as in module Subject. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxSrc, MaxPush, Len0, GEN, Modes, Rounds

VARIABLES mode, bad,   \* bad[i]: source i cannot be subscribed
          st,          \* queued, opening, live, ended, failed, gone
          outer,       \* the outer sequence is live
          np, out,     \* open, err, end, disp
          rd,          \* only numbers the behaviours (each is played in Rounds variations)
          script
vars == <<mode, rd, bad, st, outer, np, out, script>>
Inner == {"merge", "bound1", "bound2", "switch"}
Pair == {"combine", "latest", "until", "mergeP", "concatP"}
Order == IF mode = "until" THEN <<2, 1>> ELSE [i \in 1..Len(st) |-> i]
Init == /\ mode \in Modes
        /\ bad \in IF mode \in Inner THEN {<<>>} ELSE IF mode = "one" THEN {<<TRUE>>}
                   ELSE {<<TRUE, FALSE>>, <<FALSE, TRUE>>, <<TRUE, TRUE>>, <<FALSE, FALSE>>}
        /\ st = [i \in 1..Len(bad) |-> "queued"]
        /\ rd \in 1..Rounds
        /\ outer = (mode \in Inner) /\ np = 0 /\ out = "open" /\ script = <<>>

Is(s) == {i \in 1..Len(st) : st[i] = s}
Limit == CASE mode \in {"bound1", "concatP"} -> 1 [] mode = "bound2" -> 2 [] OTHER -> 99
FirstQ == LET Q == {n \in 1..Len(st) : st[Order[n]] = "queued"} IN Order[CHOOSE n \in Q : \A m \in Q : n <= m]
CanOpen == out = "open" /\ Is("queued") # {} /\ Is("opening") = {} /\ Cardinality(Is("live")) < Limit
Stale == IF out # "open" THEN Is("live") \cup Is("queued") ELSE {}
AllDone == ~outer /\ \A i \in 1..Len(st) : st[i] \in {"ended", "gone"}
CanEnd == out = "open" /\ mode \in Inner \cup {"mergeP", "concatP"} /\ AllDone
Busy == CanOpen \/ Stale # {} \/ CanEnd \/ (out # "open" /\ outer)
Env(a) == (GEN => ~Busy /\ Len(script) < Len0) /\ script' = IF GEN THEN Append(script, a) ELSE script

Bring(b) == /\ mode \in Inner /\ outer /\ out = "open" /\ Len(st) < MaxSrc /\ Env(<<"inner", IF b THEN 1 ELSE 0>>)
            /\ bad' = Append(bad, b) /\ st' = Append(st, "queued") /\ UNCHANGED <<mode, rd, outer, np, out>>
\* a value of source i: it closes a take_until when it is the other sequence's
Push(i) == /\ i \in Is("live") /\ out = "open" /\ np < MaxPush /\ Env(<<"push", i>>) /\ np' = np + 1
           /\ out' = IF mode = "until" /\ i = 2 THEN "end" ELSE out
           /\ UNCHANGED <<mode, rd, bad, st, outer>>
End(i) == /\ i \in Is("live") /\ out = "open" /\ Env(<<"end", i>>) /\ st' = [st EXCEPT ![i] = "ended"]
          /\ out' = IF mode \in {"combine", "latest"} \/ (mode = "until" /\ i = 1) THEN "end" ELSE out
          /\ UNCHANGED <<mode, rd, bad, outer, np>>
OuterEnd == /\ outer /\ out = "open" /\ Env(<<"end", 0>>) /\ outer' = FALSE /\ UNCHANGED <<mode, rd, bad, st, np, out>>
Fail(i) == /\ i \in Is("opening") /\ Env(<<"fail", i>>) /\ st' = [st EXCEPT ![i] = "failed"]
           /\ out' = IF out = "open" THEN "err" ELSE out
           /\ UNCHANGED <<mode, rd, bad, outer, np>>
\* (there is nothing to dispose before the subscribe call has returned)
Dispose == /\ out = "open" /\ (mode \in Inner \cup {"mergeP", "concatP"}) /\ Env(<<"ds">>) /\ out' = "disp"
           /\ UNCHANGED <<mode, rd, bad, st, outer, np>>
Open == /\ CanOpen /\ UNCHANGED <<mode, rd, bad, outer, np, out, script>>
        /\ st' = [i \in 1..Len(st) |-> IF i = FirstQ THEN IF bad[i] THEN "opening" ELSE "live"
                                       ELSE IF mode = "switch" /\ st[i] = "live" THEN "gone" ELSE st[i]]
Release(i) == /\ i \in Stale /\ st' = [st EXCEPT ![i] = "gone"] /\ UNCHANGED <<mode, rd, bad, outer, np, out, script>>
ReleaseOuter == /\ out # "open" /\ outer /\ outer' = FALSE /\ UNCHANGED <<mode, rd, bad, st, np, out, script>>
Finish == /\ CanEnd /\ out' = "end" /\ UNCHANGED <<mode, rd, bad, st, outer, np, script>>
Next == (\E b \in BOOLEAN : Bring(b)) \/ (\E i \in 1..MaxSrc : Push(i) \/ End(i) \/ Fail(i) \/ Release(i))
        \/ OuterEnd \/ Dispose \/ Open \/ ReleaseOuter \/ Finish
Spec == Init /\ [][Next]_vars
Live == Spec /\ WF_vars(Open) /\ WF_vars(ReleaseOuter) /\ WF_vars(Finish)
        /\ \A i \in 1..MaxSrc : WF_vars(Release(i)) /\ WF_vars(Fail(i))

Reported == Is("failed") # {} => out # "open"
Clean == ~Busy /\ out # "open" => Is("live") = {} /\ Is("queued") = {} /\ ~outer
NoEndInstead == out = "end" /\ mode \in Inner \cup {"mergeP", "concatP"} => Is("failed") = {} /\ Is("opening") = {}
OneAtATime == Cardinality(Is("opening")) <= 1 /\ Cardinality(Is("live")) <= Limit
Inv == Reported /\ Clean /\ NoEndInstead /\ OneAtATime
NoHang == /\ \A i \in 1..MaxSrc : (i <= Len(st) /\ st[i] = "opening") ~> out # "open"
          /\ (out # "open") ~> (~outer /\ \A i \in 1..Len(st) : st[i] \in {"ended", "failed", "gone"})
Emit == GEN /\ ~Busy /\ (Len(script) = Len0 \/ out # "open") /\ Is("opening") = {} /\ Is("failed") # {}
        => PrintT("@S " \o ToJson([cfg |-> mode, rd |-> rd, bad |-> bad, script |-> script]))
=============================================================================
