-------------------------------- MODULE Run ---------------------------------
(***************************************************************************)
(* run(), and awaiting an awaitable observer: the outcome is decided by    *)
(* the first of: completion, error, cancellation, timeout.                 *)
(* MODE "run": subscription and timeout; MODE "await": only the observer.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxPush, Len0, GEN, Limit     \* Limit: ticks until the timeout

VARIABLES mode, begun, t, dl,
          last,     \* push that gave the last value, 0 = none
          stop,     \* the observer takes no more notifications
          disp,     \* the observer was disposed
          out,      \* "" undecided, or <<kind, push>>
          ret,      \* the awaiting side has been told
          subd,     \* run's subscription is active
          P,        \* pushes [k, seen]: seen by the user callbacks
          script
vars == <<mode, begun, t, dl, last, stop, disp, out, ret, subd, P, script>>
Init == /\ mode \in {"run", "await"} /\ begun = FALSE /\ t = 0 /\ dl = -1 /\ last = 0 /\ stop = FALSE /\ disp = FALSE
        /\ out = <<>> /\ ret = FALSE /\ subd = FALSE /\ P = <<>> /\ script = <<>>

CanReturn == begun /\ out # <<>> /\ ~ret
Env(a) == (GEN => ~CanReturn /\ Len(script) < Len0) /\ script' = IF GEN THEN Append(script, a) ELSE script

Begin == /\ ~begun /\ Env(<<"begin">>) /\ begun' = TRUE
         /\ subd' = (mode = "run") /\ dl' = IF mode = "run" THEN t + Limit ELSE -1
         /\ UNCHANGED <<mode, t, last, stop, disp, out, ret, P>>
Push(k) == /\ Len(P) < MaxPush /\ (mode = "run" => subd) /\ Env(<<"push", k>>)
           /\ LET on == ~stop /\ ~disp  p == Len(P) + 1 IN
              /\ P' = Append(P, [k |-> k, seen |-> on])
              /\ last' = IF on /\ k = "n" THEN p ELSE last
              /\ stop' = (stop \/ k # "n")
              /\ out' = IF ~on \/ k = "n" \/ out # <<>> THEN out
                        ELSE IF k = "e" THEN <<"e", p>>
                        ELSE IF last # 0 THEN <<"n", last>> ELSE <<"x", 0>>
           /\ UNCHANGED <<mode, begun, t, dl, disp, ret, subd>>
Tick == /\ t < Limit + 1 /\ Env(<<"w">>) /\ (begun /\ out # <<>> => ret) /\ t' = t + 1
        /\ out' = IF begun /\ dl = t + 1 /\ out = <<>> THEN <<"t", 0>> ELSE out
        /\ UNCHANGED <<mode, begun, dl, last, stop, disp, ret, subd, P>>
Cancel == /\ begun /\ ~ret /\ out = <<>> /\ Env(<<"cancel">>) /\ out' = <<"x", 0>>
          /\ UNCHANGED <<mode, begun, t, dl, last, stop, disp, ret, subd, P>>
DisposeObs == /\ ~disp /\ Env(<<"dp">>) /\ disp' = TRUE
              /\ UNCHANGED <<mode, begun, t, dl, last, stop, out, ret, subd, P>>
Return == /\ CanReturn /\ UNCHANGED script /\ ret' = TRUE /\ subd' = FALSE
          /\ UNCHANGED <<mode, begun, t, dl, last, stop, disp, out, P>>
Next == Begin \/ (\E k \in {"n", "e", "c"} : Push(k)) \/ Tick \/ Cancel \/ DisposeObs \/ Return
Spec == Init /\ [][Next]_vars
Live == Spec /\ WF_vars(Return)

LastValue == out # <<>> /\ out[1] = "n" => /\ P[out[2]].k = "n" /\ P[out[2]].seen
                                           /\ \A q \in (out[2] + 1)..Len(P) : P[q].k # "n" \/ ~P[q].seen
FirstEnd == \A p, q \in 1..Len(P) : P[p].seen /\ P[p].k # "n" /\ q > p => ~P[q].seen
TheError == out # <<>> /\ out[1] = "e" => P[out[2]].k = "e" /\ P[out[2]].seen
Detached == ret => ~subd
Inv == LastValue /\ FirstEnd /\ TheError /\ Detached
Returns == (begun /\ out # <<>>) ~> ret
InTime == (begun /\ mode = "run" /\ t > dl) => out # <<>>
Emit == GEN /\ ~CanReturn /\ Len(script) = Len0 => PrintT("@S " \o ToJson([cfg |-> mode, script |-> script]))
=============================================================================
