------------------------------- MODULE VLoop --------------------------------
(***************************************************************************)
(* The virtual-time event loop.  A callback that runs may schedule and     *)
(* cancel others ("soon", "later", "at", "cancel"); "r" lets the loop go   *)
(* on to the next callback.                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxCb, Len0, GEN, MaxT

VARIABLES clock, ready, timers,   \* timers: set of <<id, when>>
          n,                      \* callbacks created
          canc, ran,              \* cancelled; run, in order
          script
vars == <<clock, ready, timers, n, canc, ran, script>>
Init == clock = 0 /\ ready = <<>> /\ timers = {} /\ n = 0 /\ canc = {} /\ ran = <<>> /\ script = <<>>
Rng(s) == {s[i] : i \in 1..Len(s)}
Do(a) == (GEN => Len(script) < Len0) /\ script' = IF GEN THEN Append(script, a) ELSE script

Soon == /\ n < MaxCb /\ Do(<<"soon", n + 1>>) /\ n' = n + 1 /\ ready' = Append(ready, n + 1)
        /\ UNCHANGED <<clock, timers, canc, ran>>
Later(d) == /\ n < MaxCb /\ Do(<<"later", n + 1, d>>) /\ n' = n + 1 /\ timers' = timers \cup {<<n + 1, clock + d>>}
            /\ UNCHANGED <<clock, ready, canc, ran>>
At(w) == /\ n < MaxCb /\ Do(<<"at", n + 1, w>>) /\ n' = n + 1 /\ timers' = timers \cup {<<n + 1, w>>}
         /\ UNCHANGED <<clock, ready, canc, ran>>
Cancel(c) == /\ c \in 1..n /\ c \notin canc /\ c \notin Rng(ran) /\ Do(<<"cancel", c>>)
             /\ canc' = canc \cup {c} /\ UNCHANGED <<clock, ready, timers, n, ran>>
Live1(x) == x \notin canc
Ready == SelectSeq(ready, Live1)
Timers == {x \in timers : Live1(x[1])}
RunReady == /\ Ready # <<>> /\ Do(<<"r">>) /\ ran' = Append(ran, Head(Ready)) /\ ready' = Tail(Ready)
            /\ UNCHANGED <<clock, timers, n, canc>>
RunTimer == /\ Ready = <<>> /\ Timers # {} /\ Do(<<"r">>)
            /\ \E x \in Timers : /\ \A y \in Timers : x[2] <= y[2]
                                 /\ ran' = Append(ran, x[1]) /\ timers' = Timers \ {x}
                                 /\ clock' = IF x[2] > clock THEN x[2] ELSE clock
            /\ ready' = <<>> /\ UNCHANGED <<n, canc>>
Next == Soon \/ (\E d \in 0..MaxT : Later(d)) \/ (\E w \in 0..MaxT : At(w)) \/ (\E c \in 1..MaxCb : Cancel(c)) \/ RunReady \/ RunTimer
Spec == Init /\ [][Next]_vars
Fair == Spec /\ WF_vars(RunReady) /\ WF_vars(RunTimer)

Once == \A i, j \in 1..Len(ran) : ran[i] = ran[j] => i = j
NotCancelled == Rng(ran) \cap canc = {}
Kept == \A c \in 1..n : c \in canc \/ c \in Rng(ran) \/ c \in Rng(ready) \/ \E x \in timers : x[1] = c
Inv == Once /\ NotCancelled /\ Kept
Forward == [][clock' >= clock]_vars
OnlyWhenIdle == [][clock' > clock => Ready = <<>>]_vars
AllRun == \A c \in 1..MaxCb : (c <= n) ~> (c \in canc \/ c \in Rng(ran))
Emit == GEN /\ Len(script) = Len0 => PrintT("@S " \o ToJson([cfg |-> "vloop", script |-> script]))
=============================================================================
