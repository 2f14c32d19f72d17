------------------------------ MODULE Subject ------------------------------
(***************************************************************************)
(* The broadcasting subject (aioreactive.subject.AsyncMultiSubject).       *)
(* Environment: subscribe, unsubscribe, push, an observer finishing with a *)
(* notification, disposing the subject.  Internal: a push moving on to the *)
(* next observer, a push returning.                                        *)
(* With GEN = TRUE internal steps come first and the history of            *)
(* environment actions is printed for replay on the real subject.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxSub, MaxPush, Len0, GEN

VARIABLES subs,     \* active subscriptions, in subscription order
          nsub,     \* subscriptions made so far
          P,        \* pushes: [k, snap, todo, at, st, at0]
          stopped, disposed,
          log,      \* deliveries begun: <<observer, push>>
          gone,     \* subscriptions that were disposed
          clock,    \* number of steps so far (for history only)
          script
vars == <<subs, nsub, P, stopped, disposed, log, gone, clock, script>>

Rng(s) == {s[i] : i \in 1..Len(s)}
Init == subs = <<>> /\ nsub = 0 /\ P = <<>> /\ stopped = FALSE /\ disposed = FALSE /\ log = <<>>
        /\ gone = {} /\ clock = 0 /\ script = <<>>

CanDeliver(p) == P[p].st = "run" /\ P[p].at = 0 /\ P[p].todo # <<>>
CanReturn(p) == P[p].st = "run" /\ P[p].at = 0 /\ P[p].todo = <<>>
Busy == \E p \in 1..Len(P) : CanDeliver(p) \/ CanReturn(p)
Env(a) == /\ (GEN => ~Busy /\ Len(script) < Len0)
          /\ clock' = IF GEN THEN 0 ELSE clock + 1
          /\ script' = IF GEN THEN Append(script, a) ELSE script
Inside == clock' = (IF GEN THEN 0 ELSE clock + 1) /\ UNCHANGED script

Sub == /\ nsub < MaxSub /\ Env(<<"sub", nsub + 1>>)
       /\ nsub' = nsub + 1
       /\ subs' = IF disposed THEN subs ELSE Append(subs, nsub + 1)
       /\ UNCHANGED <<P, stopped, disposed, log, gone>>
Uns(s) == /\ s \in Rng(subs) /\ Env(<<"uns", s>>)
          /\ subs' = SelectSeq(subs, LAMBDA x : x # s)
          /\ gone' = gone \cup {s}
          /\ UNCHANGED <<nsub, P, stopped, disposed, log>>
Push(k) == /\ Len(P) < MaxPush /\ Env(<<"push", k>>)
           /\ LET on == ~stopped /\ ~disposed
              IN /\ P' = Append(P, [k |-> k, snap |-> IF on THEN Rng(subs) ELSE {}, todo |-> IF on THEN subs ELSE <<>>,
                                    at |-> 0, st |-> IF disposed THEN "raised" ELSE "run",
                                    t0 |-> clock, t1 |-> 0, dead |-> ~on])
                 /\ stopped' = (stopped \/ (on /\ k # "n"))
           /\ UNCHANGED <<subs, nsub, disposed, log, gone>>
Finish(p) == /\ p \in 1..Len(P) /\ P[p].at # 0 /\ Env(<<"go", P[p].at, p>>)
             /\ P' = [P EXCEPT ![p].at = 0]
             /\ UNCHANGED <<subs, nsub, stopped, disposed, log, gone>>
Dispose == /\ ~disposed /\ Env(<<"ds">>) /\ disposed' = TRUE
           /\ UNCHANGED <<subs, nsub, P, stopped, log, gone>>
Deliver(p) == /\ p \in 1..Len(P) /\ CanDeliver(p) /\ Inside
              /\ LET s == Head(P[p].todo)  on == s \in Rng(subs)
                 IN /\ P' = [P EXCEPT ![p].todo = Tail(@), ![p].at = IF on THEN s ELSE 0]
                    /\ log' = IF on THEN Append(log, <<s, p>>) ELSE log
              /\ UNCHANGED <<subs, nsub, stopped, disposed, gone>>
Return(p) == /\ p \in 1..Len(P) /\ CanReturn(p) /\ Inside
             /\ P' = [P EXCEPT ![p].st = "ret", ![p].t1 = clock]
             /\ UNCHANGED <<subs, nsub, stopped, disposed, log, gone>>

Step == \E p \in 1..MaxPush : Deliver(p) \/ Return(p)
Handle == \E p \in 1..MaxPush : Finish(p)
Next == Sub \/ (\E s \in 1..MaxSub : Uns(s)) \/ (\E k \in {"n", "e", "c"} : Push(k)) \/ Handle \/ Dispose \/ Step
Spec == Init /\ [][Next]_vars
Live == Spec /\ \A p \in 1..MaxPush : WF_vars(Deliver(p)) /\ WF_vars(Return(p)) /\ WF_vars(Finish(p))

(* Properties *)
AtMostOnce == \A i, j \in 1..Len(log) : log[i] = log[j] => i = j
OnlySnapshot == \A i \in 1..Len(log) : log[i][1] \in P[log[i][2]].snap
\* a returned push reached everybody who stayed
Complete == \A p \in 1..Len(P) : P[p].st = "ret" =>
              \A s \in P[p].snap : s \in gone \/ \E i \in 1..Len(log) : log[i] = <<s, p>>
\* pushes that do not overlap arrive in push order
InOrder == \A i, j \in 1..Len(log) :
             (log[i][1] = log[j][1] /\ P[log[i][2]].st = "ret" /\ P[log[j][2]].t0 > P[log[i][2]].t1
              /\ P[log[i][2]].t1 > 0 /\ log[i][2] # log[j][2]) => i < j
\* each push reaches its observers in subscription order
SubOrder == \A i, j \in 1..Len(log) : (log[i][2] = log[j][2] /\ i < j) => log[i][1] < log[j][1]
\* a push that starts after the end, or after disposing, reaches nobody
DeadSilent == \A p \in 1..Len(P) : P[p].dead => \A i \in 1..Len(log) : log[i][2] # p
OneTerminal == Cardinality({p \in 1..Len(P) : P[p].k # "n" /\ ~P[p].dead}) <= 1
Inv == AtMostOnce /\ OnlySnapshot /\ Complete /\ InOrder /\ SubOrder /\ DeadSilent /\ OneTerminal
Returns == \A p \in 1..MaxPush : (p <= Len(P)) ~> (p <= Len(P) /\ P[p].st # "run")

Emit == GEN /\ ~Busy /\ Len(script) = Len0 => PrintT("@S " \o ToJson([cfg |-> "subject", script |-> script]))
=============================================================================
