------------------------------- MODULE RxLife -------------------------------
(***************************************************************************)
(* Life of one subscription to a buffering operator, shaped like the       *)
(* library's mechanism: NS sources are subscribed one after another, what  *)
(* they push is queued in a mailbox, a worker hands it to the observer one *)
(* at a time, and a detach agent gives the sources up when the worker has  *)
(* reached the end, when the observer failed, or when the user disposes.   *)
(*                                                                         *)
(* The environment decides when a source's subscribe call returns, what    *)
(* the sources push and when (also after their end and after they were     *)
(* given up, when LEAKY), when the observer is done with a notification    *)
(* and how (fine, by raising, or after disposing its own subscription),    *)
(* and when the user disposes.                                             *)
(*                                                                         *)
(* EAGER = FALSE: TLC interleaves the internal steps freely and checks the *)
(* guarantees and that everything comes to its end.  EAGER = TRUE: internal *)
(* steps run to completion after each environment action; TLC prints the   *)
(* environment's history, and harness/ plays it on the real operators by   *)
(* holding exactly these await points (gates) open or closed.              *)
(* RX_BREAK names a deliberately broken variant of the mechanism, used to  *)
(* show that the invariants can fail.                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS NS, L, MAXV, LEAKY, EAGER, EMIT
VARIABLES S,        \* the mechanism
          script    \* the environment's history
vars == <<S, script>>

BREAK == IF "RX_BREAK" \in DOMAIN IOEnv THEN IOEnv.RX_BREAK ELSE "none"

Srcs == 1..NS
Max2(a, b) == IF a > b THEN a ELSE b
Range(s) == {s[i] : i \in 1..Len(s)}

Init0 ==
  [asked |-> 0,           \* sources whose subscribe call was made
   sub |-> {},            \* sources whose subscribe call has returned
   live |-> {},           \* sources that hold us as their observer
   ended |-> {},          \* sources that have sent their end
   reg |-> {},            \* disposables known to the detach agent
   pend |-> {},           \* disposables on their way to the detach agent
   det |-> 0,             \* detach: 0 no, 1 requested, 2 carried out
   q |-> <<>>,            \* mailbox
   w |-> "idle",          \* worker: idle, busy, end (busy with the last one), stopped
   tok |-> FALSE,         \* cancelled?
   ins |-> <<>>, out |-> <<>>,
   nv |-> 0, ret |-> FALSE, disp |-> 0, fail |-> FALSE, got |-> 0]

Ask(s) == IF s.asked < NS /\ s.asked = Cardinality(s.sub)
          THEN {[s EXCEPT !.asked = @ + 1, !.live = @ \cup {s.asked + 1}]} ELSE {}

\* subscribe of source n returned: register, or give up at once when already detached
Returned(s, n) ==
  LET s1 == [s EXCEPT !.sub = @ \cup {n}, !.ret = (n = NS)]
  IN IF s.det # 0 /\ BREAK # "late" THEN [s1 EXCEPT !.live = @ \ {n}] ELSE [s1 EXCEPT !.pend = @ \cup {n}]

Register(s) == {[s EXCEPT !.pend = @ \ {n}, !.reg = IF s.det = 2 THEN @ ELSE @ \cup {n},
                          !.live = IF s.det = 2 /\ BREAK # "late" THEN @ \ {n} ELSE @] : n \in s.pend}
Detach(s) == IF s.det = 1 /\ s.pend = {} THEN {[s EXCEPT !.det = 2, !.live = @ \ s.reg]} ELSE {}

Take(s) ==
  IF s.w # "idle" \/ s.q = <<>> THEN {}
  ELSE LET m == Head(s.q)
           s1 == [s EXCEPT !.q = Tail(@)]
       IN IF s.tok /\ BREAK # "silence" THEN {[s1 EXCEPT !.w = "stopped"]}
          ELSE IF m.k = "n" THEN {[s1 EXCEPT !.w = "busy", !.out = Append(@, m)]}
          ELSE {[s1 EXCEPT !.w = IF BREAK = "grammar" THEN "busy" ELSE "end", !.out = Append(@, m), !.det = Max2(@, IF BREAK = "detach" THEN 0 ELSE 1)]}
       
Internal(s) == Ask(s) \cup Register(s) \cup Detach(s) \cup Take(s)

RECURSIVE Settle(_)
Settle(s) == IF Internal(s) = {} THEN s ELSE Settle(CHOOSE x \in Internal(s) : TRUE)
Then(s) == IF EAGER THEN Settle(s) ELSE s

\* -- environment
Waiting(s) == s.asked > Cardinality(s.sub)
Cancel(s, how) == [s EXCEPT !.tok = TRUE, !.disp = how, !.live = {}]
Act(a, s) == /\ S' = Then(s)
             /\ script' = Append(script, IF EMIT THEN a ELSE <<>>)   \* otherwise only its length matters

Push(n, k) ==
  /\ n \in S.live \/ (LEAKY /\ n \in S.sub)
  /\ LEAKY \/ n \notin S.ended
  /\ k = "n" => S.nv < MAXV
  /\ LET m == [k |-> k, v |-> IF k = "n" THEN S.nv + 1 ELSE 0]
     IN Act(<<"s", n, k, IF k = "n" THEN <<S.nv + 1>> ELSE IF k = "e" THEN <<n>> ELSE <<>>>>,
            [S EXCEPT !.q = Append(@, m), !.ins = Append(@, m), !.nv = IF k = "n" THEN @ + 1 ELSE @,
                      !.ended = IF k = "n" THEN @ ELSE @ \cup {n}])
SubReturns == Waiting(S) /\ Act(<<"r">>, Returned(S, S.asked))
\* how = 0: fine, 1: by raising, 2: after disposing
Finish(how) ==
  /\ S.w \in {"busy", "end"}
  /\ how = 2 => S.ret /\ S.disp = 0
  /\ LET fin == [S EXCEPT !.w = IF S.w = "end" THEN "stopped" ELSE "idle", !.got = @ + 1]
     IN Act(<<"f", how>>,
            IF how = 1 /\ S.w = "busy"
            THEN IF S.tok THEN [fin EXCEPT !.w = "stopped"]
                 \* the failure is handed to the observer as its error
                 ELSE [S EXCEPT !.w = "end", !.fail = TRUE, !.det = Max2(@, IF BREAK = "fail" THEN 0 ELSE 1),
                                !.out = Append(@, [k |-> "e", v |-> -1])]
            ELSE IF how = 2 THEN Cancel(fin, 2) ELSE fin)
Dispose == S.ret /\ S.disp = 0 /\ Act(<<"d", 1>>, Cancel(S, 2))

Env == \/ \E n \in Srcs : \E k \in {"n", "e", "c"} : Push(n, k)
       \/ SubReturns \/ Dispose \/ \E h \in 0..2 : Finish(h)
Step == ~EAGER /\ \E s \in Internal(S) : S' = s /\ UNCHANGED script

Init == S = Then(Init0) /\ script = <<>>
Next == (Len(script) < L /\ Env) \/ Step
Spec == Init /\ [][Next]_vars
LiveSpec == Spec /\ WF_vars(Step)

Stuck == Len(script) = L
Emit == EMIT /\ Stuck => PrintT("@S " \o ToJson([script |-> script, cfg |-> [ns |-> NS, leaky |-> LEAKY]]))

(***************************************************************************)
(* Guarantees                                                              *)
(***************************************************************************)
Quiet == Internal(S) = {} /\ ~Waiting(S) /\ S.w \notin {"busy", "end"}
Over == S.w = "stopped" \/ S.disp = 2 \/ S.fail

Grammar == \A j \in 1..(Len(S.out) - 1) : S.out[j].k = "n"
\* what the observer got is a prefix of what was pushed (plus its own failure)
Prefix == LET n == Len(S.out) - (IF S.fail THEN 1 ELSE 0)
          IN n <= Len(S.ins) /\ SubSeq(S.out, 1, n) = SubSeq(S.ins, 1, n)
FirstEnd == {j \in 1..Len(S.ins) : S.ins[j].k # "n" /\ \A i \in 1..(j - 1) : S.ins[i].k = "n"}
Due == IF FirstEnd = {} THEN Len(S.ins) ELSE CHOOSE j \in FirstEnd : TRUE
\* when nothing more can happen by itself everything due has arrived, unless it was cut off
Complete == Quiet /\ S.disp = 0 /\ ~S.fail => Len(S.out) = Due
Released == Quiet /\ S.ret /\ Over => S.live \subseteq S.ended
Kept == ~Over /\ S.w # "end" => \A n \in S.sub : n \in S.live
Inv == Grammar /\ Prefix /\ Complete /\ Released /\ Kept
\* nothing begins after dispose
Silence == [][S.disp = 2 => S'.out = S.out]_vars
\* everything pushed is eventually handled or cut off, whatever the interleaving
Settles == <>[](Internal(S) = {})
=============================================================================
