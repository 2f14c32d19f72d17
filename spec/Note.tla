-------------------------------- MODULE Note --------------------------------
(***************************************************************************)
(* Notification objects (aioreactive.notification): made for a kind and a  *)
(* content, accepted any number of times - by three functions or by an     *)
(* observer, possibly while earlier calls are still being handled - and    *)
(* compared with each other.  Contents of one class are equal.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxN, MaxA, Len0, GEN

VARIABLES N,        \* notifications: [k, c]
          A,        \* acceptances: [n, via, st], st: new, at, done, ret
          calls,    \* calls made: <<acceptance, kind, content>>
          script
vars == <<N, A, calls, script>>
Init == N = <<>> /\ A = <<>> /\ calls = <<>> /\ script = <<>>
Busy == \E a \in 1..Len(A) : A[a].st \in {"new", "done"}
Env(x) == (GEN => ~Busy /\ Len(script) < Len0) /\ script' = IF GEN THEN Append(script, x) ELSE script

Make(k, c) == /\ Len(N) < MaxN /\ Env(<<"make", k, c>>)
              /\ N' = Append(N, [k |-> k, c |-> IF k = "c" THEN 0 ELSE c]) /\ UNCHANGED <<A, calls>>
Accept(n, via) == /\ n \in 1..Len(N) /\ Len(A) < MaxA /\ Env(<<"accept", n, via>>)
                  /\ A' = Append(A, [n |-> n, via |-> via, st |-> "new"]) /\ UNCHANGED <<N, calls>>
Finish(a) == /\ a \in 1..Len(A) /\ A[a].st = "at" /\ Env(<<"go", a>>)
             /\ A' = [A EXCEPT ![a].st = "done"] /\ UNCHANGED <<N, calls>>
Compare(i, j) == /\ i \in 1..Len(N) /\ j \in 1..Len(N) /\ GEN /\ Env(<<"eq", i, j>>) /\ UNCHANGED <<N, A, calls>>
Call(a) == /\ A[a].st = "new" /\ A' = [A EXCEPT ![a].st = "at"]
           /\ calls' = Append(calls, <<a, N[A[a].n].k, N[A[a].n].c>>) /\ UNCHANGED <<N, script>>
Return(a) == /\ A[a].st = "done" /\ A' = [A EXCEPT ![a].st = "ret"] /\ UNCHANGED <<N, calls, script>>

Step == \E a \in 1..Len(A) : Call(a) \/ Return(a)
Next == (\E k \in {"n", "e", "c"}, c \in 1..2 : (k = "c" => c = 1) /\ Make(k, c))
        \/ (\E n \in 1..MaxN, via \in {"fns", "obv"} : Accept(n, via))
        \/ (\E a \in 1..MaxA : Finish(a)) \/ (\E i, j \in 1..MaxN : Compare(i, j)) \/ Step
Spec == Init /\ [][Next]_vars
Fair == Spec /\ WF_vars(Step) /\ \A a \in 1..MaxA : WF_vars(Finish(a))

\* each acceptance calls once, with what the notification was made of
Once == \A i, j \in 1..Len(calls) : calls[i][1] = calls[j][1] => i = j
Right == \A i \in 1..Len(calls) : LET n == N[A[calls[i][1]].n] IN calls[i][2] = n.k /\ calls[i][3] = n.c
Called == \A a \in 1..Len(A) : A[a].st # "new" => \E i \in 1..Len(calls) : calls[i][1] = a
Inv == Once /\ Right /\ Called
Returns == \A a \in 1..MaxA : (a <= Len(A)) ~> (a <= Len(A) /\ A[a].st = "ret")
Emit == GEN /\ ~Busy /\ Len(script) = Len0 => PrintT("@S " \o ToJson([cfg |-> "note", script |-> script]))
=============================================================================
