-------------------------------- MODULE Iter --------------------------------
(***************************************************************************)
(* Iterating a sequence asynchronously (AsyncIteratorObserver): producers  *)
(* are held until the iterating side has picked their notification up.     *)
(* GEN as in module Subject.                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxPush, MaxNext, Len0, GEN

VARIABLES sub,      \* subscribed to the source (from the first step on)
          Q,        \* notifications not picked up yet (the final one stays)
          P,        \* pushes [k, st, in]: held, free (may return), ret; in: counts for the iteration
          an,       \* a step of the iteration is waiting
          steps,    \* steps begun
          got,      \* what the steps gave: push number, 0 = end (again)
          stop, disp, nd, script  \* nd: how often it was disposed
vars == <<sub, Q, P, an, steps, got, stop, disp, nd, script>>
Init == sub = FALSE /\ Q = <<>> /\ P = <<>> /\ an = FALSE /\ steps = 0 /\ got = <<>> /\ stop = FALSE
        /\ disp = FALSE /\ nd = 0 /\ script = <<>>

CanPick == an /\ Q # <<>>
CanRet(p) == P[p].st = "free"
Busy == CanPick \/ \E p \in 1..Len(P) : CanRet(p)
Env(a) == (GEN => ~Busy /\ Len(script) < Len0) /\ script' = IF GEN THEN Append(script, a) ELSE script

Begin == /\ ~an /\ ~disp /\ steps < MaxNext /\ Env(<<"next">>)
         /\ an' = TRUE /\ sub' = TRUE /\ steps' = steps + 1 /\ UNCHANGED <<Q, P, got, stop, disp, nd>>
Push(k) == /\ sub /\ Len(P) < MaxPush /\ Env(<<"push", k>>)
           /\ P' = Append(P, [k |-> k, st |-> IF stop \/ disp THEN "free" ELSE "held", in |-> ~(stop \/ disp)])
           /\ Q' = IF stop \/ disp THEN Q ELSE Append(Q, Len(P) + 1)
           /\ stop' = (stop \/ (~disp /\ k # "n"))
           /\ UNCHANGED <<sub, an, steps, got, disp, nd>>
Cancel == /\ an /\ Env(<<"cancel">>) /\ an' = FALSE /\ UNCHANGED <<sub, Q, P, steps, got, stop, disp, nd>>
Dispose == /\ nd < 2 /\ Env(<<"ds">>) /\ disp' = TRUE /\ nd' = nd + 1
           /\ P' = [p \in 1..Len(P) |-> IF P[p].st = "held" THEN [P[p] EXCEPT !.st = "free"] ELSE P[p]]
           /\ UNCHANGED <<sub, Q, an, steps, got, stop>>
Pick == /\ CanPick /\ UNCHANGED script
        /\ LET p == Head(Q)  first == P[p].st = "held"
           IN /\ P' = IF first THEN [P EXCEPT ![p].st = "free"] ELSE P
              /\ Q' = IF P[p].k = "n" THEN Tail(Q) ELSE Q
              /\ got' = Append(got, IF P[p].k = "n" \/ \A i \in 1..Len(got) : got[i] # p THEN p ELSE 0)
        /\ an' = FALSE /\ UNCHANGED <<sub, steps, stop, disp, nd>>
Return(p) == /\ p \in 1..Len(P) /\ CanRet(p) /\ UNCHANGED script /\ P' = [P EXCEPT ![p].st = "ret"]
             /\ UNCHANGED <<sub, Q, an, steps, got, stop, disp, nd>>
Next == Begin \/ (\E k \in {"n", "e", "c"} : Push(k)) \/ Cancel \/ Dispose \/ Pick \/ \E p \in 1..MaxPush : Return(p)
Spec == Init /\ [][Next]_vars
Live == Spec /\ WF_vars(Pick) /\ \A p \in 1..MaxPush : WF_vars(Return(p))

Vals == SelectSeq(got, LAMBDA g : g # 0)
InOrder == \A i \in 1..Len(Vals) : Vals[i] = i                         \* every push, in order, once
EndLast == \A i \in 1..Len(got) : (got[i] # 0 /\ P[got[i]].k # "n") => \A j \in (i + 1)..Len(got) : got[j] = 0
Held == \A p \in 1..Len(P) : (P[p].st # "held" /\ P[p].in /\ ~disp) => \E i \in 1..Len(got) : got[i] = p
Inv == InOrder /\ EndLast /\ Held
NoHang == /\ (CanPick ~> ~an)
          /\ \A p \in 1..MaxPush : (p <= Len(P) /\ (disp \/ P[p].st = "free")) ~> (p <= Len(P) /\ P[p].st = "ret")
Emit == GEN /\ ~Busy /\ (Len(script) = Len0 \/ (nd = 2 /\ Len(P) = MaxPush)) => PrintT("@S " \o ToJson([cfg |-> "iter", script |-> script]))
=============================================================================
