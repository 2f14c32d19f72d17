------------------------------ MODULE RxTrace ------------------------------
(***************************************************************************)
(* Validates recorded executions of the real code against RxOps.           *)
(*                                                                         *)
(* The validator is total: whatever the recording contains, each event is  *)
(* processed and every violated clause is reported with its name, so that  *)
(* one deviation does not hide the rest of the trace.  A trace is          *)
(*   [head, ops, ill, slowfn, ev]   with events                            *)
(*   sb        the observer is being subscribed                            *)
(*   ss h x    source x was subscribed, giving handle h                    *)
(*   su h      handle h was disposed                                       *)
(*   in h k v  the source begins pushing into handle h                     *)
(*   ir h x    that push returned (x = 0) or raised exception x            *)
(*   ob k v    a notification begins at the observer                       *)
(*   oe x      the observer is done with it (x # 0: by raising x)          *)
(*   fn h      the user function of stage h is called (0: a synchronous    *)
(*             one in front of the head, -1: an asynchronous one there)    *)
(*   fx h      an asynchronous one is about to return                      *)
(*   fd        the factory of defer is called                              *)
(*   db, de    dispose begins / has returned                               *)
(*   id        nothing can run any more without the clock advancing        *)
(* Every event carries the virtual time t in milliseconds.                 *)
(***************************************************************************)
EXTENDS RxOps, TLC, Json, IOUtils

Traces == JsonDeserialize(IOEnv.RX_TRACES)

VARIABLES tid, i, M

T(n) == Traces[n]
HeadOf(n) == [T(n).head EXCEPT !.m = IF T(n).head.op \in Lagging THEN 1 ELSE @]
OpsOf(n) == Expand(T(n).ops)

Boot(n) ==
  [P |-> [PInit(HeadOf(n), OpsOf(n)) EXCEPT !.h.due = @ + (IF T(n).ev = <<>> THEN 0 ELSE T(n).ev[1].t)], exp |-> <<>>, hn |-> 0,
   nob |-> 0, lastk |-> "", lo |-> 0, term |-> FALSE, disp |-> 0, fail |-> 0,
   act |-> {}, inn |-> 0, allow |-> 0, rz |-> 0, rh |-> {}, wrong |-> T(n).ill, bad |-> {},
   fns |-> [k \in 1..Len(OpsOf(n)) |-> 0], fd |-> 0, infn |-> 0, open |-> 0]

Flag(m, c) == [m EXCEPT !.bad = @ \cup {c}]
FlagIf(b, m, c) == IF b THEN Flag(m, c) ELSE m

Over(m) == m.term \/ m.disp # 0 \/ m.fail # 0

\* Add what must be delivered.
Add(m, out) ==
  IF Over(m) THEN m
  ELSE LET n == Len(m.exp) IN
       IF m.P.h.lag /\ n > 0 /\ m.exp[n].k = "e" /\ ~m.exp[n].opt
       THEN [m EXCEPT !.exp = SubSeq(@, 1, n - 1) \o [j \in 1..Len(out) |-> [out[j] EXCEPT !.opt = TRUE]] \o <<@[n]>>]
       ELSE [m EXCEPT !.exp = @ \o out]

Tick(h, ops, m, t) ==
  IF h.op \in Clock \/ \E k \in 1..Len(ops) : ops[k].op = "debounce"
  THEN LET x == PTick(h, ops, m.P, t, Straight(ops))
       IN Add([m EXCEPT !.P = x.P], x.out)
  ELSE m

\* First entry of exp that the notification matches, with only optional ones before it.
RECURSIVE Match(_, _, _, _)
Match(exp, k, v, j) ==
  IF j > Len(exp) THEN 0
  ELSE IF exp[j].k = k /\ exp[j].v = v THEN j
  ELSE IF exp[j].opt THEN Match(exp, k, v, j + 1) ELSE 0

Must(exp) == SelectSeq(exp, LAMBDA x : ~x.opt)

DoSub(h, ops, m, e) ==
  LET ok == e.x \in PWant(h, m.P)
      m1 == [m EXCEPT !.act = @ \cup {e.h}, !.hn = e.h]
      late == Over(m) \/ PDone(ops, m.P) \/ m.P.h.lag
  IN IF ok THEN [m1 EXCEPT !.P = PSub(h, @, e.x)]
     ELSE LET m2 == [m1 EXCEPT !.P.h.hs = Append(@, 0), !.P.pre = Append(@, <<>>)] IN FlagIf(~late /\ ~T(tid).ill, m2, "sub")

DoUnsub(h, ops, m, e) ==
  LET early == e.h \in m.act /\ ~Over(m) /\ ~PDone(ops, m.P) /\ ~m.P.h.lag
               /\ e.h \notin Superseded(h, m.P.h) /\ ~PreDone(h, m.P, e.h)
      m1 == [m EXCEPT !.act = @ \ {e.h}]
      \* an end that may or may not count (it raced with being superseded): giving the sources up decides that it does
      ends == {j \in 1..Len(m.exp) : m.exp[j].opt /\ m.exp[j].k # "n"}
      j == CHOOSE x \in ends : \A y \in ends : x <= y
  IN IF early /\ ends # {} THEN [m1 EXCEPT !.exp = Append(SubSeq(@, 1, j - 1), [@[j] EXCEPT !.opt = FALSE])]
     ELSE FlagIf(early /\ ~m.wrong, m1, "early")

DoIn(h, ops, m, e) ==
  LET x == PStep(h, ops, m.P, e.h, Ev(e.k, e.v, e.t))
      m1 == [m EXCEPT !.P = x.P, !.inn = @ + 1,
                      !.act = IF e.k = "n" THEN @ ELSE @ \ {e.h},
                      !.rh = IF x.r # 0 THEN @ \cup {<<e.h, x.r>>} ELSE @]   \* this push must raise
  IN Add(m1, x.out)

DoInRet(h, ops, m, e) ==
  LET m1 == [m EXCEPT !.inn = @ - 1]
      bp == Unbuffered(h, ops) /\ m.inn = 1 /\ e.x = 0 /\ ~Over(m) /\ ~m.wrong
            /\ (Must(m.exp) # <<>> \/ m.nob > 0)
      m2 == FlagIf(bp, m1, "bp")
      own == {p[2] : p \in {p \in m.rh : p[1] = e.h}}
      due == own \cup (IF m.rz # 0 THEN {m.rz} ELSE {})
      m3 == FlagIf(due # {} /\ e.x \notin due /\ ~m.term /\ m.disp = 0, m2, "swallow")
      \* a source that is subscribed after everything ended may still run the functions in front of it
      stray == h.pre # <<>> /\ e.h \in 1..Len(m.P.h.hs) /\ m.P.h.hs[e.h] = 0
      m4 == FlagIf(e.x # 0 /\ e.x \notin due /\ ~stray, m3, "raise")
  IN [m4 EXCEPT !.rz = 0, !.rh = {p \in @ : p[1] # e.h}]

DoOb(h, ops, m, e) ==
  LET m0 == FlagIf(m.nob > 0, m, "serial")
      m1 == [m0 EXCEPT !.nob = @ + 1, !.term = @ \/ e.k # "n", !.lastk = e.k]
      j == Match(m.exp, e.k, e.v, 1)
      due == IF j = 0 THEN 0 ELSE m.exp[j].d
  IN IF m.term THEN Flag(m1, "grammar")
     ELSE IF m.disp = 2 THEN
        IF m.allow > 0 THEN [m1 EXCEPT !.allow = @ - 1] ELSE Flag(m1, "silence")
     ELSE IF m.fail # 0 THEN FlagIf(e.k # "e" \/ e.v # <<-m.fail>>, m1, "fail")
     ELSE IF m.wrong \/ (m.disp = 1 /\ j = 0) THEN m1
     ELSE IF j = 0 THEN
        LET m2 == [m1 EXCEPT !.wrong = TRUE]
            err == e.k = "e" \/ (Must(m.exp) # <<>> /\ Must(m.exp)[1].k = "e")
            end == e.k = "c" \/ (Must(m.exp) # <<>> /\ Must(m.exp)[1].k = "c")
        IN FlagIf(err, FlagIf(end, Flag(m2, "wrong"), "wrongend"), "wrongerr")
     ELSE
        LET m2 == [m1 EXCEPT !.exp = IF e.k # "n" THEN <<>> ELSE Rest(@, j)]
            m3 == FlagIf(e.t < due, m2, "soon")
        IN FlagIf(e.t > Max2(due, m.lo) /\ ~T(tid).slowfn, m3, "late")

DoOe(h, ops, m, e) ==
  LET m1 == [m EXCEPT !.nob = Max2(@ - 1, 0), !.lo = e.t]
      x == IF Straight(ops) THEN PHandled(h, ops, m.P, e.t) ELSE [P |-> m.P, out |-> <<>>]
      m2 == Add([m1 EXCEPT !.P = x.P], x.out)
  IN IF e.x = 0 THEN m2
     ELSE IF m.lastk # "n" THEN [m1 EXCEPT !.rz = e.x]
     ELSE IF Guarded(h, ops) THEN [m1 EXCEPT !.fail = e.x, !.exp = <<>>]
     ELSE [m2 EXCEPT !.rz = e.x]

\* User functions run exactly once per value that reaches their stage, never again.
Stages(ops) == {k \in 1..Len(ops) : ops[k].op \in Elementwise \cup ScanLike \cup ReduceLike}
Counted(m) == ~T(tid).ill /\ Len(T(tid).ops) = Len(m.fns)
DoFn(h, ops, m0, e) ==
  LET m == IF e.h = -1 \/ (e.h \in 1..Len(ops) /\ ops[e.h].op \in AsyncFn) THEN [m0 EXCEPT !.infn = @ + 1] ELSE m0 IN
  IF Counted(m) /\ e.h \in 1..Len(ops)
  THEN LET m1 == [m EXCEPT !.fns[e.h] = @ + 1]
       IN FlagIf(~m.wrong /\ m1.fns[e.h] > m.P.s[e.h].c, m1, "fnmore")
  ELSE m
DoFd(h, m) == FlagIf(m.fd > 0, [m EXCEPT !.fd = @ + 1], "fnmore")

DoIdle(h, ops, m, e) ==
  LET due == SelectSeq(m.exp, LAMBDA x : ~x.opt /\ x.d <= e.t)
      open == ~Over(m) /\ ~m.wrong
      m1 == FlagIf(open /\ due # <<>> /\ due[1].k = "n", m, "lost")
      m2 == FlagIf(open /\ due # <<>> /\ due[Len(due)].k = "c", m1, "lostend")
      m3 == FlagIf(open /\ due # <<>> /\ due[Len(due)].k = "e", m2, "losterr")
      m4 == FlagIf(m.fail # 0 /\ ~m.term /\ m.disp = 0, m3, "faillost")
      m5 == FlagIf(open /\ ~PDone(ops, m.P) /\ PWant(h, m.P) # {}, m4, "starve")
      m6 == FlagIf(open /\ Superseded(h, m.P.h) \cap m.act # {}, m5, "drop")
      m7 == FlagIf(open /\ Counted(m) /\ \E k \in Stages(ops) : m.fns[k] < m.P.s[k].c, m6, "fnless")
      m8 == FlagIf(h.op = "defer" /\ m.fd = 0 /\ m.disp = 0, m7, "fnless")
      over == m.term \/ m.disp = 2 \/ m.fail # 0
      done == {n \in m.act : PreDone(h, m.P, n)}
      m9 == FlagIf(m.open > 0, m8, "undone")
  IN FlagIf((over /\ m.act # {}) \/ (open /\ done # {}), m9, "detach")

Do(h, ops, m0, e) ==
  LET m == Tick(h, ops, m0, e.t)
  IN CASE e.e = "sb" -> LET x == PStart(h, ops, m.P, e.t) IN Add([m EXCEPT !.P = x.P], x.out)
       [] e.e = "ss" -> DoSub(h, ops, m, e)
       [] e.e = "su" -> DoUnsub(h, ops, m, e)
       [] e.e = "in" -> DoIn(h, ops, m, e)
       [] e.e = "ir" -> DoInRet(h, ops, m, e)
       [] e.e = "ob" -> DoOb(h, ops, m, e)
       [] e.e = "oe" -> DoOe(h, ops, m, e)
       [] e.e = "db" -> [m EXCEPT !.disp = Max2(@, 1), !.open = @ + 1,
                         !.allow = IF m.disp = 0 THEN m.infn ELSE @]
       [] e.e = "de" -> FlagIf(e.x # 0, [m EXCEPT !.disp = 2, !.open = @ - 1], "undone")
       [] e.e = "id" -> DoIdle(h, ops, m, e)
       [] e.e = "fn" -> DoFn(h, ops, m, e)
       [] e.e = "fx" -> [m EXCEPT !.infn = @ - 1]
       [] e.e = "fd" -> DoFd(h, m)
       [] e.e = "bad" -> Flag(m, e.k)          \* found by the harness itself
       [] OTHER -> m

Init == /\ tid \in 1..Len(Traces)
        /\ i = 0
        /\ M = Boot(tid)

Next == /\ i < Len(T(tid).ev)
        /\ i' = i + 1
        /\ tid' = tid
        /\ LET e == T(tid).ev[i + 1]
               m == Do(HeadOf(tid), OpsOf(tid), M, e)
               new == m.bad \ M.bad
           IN /\ M' = m
              /\ \A c \in new : PrintT("@BAD " \o ToString(tid) \o " " \o ToString(i + 1) \o " " \o c)

View == <<tid, i>>
Spec == Init /\ [][Next]_<<tid, i, M>>
=============================================================================
