------------------------------ MODULE ObjTrace ------------------------------
(***************************************************************************)
(* Validates recorded executions of the objects around the operators:      *)
(* subjects, the async iterator, run/awaitable observer, the virtual-time  *)
(* loop, the testing utilities and the bridge to synchronous observables.  *)
(* Total like RxTrace: every event is processed, every violated clause is  *)
(* reported by name.  A trace is [kind, ev]; the events (fields e, h, k,   *)
(* v, x, t) are described with each kind.  x: 0 fine, 97                   *)
(* ObjectDisposedException, 96 cancelled, 98 an unknown exception.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Traces == JsonDeserialize(IOEnv.RX_TRACES)
VARIABLES tid, i, M
T(n) == Traces[n]

Flag(m, c) == [m EXCEPT !.bad = @ \cup {c}]
FlagIf(b, m, c) == IF b THEN Flag(m, c) ELSE m
Rng(s) == {s[j] : j \in 1..Len(s)}
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
Without(s, S) == SelectSeq(s, LAMBDA x : x \notin S)
Pos(s, x) == CHOOSE j \in 1..Len(s) : s[j] = x
Max2(a, b) == IF a > b THEN a ELSE b
\* the push a notification belongs to: x is what the recording suggests (it matters only for equal notifications)
Which(C, x) == IF x \in C THEN x ELSE MinOf(C)
Front(v) == SubSeq(v, 1, Len(v) - 1)
\* disposing (open: how many of them are going on) returns, and raises nothing
Undone(m) == FlagIf(m.open > 0, m, "undone")

(* ------------------------------------------------------------- subject -- *)
(* sb h / se h / sx h x   subscribing observer h begins / done / raised     *)
(* ub h / su h            disposing its subscription begins / done          *)
(* in h k v / ir h x      push h begins / ends                              *)
(* ob h k v x / oe h k v x observer h begins (x: hint) / ends handling (the *)
(*                        hint is the last of v)                            *)
(* db / de                disposing the subject;  id  nothing left to run   *)
SBoot == [subs |-> <<>>, coming |-> {}, going |-> {}, gone |-> {}, late |-> {}, P |-> <<>>,
          stopped |-> FALSE, disp |-> 0, open |-> 0, bad |-> {}]
SIn(m, e) ==
  LET on == ~m.stopped /\ m.disp = 0
      loose == m.coming \cup m.going
  IN [m EXCEPT !.P = Append(@, [k |-> e.k, v |-> e.v, todo |-> IF on THEN m.subs ELSE <<>>,
                                may |-> IF on THEN loose ELSE IF m.disp = 1 /\ ~m.stopped THEN loose \cup Rng(m.subs) ELSE {},
                                at |-> {}, st |-> "run", disp |-> m.disp, exc |-> 0]),
               !.stopped = @ \/ (on /\ e.k # "n")]
SOb(m, e) ==
  LET C == {p \in 1..Len(m.P) : /\ m.P[p].st = "run" /\ m.P[p].k = e.k /\ m.P[p].v = e.v
                                /\ e.h \in Rng(m.P[p].todo) \cup m.P[p].may}
  IN IF e.h \in m.gone \/ C = {} THEN Flag(m, "ghost")
     ELSE LET p == Which(C, e.x)
              j == IF e.h \in Rng(m.P[p].todo) THEN Pos(m.P[p].todo, e.h) ELSE 0
              skipped == Rng(SubSeq(m.P[p].todo, 1, j - 1)) \cap Rng(m.subs)
              m1 == [m EXCEPT !.P[p].todo = SubSeq(@, j + 1, Len(@)), !.P[p].may = @ \ {e.h}, !.P[p].at = @ \cup {e.h}]
          IN FlagIf(j > 1 /\ skipped # {}, m1, "order")
SOe(m, e) ==
  LET C == {p \in 1..Len(m.P) : m.P[p].k = e.k /\ m.P[p].v = Front(e.v) /\ e.h \in m.P[p].at}
  IN IF C = {} THEN m
     ELSE LET p == Which(C, e.v[Len(e.v)]) IN [m EXCEPT !.P[p].at = @ \ {e.h}, !.P[p].exc = IF e.x # 0 THEN e.x ELSE @]
SIr(m, e) ==
  LET p == m.P[e.h]
      m0 == [m EXCEPT !.P[e.h].st = "ret"]
      m1 == FlagIf(p.at # {} /\ e.x = 0, m0, "bp")
      m2 == FlagIf(e.x = 0 /\ p.exc = 0 /\ m.disp = 0 /\ Rng(p.todo) \cap Rng(m.subs) # {}, m1, "lost")
      m3 == FlagIf(p.disp = 2 /\ e.x # 97, m2, "noraise")
      m4 == FlagIf(p.exc # 0 /\ e.x = 0, m3, "swallow")
  IN FlagIf(e.x # 0 /\ e.x # p.exc /\ ~(e.x = 97 /\ m.disp > 0), m4, "raise")
SDo(m, e) ==
  CASE e.e = "sb" -> [m EXCEPT !.coming = @ \cup {e.h}, !.late = IF m.disp = 2 THEN @ \cup {e.h} ELSE @]
    [] e.e = "se" -> FlagIf(e.h \in m.late, [m EXCEPT !.coming = @ \ {e.h}, !.subs = Append(@, e.h)], "noraise")
    [] e.e = "sx" -> FlagIf(m.disp = 0, [m EXCEPT !.coming = @ \ {e.h}], "raise")
    [] e.e = "ub" -> [m EXCEPT !.subs = Without(@, {e.h}), !.going = @ \cup {e.h}, !.open = @ + 1]
    [] e.e = "su" -> FlagIf(e.x # 0, [m EXCEPT !.going = @ \ {e.h}, !.gone = @ \cup {e.h}, !.open = @ - 1], "undone")
    [] e.e = "in" -> SIn(m, e)
    [] e.e = "ir" -> SIr(m, e)
    [] e.e = "ob" -> SOb(m, e)
    [] e.e = "oe" -> SOe(m, e)
    [] e.e = "db" -> [m EXCEPT !.disp = Max2(@, 1), !.open = @ + 1]
    [] e.e = "de" -> FlagIf(e.x # 0, [m EXCEPT !.disp = 2, !.open = @ - 1], "undone")
    [] e.e = "id" -> FlagIf(\E p \in 1..Len(m.P) : m.P[p].st = "run" /\ m.P[p].at = {}, Undone(m), "hang")
    [] OTHER -> m

(* ------------------------------------------------------ single subject -- *)
(* as above; cx h: push h is being cancelled                                *)
GBoot == [obs |-> 0, disp |-> 0, P |-> <<>>, stopped |-> FALSE, open |-> 0, bad |-> {}]
GIn(m, e) == [m EXCEPT !.P = Append(@, [k |-> e.k, v |-> e.v, st |-> "run", got |-> 0, waiting |-> m.obs < 2,
                                        disp |-> m.disp, cx |-> FALSE, exc |-> 0])]
GOb(m, e) ==
  LET C == {p \in 1..Len(m.P) : m.P[p].st = "run" /\ m.P[p].got = 0 /\ m.P[p].k = e.k /\ m.P[p].v = e.v}
      m0 == FlagIf(m.stopped, [m EXCEPT !.stopped = @ \/ e.k # "n"], "grammar")
  IN IF C = {} \/ m.disp = 2 THEN Flag(m0, "ghost")
     ELSE LET p == Which(C, e.x)
              over == m.P[p].waiting /\ \E q \in 1..(p - 1) : m.P[q].waiting /\ m.P[q].st = "run" /\ m.P[q].got = 0 /\ ~m.P[q].cx
          IN FlagIf(over, [m0 EXCEPT !.P[p].got = 1], "order")
GOe(m, e) ==
  LET C == {p \in 1..Len(m.P) : m.P[p].got = 1 /\ m.P[p].k = e.k /\ m.P[p].v = Front(e.v)}
      p == Which(C, e.v[Len(e.v)])
  IN IF C = {} THEN m ELSE [m EXCEPT !.P[p].got = 2, !.P[p].exc = e.x]
GIr(m, e) ==
  LET p == m.P[e.h]
      m0 == [m EXCEPT !.P[e.h].st = "ret"]
      m1 == FlagIf(e.x = 0 /\ p.got = 1, m0, "bp")
      m2 == FlagIf(e.x = 0 /\ p.got = 0 /\ ~m.stopped /\ m.disp # 2, m1, "lost")
      m3 == FlagIf(e.x = 0 /\ p.got = 0 /\ (p.disp = 2 \/ (m.disp = 2 /\ ~m.stopped)), m2, "noraise")
      m4 == FlagIf(p.exc # 0 /\ e.x = 0, m3, "swallow")
  IN FlagIf(e.x # 0 /\ e.x # p.exc /\ ~(e.x = 97 /\ m.disp > 0) /\ ~(e.x = 96 /\ p.cx), m4, "raise")
GId(m) == FlagIf(\E p \in 1..Len(m.P) : /\ m.P[p].st = "run" /\ m.P[p].got # 1
                                        /\ (m.obs = 2 \/ m.disp = 2 \/ m.P[p].cx \/ m.P[p].got = 2), m, "hang")
GDo(m, e) ==
  CASE e.e = "sb" -> [m EXCEPT !.obs = Max2(@, 1)]
    [] e.e = "se" -> [m EXCEPT !.obs = 2]
    [] e.e = "in" -> GIn(m, e)
    [] e.e = "ir" -> GIr(m, e)
    [] e.e = "ob" -> GOb(m, e)
    [] e.e = "oe" -> GOe(m, e)
    [] e.e = "cx" -> [m EXCEPT !.P[e.h].cx = TRUE]
    [] e.e \in {"db", "ub"} -> [m EXCEPT !.disp = Max2(@, 1), !.open = @ + 1]
    [] e.e \in {"de", "su"} -> FlagIf(e.x # 0, [m EXCEPT !.disp = 2, !.open = @ - 1], "undone")
    [] e.e = "id" -> GId(Undone(m))
    [] OTHER -> m

(* ------------------------------------------------------ async iterator -- *)
(* ab h / ar h k v x   step h begins / gave: n value, c end, e error,       *)
(*                     x cancelled;  cx h  step h is being cancelled        *)
(* ss h / su h         the source is subscribed / unsubscribed              *)
IBoot == [Q |-> <<>>, P |-> <<>>, end |-> "", err |-> <<>>, act |-> {}, nsub |-> 0, disp |-> 0, an |-> 0, cx |-> FALSE,
          stop |-> FALSE, open |-> 0, bad |-> {}]
IIn(m, e) == [m EXCEPT !.P = Append(@, [k |-> e.k, v |-> e.v, st |-> "run", pick |-> FALSE, ign |-> m.stop]),
                       !.Q = IF m.stop THEN @ ELSE Append(@, Len(m.P) + 1), !.stop = @ \/ e.k # "n"]
IAr(m, e) ==
  LET m0 == [m EXCEPT !.an = 0]
      hd == IF m.Q = <<>> THEN 0 ELSE m.Q[1]
      ok == hd # 0 /\ m.P[hd].k = e.k /\ m.P[hd].v = e.v
  IN IF e.k = "x" THEN FlagIf(~m.cx /\ m.disp = 0, m0, "raise")
     ELSE IF m.disp > 0 THEN m0
     ELSE IF m.end # "" THEN FlagIf(e.k = "n" \/ (e.k = "e" /\ (m.end # "e" \/ e.v # m.err)), m0, "after")
     ELSE IF ok THEN [m0 EXCEPT !.P[hd].pick = TRUE, !.Q = Tail(@), !.end = IF e.k = "n" THEN "" ELSE e.k,
                                !.err = IF e.k = "e" THEN e.v ELSE @]
     ELSE Flag(m0, "wrong")
IIr(m, e) ==
  LET p == m.P[e.h]
      m0 == [m EXCEPT !.P[e.h].st = "ret"]
      m1 == FlagIf(e.x # 0 /\ m.disp = 0, m0, "raise")
  IN FlagIf(~p.pick /\ ~p.ign /\ m.disp = 0, m1, "bp")
IId(m) ==
  LET m1 == FlagIf(m.disp = 0 /\ m.an # 0 /\ (m.Q # <<>> \/ m.end # "" \/ m.cx), m, "hang")
      m2 == FlagIf(\E p \in 1..Len(m.P) : m.P[p].st = "run" /\ (m.P[p].pick \/ m.P[p].ign \/ m.disp = 2), m1, "held")
      m3 == FlagIf(m.disp = 2 /\ m.act # {}, m2, "detach")
  IN FlagIf(m.disp = 0 /\ m.an # 0 /\ m.nsub = 0, m3, "starve")
IDo(m, e) ==
  CASE e.e = "ab" -> [m EXCEPT !.an = e.h, !.cx = FALSE]
    [] e.e = "ar" -> IAr(m, e)
    [] e.e = "cx" -> [m EXCEPT !.cx = TRUE]
    [] e.e = "in" -> IIn(m, e)
    [] e.e = "ir" -> IIr(m, e)
    [] e.e = "ss" -> FlagIf(m.nsub > 0 /\ m.disp = 0, [m EXCEPT !.nsub = @ + 1, !.act = @ \cup {e.h}], "sub")
    [] e.e = "su" -> FlagIf(m.disp = 0 /\ m.end = "" /\ e.h \in m.act, [m EXCEPT !.act = @ \ {e.h}], "early")
    [] e.e = "db" -> [m EXCEPT !.disp = Max2(@, 1), !.open = @ + 1]
    [] e.e = "de" -> FlagIf(e.x # 0, [m EXCEPT !.disp = 2, !.open = @ - 1], "undone")
    [] e.e = "id" -> IId(Undone(m))
    [] OTHER -> m

(* ------------------------------------------------------- run and await -- *)
(* rb x k     begins: k = run (x: timeout in ms) or await                    *)
(* rr k v     outcome: n value, e error, x cancelled, t timeout             *)
(* cb k v / ce k v x   a user callback begins / ends;  dp  observer disposed *)
(* cx         the awaiting task is being cancelled                          *)
RBoot == [mode |-> "", has |-> FALSE, last |-> <<>>, stop |-> FALSE, disp |-> FALSE, out |-> "", outv |-> <<>>, tie |-> FALSE,
          dl |-> 0, cx |-> FALSE, ret |-> FALSE, act |-> {}, P |-> <<>>, bad |-> {}]
RTick(m, e) == IF m.mode = "run" /\ ~m.ret /\ m.out = "" /\ e.t > m.dl THEN [m EXCEPT !.out = "t"] ELSE m
RIn(m, e) ==
  LET on == ~m.stop /\ ~m.disp
      m1 == [m EXCEPT !.P = Append(@, [k |-> e.k, v |-> e.v, st |-> "run", due |-> on, exc |-> 0]), !.stop = @ \/ e.k # "n",
                      !.has = @ \/ (on /\ e.k = "n"), !.last = IF on /\ e.k = "n" THEN e.v ELSE @]
  IN IF ~on \/ e.k = "n" \/ m.out # "" THEN m1
     ELSE [m1 EXCEPT !.tie = m.mode = "run" /\ e.t = m.dl, !.out = IF e.k = "e" THEN "e" ELSE IF m.has THEN "n" ELSE "x",
                     !.outv = IF e.k = "e" THEN e.v ELSE IF m.has THEN m.last ELSE <<>>]
RCb(m, e) ==
  LET C == {p \in 1..Len(m.P) : m.P[p].st = "run" /\ m.P[p].due /\ m.P[p].k = e.k /\ m.P[p].v = e.v}
  IN IF C = {} THEN Flag(m, "cbmore") ELSE [m EXCEPT !.P[MinOf(C)].due = FALSE]
RCe(m, e) ==
  LET C == {p \in 1..Len(m.P) : m.P[p].st = "run" /\ m.P[p].k = e.k /\ m.P[p].v = e.v}
  IN IF C = {} \/ e.x = 0 THEN m ELSE [m EXCEPT !.P[MinOf(C)].exc = e.x]
RIr(m, e) ==
  LET p == m.P[e.h]
      m0 == [m EXCEPT !.P[e.h].st = "ret"]
      m1 == FlagIf(p.due, m0, "cbless")
      m2 == FlagIf(p.exc # 0 /\ e.x = 0, m1, "swallow")
  IN FlagIf(e.x # 0 /\ e.x # p.exc /\ ~(e.x = 96 /\ m.cx), m2, "raise")
RRr(m, e) ==
  LET m0 == [m EXCEPT !.ret = TRUE]
      due == m.mode = "run" /\ e.t >= m.dl
      ok == \/ (e.k = m.out /\ e.v = m.outv)
            \/ (e.k = "t" /\ ((due /\ m.out = "") \/ (m.tie /\ e.t = m.dl)))
            \/ (e.k = "x" /\ m.cx)
      m1 == FlagIf(~ok, m0, IF e.k = "t" THEN "soon" ELSE IF m.out = "t" THEN "late" ELSE "wrong")
      m2 == FlagIf(e.k = "t" /\ e.t > m.dl, m1, "late")
  IN FlagIf(m.mode = "run" /\ m.act # {}, m2, "detach")
RDo(m0, e) ==
  LET m == RTick(m0, e) IN
  CASE e.e = "rb" -> [m EXCEPT !.mode = e.k, !.dl = e.t + e.x]
    [] e.e = "rr" -> RRr(m, e)
    [] e.e = "in" -> RIn(m, e)
    [] e.e = "ir" -> RIr(m, e)
    [] e.e = "cb" -> RCb(m, e)
    [] e.e = "ce" -> RCe(m, e)
    [] e.e = "cx" -> [m EXCEPT !.cx = TRUE]
    [] e.e = "dp" -> [m EXCEPT !.disp = TRUE]
    [] e.e = "ss" -> [m EXCEPT !.act = @ \cup {e.h}]
    [] e.e = "su" -> FlagIf(m.out = "" /\ ~m.cx /\ e.t < m.dl, [m EXCEPT !.act = @ \ {e.h}], "early")
    [] e.e = "id" -> FlagIf(m.mode # "" /\ ~m.ret /\ (m.out # "" \/ m.cx), m, "hang")
    [] OTHER -> m

(* ---------------------------------------------------- virtual-time loop -- *)
(* times in microseconds; sn h  call_soon;  la h x  call_later by x;        *)
(* at h x  call_at;  ca h  cancelled;  cb h  callback h runs;  id  the end  *)
LBoot == [clock |-> 0, ready |-> <<>>, timers |-> {}, canc |-> {}, ran |-> {}, bad |-> {}]
LCb(m, e) ==
  LET rd == SelectSeq(m.ready, LAMBDA x : x \notin m.canc)
      tm == {x \in m.timers : x[1] \notin m.canc}
      m0 == [m EXCEPT !.ran = @ \cup {e.h}]
  IN IF e.h \in m.ran THEN Flag(m, "twice")
     ELSE IF e.h \in m.canc THEN Flag(m0, "cancelled")
     ELSE IF e.h \in Rng(rd) THEN
       LET m1 == [m0 EXCEPT !.ready = Without(rd, {e.h})]
       IN FlagIf(e.t # m.clock, FlagIf(rd[1] # e.h, m1, "fifo"), "clock")
     ELSE IF \E x \in tm : x[1] = e.h THEN
       LET x == CHOOSE y \in tm : y[1] = e.h
           c == Max2(m.clock, x[2])
           m1 == [m0 EXCEPT !.timers = tm \ {x}, !.clock = Max2(c, e.t)]
           m2 == FlagIf(c > m.clock /\ rd # <<>>, m1, "jump")
           m3 == FlagIf(c > m.clock /\ \E y \in tm : y[2] < x[2], m2, "order")
       IN FlagIf(e.t # c, m3, "clock")
     ELSE Flag(m0, "ghost")
LDo(m, e) ==
  LET ck == IF e.e \in {"sn", "la", "at", "ca"} THEN FlagIf(e.t # m.clock, m, "clock") ELSE m IN
  CASE e.e = "sn" -> [ck EXCEPT !.ready = Append(@, e.h)]
    [] e.e = "la" -> [ck EXCEPT !.timers = @ \cup {<<e.h, m.clock + e.x>>}]
    [] e.e = "at" -> [ck EXCEPT !.timers = @ \cup {<<e.h, e.x>>}]
    [] e.e = "ca" -> IF e.h \in m.ran THEN ck ELSE [ck EXCEPT !.canc = @ \cup {e.h}]
    [] e.e = "cb" -> LCb(m, e)
    [] e.e = "id" -> FlagIf((Rng(m.ready) \cup {x[1] : x \in m.timers}) \ m.canc # {}, m, "missed")
    [] OTHER -> m

(* ------------------------------------------------------- test observer -- *)
(* in/ir, cb/ce as for run; rv k v x  next recorded entry, time x; rd  end   *)
OBoot == [X |-> <<>>, j |-> 0, P |-> <<>>, bad |-> {}]
\* cbtwice: a second call for the same notification; cbmore: anything else too many
OCb(m, e) ==
  LET C == {p \in 1..Len(m.P) : m.P[p].st = "run" /\ m.P[p].k = e.k /\ m.P[p].v = e.v}
      D == {p \in C : m.P[p].due}
      S == {p \in C : ~m.P[p].due /\ ~m.P[p].two}
  IN IF D # {} THEN [m EXCEPT !.P[MinOf(D)].due = FALSE]
     ELSE IF S # {} THEN Flag([m EXCEPT !.P[MinOf(S)].two = TRUE], "cbtwice")
     ELSE Flag(m, "cbmore")
ODo(m, e) ==
  CASE e.e = "in" -> [m EXCEPT !.P = Append(@, [k |-> e.k, v |-> e.v, st |-> "run", due |-> TRUE, two |-> FALSE, exc |-> 0]),
                               !.X = Append(@, <<e.k, e.v, e.t>>)]
    [] e.e = "ir" -> FlagIf(m.P[e.h].due, FlagIf(e.x # 0 /\ e.x # m.P[e.h].exc, [m EXCEPT !.P[e.h].st = "ret"], "raise"), "cbless")
    [] e.e = "cb" -> OCb(m, e)
    [] e.e = "ce" -> RCe(m, e)
    [] e.e = "rv" -> FlagIf(m.j + 1 > Len(m.X) \/ m.X[Max2(1, m.j + 1)] # <<e.k, e.v, e.x>>, [m EXCEPT !.j = @ + 1], "record")
    [] e.e = "rd" -> FlagIf(m.j # Len(m.X), m, "record")
    [] e.e = "id" -> FlagIf(\E p \in 1..Len(m.P) : m.P[p].st = "run", m, "hang")
    [] OTHER -> m

(* -------------------------------------------------------- test subjects -- *)
(* sc h k v x  a push of k v is scheduled for time x;  ob k v                *)
CBoot == [todo |-> {}, over |-> -1, bad |-> {}]
COb(m, e) ==
  LET C == {x \in m.todo : x.k = e.k /\ x.v = e.v}
      D == {x \in C : x.d = e.t}
      m0 == [m EXCEPT !.over = IF e.k # "n" THEN e.t ELSE @]
  IN IF m.over >= 0 THEN Flag(m0, "grammar")
     ELSE IF D # {} THEN [m0 EXCEPT !.todo = @ \ {CHOOSE x \in D : TRUE}]
     ELSE IF C # {} THEN LET x == CHOOSE y \in C : TRUE IN Flag([m0 EXCEPT !.todo = @ \ {x}], IF x.d > e.t THEN "soon" ELSE "late")
     ELSE Flag(m0, "ghost")
CDo(m, e) ==
  CASE e.e = "sc" -> [m EXCEPT !.todo = @ \cup {[h |-> e.h, k |-> e.k, v |-> e.v, d |-> e.x]}]
    [] e.e = "ob" -> COb(m, e)
    [] e.e = "sx" -> Flag(m, "raise")
    [] e.e = "id" -> FlagIf(m.over < 0 /\ \E x \in m.todo : x.d <= e.t, m, "lost")
    [] OTHER -> m

(* --------------------------------------------------------------- bridge -- *)
(* sb; ss h / su h the asynchronous source;  in/ir;  ob k v;  db / de        *)
BBoot == [exp |-> <<>>, act |-> {}, disp |-> 0, over |-> FALSE, P |-> <<>>, nsub |-> 0, open |-> 0, bad |-> {}]
BOb(m, e) ==
  LET m0 == [m EXCEPT !.over = @ \/ e.k # "n"]
  IN IF m.disp = 2 THEN Flag(m0, "silence")
     ELSE IF m.over THEN Flag(m0, "grammar")
     ELSE IF m.exp = <<>> \/ m.exp[1] # <<e.k, e.v>> THEN Flag(m0, "wrong")
     ELSE [m0 EXCEPT !.exp = Tail(@)]
BId(m) ==
  LET m1 == FlagIf(m.disp = 0 /\ ~m.over /\ m.exp # <<>>, m, "lost")
      m2 == FlagIf(m.disp = 2 /\ m.act # {}, m1, "detach")
  IN FlagIf(m.disp = 0 /\ m.nsub = 0, m2, "starve")
BDo(m, e) ==
  CASE e.e = "ss" -> FlagIf(m.nsub > 0, [m EXCEPT !.act = @ \cup {e.h}, !.nsub = @ + 1], "sub")
    [] e.e = "su" -> FlagIf(m.disp = 0 /\ ~m.over /\ e.h \in m.act, [m EXCEPT !.act = @ \ {e.h}], "early")
    [] e.e = "in" -> [m EXCEPT !.exp = IF m.disp = 0 THEN Append(@, <<e.k, e.v>>) ELSE @,
                               !.act = IF e.k = "n" THEN @ ELSE {}]
    [] e.e = "ir" -> FlagIf(e.x # 0 /\ m.disp = 0, m, "raise")
    [] e.e = "ob" -> BOb(m, e)
    [] e.e = "db" -> [m EXCEPT !.disp = Max2(@, 1), !.open = @ + 1]
    [] e.e = "de" -> FlagIf(e.x # 0, [m EXCEPT !.disp = 2, !.open = @ - 1], "undone")
    [] e.e = "id" -> BId(Undone(m))
    [] OTHER -> m

(* -------------------------------------------------------- notifications -- *)
(* mk h k x    notification h of kind k and content class x is made          *)
(* pm h k v    matching h shows kind k and the content of notification v[1]   *)
(* ab h x      acceptance h of notification x begins;  ar h x  it ends (x: exc) *)
(* cb h k v / ce h x   it calls the function for k with the content of v[1]  *)
(* eq v x      comparing v[1] with v[2] (0: something else) gave x           *)
NBoot == [N |-> <<>>, A |-> <<>>, bad |-> {}]
NCb(m, e) ==
  LET a == m.A[e.h]
      m0 == FlagIf(a.st # "run" \/ a.got # 0, [m EXCEPT !.A[e.h].got = 1], "more")
  IN FlagIf(e.k # m.N[a.n].k \/ e.v # <<a.n>>, m0, "wrong")
NAr(m, e) ==
  LET a == m.A[e.h]
      m0 == [m EXCEPT !.A[e.h].st = "ret"]
      m1 == FlagIf(a.got = 0, m0, "less")
      m2 == FlagIf(a.got = 1, m1, "bp")
      m3 == FlagIf(a.exc # 0 /\ e.x = 0, m2, "swallow")
  IN FlagIf(e.x # 0 /\ e.x # a.exc, m3, "raise")
NSame(m, v) == v[2] # 0 /\ m.N[v[1]].k = m.N[v[2]].k /\ (m.N[v[1]].k = "c" \/ m.N[v[1]].c = m.N[v[2]].c)
NDo(m, e) ==
  CASE e.e = "mk" -> [m EXCEPT !.N = Append(@, [k |-> e.k, c |-> e.x])]
    [] e.e = "pm" -> FlagIf(e.k # m.N[e.h].k \/ e.v # <<e.h>>, m, "wrong")
    [] e.e = "ab" -> [m EXCEPT !.A = Append(@, [n |-> e.x, st |-> "run", got |-> 0, exc |-> 0])]
    [] e.e = "cb" -> NCb(m, e)
    [] e.e = "ce" -> [m EXCEPT !.A[e.h].got = 2, !.A[e.h].exc = e.x]
    [] e.e = "ar" -> NAr(m, e)
    [] e.e = "eq" -> FlagIf(e.x # IF NSame(m, e.v) THEN 1 ELSE 0, m, "equal")
    [] e.e = "id" -> FlagIf(\E a \in 1..Len(m.A) : m.A[a].st = "run" /\ m.A[a].got # 1, m, "hang")
    [] OTHER -> m

(* ---------------------------------------------- arguments without meaning -- *)
(* ag k h x    operator k with argument h was refused (1) or accepted (0)    *)
XBoot == [bad |-> {}]
XDo(m, e) == IF e.e # "ag" THEN m ELSE FlagIf(e.h < 0 /\ e.x = 0, FlagIf(e.h >= 0 /\ e.x = 1, m, "refused"), "allowed")

(* ---------------------------------------- sequences without subscription -- *)
(* ss h / su h  source h is being subscribed / unsubscribed;  in h k  it sends *)
(* sf h x v    subscribing h failed with x; v[1]: its only way out is the      *)
(*             observer's error, v[2]: a newer sequence has replaced it        *)
(* sx x        the subscribe call (or iteration, or run) raised x (0: gave up) *)
(* ob k v      the observer is notified;  db / de  disposing                   *)
FBoot == [due |-> FALSE, strict |-> FALSE, known |-> {}, act |-> {}, over |-> FALSE, disp |-> 0, open |-> 0, bad |-> {}]
FSf(m, e) ==
  LET on == ~m.over /\ m.disp = 0
  IN [m EXCEPT !.known = @ \cup {e.x}, !.act = @ \ {e.h}, !.due = @ \/ (on /\ e.v[2] = 0), !.strict = @ \/ (on /\ e.v[1] = 1 /\ e.v[2] = 0)]
FOb(m, e) ==
  LET m0 == [m EXCEPT !.over = @ \/ e.k # "n"]
      m1 == FlagIf(m.over, m0, "grammar")
      m2 == FlagIf(m.disp = 2, m1, "silence")
      m3 == FlagIf(e.k = "e" /\ \A x \in m.known : e.v # <<-x>>, m2, "wrong")
  IN FlagIf(e.k = "c" /\ m.strict /\ ~m.over, m3, "wrong")
FSx(m, e) ==
  LET m0 == [m EXCEPT !.over = TRUE]
  IN IF e.x = 0 THEN FlagIf(m.due /\ ~m.over, m0, "lost") ELSE FlagIf(e.x \notin m.known, m0, "wrong")
FId(m) ==
  LET m1 == FlagIf(m.due /\ ~m.over /\ m.disp = 0, m, "lost")
  IN FlagIf((m.over \/ m.disp = 2) /\ m.act # {}, m1, "detach")
FDo(m, e) ==
  CASE e.e = "ss" -> [m EXCEPT !.act = @ \cup {e.h}]
    [] e.e = "su" -> [m EXCEPT !.act = @ \ {e.h}]
    [] e.e = "in" -> [m EXCEPT !.act = IF e.k = "n" THEN @ ELSE @ \ {e.h}]
    [] e.e = "sf" -> FSf(m, e)
    [] e.e = "sx" -> FSx(m, e)
    [] e.e = "ob" -> FOb(m, e)
    [] e.e = "db" -> [m EXCEPT !.disp = Max2(@, 1), !.open = @ + 1]
    [] e.e = "de" -> FlagIf(e.x # 0, [m EXCEPT !.disp = 2, !.open = @ - 1], "undone")
    [] e.e = "id" -> FId(Undone(m))
    [] OTHER -> m

(* ------------------------------------------------------------ machinery -- *)
Boot(n) == CASE T(n).kind = "subject" -> SBoot [] T(n).kind = "single" -> GBoot [] T(n).kind = "iter" -> IBoot
             [] T(n).kind = "run" -> RBoot [] T(n).kind = "vloop" -> LBoot [] T(n).kind = "rec" -> OBoot
             [] T(n).kind = "sched" -> CBoot [] T(n).kind = "bridge" -> BBoot
             [] T(n).kind = "note" -> NBoot [] T(n).kind = "args" -> XBoot [] T(n).kind = "fail" -> FBoot
Do(kind, m, e) ==
  IF e.e = "bad" THEN Flag(m, e.k)
  ELSE CASE kind = "subject" -> SDo(m, e) [] kind = "single" -> GDo(m, e) [] kind = "iter" -> IDo(m, e)
         [] kind = "run" -> RDo(m, e) [] kind = "vloop" -> LDo(m, e) [] kind = "rec" -> ODo(m, e)
         [] kind = "sched" -> CDo(m, e) [] kind = "bridge" -> BDo(m, e)
         [] kind = "note" -> NDo(m, e) [] kind = "args" -> XDo(m, e) [] kind = "fail" -> FDo(m, e)

Init == tid \in 1..Len(Traces) /\ i = 0 /\ M = Boot(tid)
Next == /\ i < Len(T(tid).ev)
        /\ i' = i + 1
        /\ tid' = tid
        /\ LET e == T(tid).ev[i + 1]
               m == Do(T(tid).kind, M, e)
               new == m.bad \ M.bad
           IN /\ M' = m
              /\ \A c \in new : PrintT("@BAD " \o ToString(tid) \o " " \o ToString(i + 1) \o " " \o c)
View == <<tid, i>>
Spec == Init /\ [][Next]_<<tid, i, M>>
=============================================================================
