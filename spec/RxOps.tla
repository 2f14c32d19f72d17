------------------------------- MODULE RxOps -------------------------------
(***************************************************************************)
(* Operator semantics of aioreactive, one Mealy machine per operator.      *)
(*                                                                         *)
(* A pipeline is a head (how many sources there are and how they are       *)
(* combined) followed by single-input stages.  The environment (RxGen) or  *)
(* a recorded execution (RxTrace) feeds it two kinds of events:            *)
(*     subscription of source `src` (gives the next handle number)         *)
(*     notification `ev` arriving from handle h                            *)
(* and the machine answers with the notifications the observer must get.   *)
(*                                                                         *)
(* Values are sequences of integers: <<3>> is value number 3, a pair is    *)
(* <<a, b>>, applying function f is <<f, ...>>, folding is concatenation,  *)
(* so every output carries its full provenance (free algebra).             *)
(*     1..99      value ids          201..  function tags                  *)
(*     1000+i     integer i          -x     exception number x             *)
(*                                                                         *)
(* Event: k in {"n","e","c"}, v, d (earliest time, ms), opt (TRUE when the *)
(* implementation may deliver it or not: switching races).                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

None == 999                        \* absent slice bound

Ev(k, v, t) == [k |-> k, v |-> v, d |-> t, opt |-> FALSE]
Rng(s) == {s[i] : i \in 1..Len(s)}
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
First(s, n) == SubSeq(s, 1, Min2(n, Len(s)))
Rest(s, n) == SubSeq(s, n + 1, Len(s))

\* The id that predicates look at: the first plain value id in the value.
RECURSIVE KeyAt(_, _)
KeyAt(v, i) == IF i > Len(v) THEN 0
               ELSE IF v[i] >= 1 /\ v[i] <= 99 THEN v[i] ELSE KeyAt(v, i + 1)
Key(v) == KeyAt(v, 1)

(***************************************************************************)
(* Single-input operators.  o.op, o.n, o.m, o.tag, o.ks, o.rs              *)
(***************************************************************************)
MapLike == {"map", "map_async", "starmap", "starmap_async"}
MapIdx == {"mapi", "mapi_async"}
FilterLike == {"filter", "filter_async", "starfilter"}
ChooseLike == {"choose", "choose_async"}
Elementwise == MapLike \cup MapIdx \cup FilterLike \cup ChooseLike \cup {"filteri"}
ScanLike == {"scan", "scan_async"}
ReduceLike == {"reduce", "reduce_async"}
Direct == MapLike \cup FilterLike \cup ChooseLike \cup ScanLike \cup {"id"}
AsyncFn == {"map_async", "mapi_async", "filter_async", "choose_async", "starmap_async",
            "scan_async", "reduce_async"}
Timed == {"delay", "debounce"}
Op(name, n) == [op |-> name, n |-> n, m |-> 0, tag |-> 0, ks |-> <<>>, rs |-> <<>>]

SInit(o) ==
  [c |-> 0, q |-> <<>>, done |-> FALSE,
   a |-> IF o.op \in ScanLike \cup ReduceLike THEN <<o.tag>> ELSE <<>>,
   t |-> 0, last |-> -1]

Same(s) == [s |-> s, out |-> <<>>, r |-> 0]
Outs(s, out) == [s |-> s, out |-> out, r |-> 0]
End(s, out) == [s |-> [s EXCEPT !.done = TRUE], out |-> out, r |-> 0]
\* opt terminals do not stop the machine: the implementation may drop them
EndOpt(s, ev) == IF ev.opt THEN Outs(s, <<ev>>) ELSE End(s, <<ev>>)

ErrEv(ev, x) == [k |-> "e", v |-> <<-x>>, d |-> ev.d, opt |-> FALSE]
DoneEv(ev) == [k |-> "c", v |-> <<>>, d |-> ev.d, opt |-> FALSE]

\* An accumulator collects the values, but gives its state back as it was for the keys o.ks.
Fold(o, a, v) == IF Key(v) \in Rng(o.ks) THEN a ELSE a \o v

\* g: is there a guard upstream that turns an exception into an error?
SNext(o, s, ev, g) ==
  LET v == ev.v
      key == Key(v)
      raises == key \in Rng(o.rs)
      fn == o.op \in Elementwise
      idx == s.c
      s1 == [s EXCEPT !.c = @ + 1]
      emit(w) == Outs(s1, <<[ev EXCEPT !.v = w]>>)
      drop == Same(s1)
  IN
  IF fn /\ raises THEN
     IF g \/ o.op \in MapIdx \cup {"filteri"}
     THEN End(s1, <<ErrEv(ev, o.m)>>)
     ELSE [s |-> s1, out |-> <<>>, r |-> o.m]
  ELSE CASE o.op \in MapLike \cup MapIdx /\ key \in Rng(o.ks) -> emit(v)   \* the function returns its argument
    [] o.op \in MapLike -> emit(<<o.tag>> \o v)
    [] o.op \in MapIdx -> emit(<<o.tag>> \o v \o <<1000 + idx>>)
    [] o.op \in FilterLike -> IF key \in Rng(o.ks) THEN emit(v) ELSE drop
    [] o.op \in ChooseLike -> IF key \in Rng(o.ks) THEN emit(<<o.tag>> \o v) ELSE drop
    [] o.op = "filteri" -> IF idx \in Rng(o.ks) THEN emit(v) ELSE drop
    [] o.op = "every" -> IF idx % o.n = 0 THEN emit(v) ELSE drop
    [] o.op = "skip" -> IF idx < o.n THEN drop ELSE emit(v)
    [] o.op = "take" ->
         IF idx + 1 < o.n THEN emit(v)
         ELSE IF idx + 1 = o.n THEN End(s1, <<ev, DoneEv(ev)>>)
         ELSE drop
    [] o.op = "skip_last" ->
         LET q == Append(s.q, v) IN
         IF Len(q) > o.n THEN Outs([s1 EXCEPT !.q = Tail(q)], <<[ev EXCEPT !.v = q[1]]>>)
         ELSE Outs([s1 EXCEPT !.q = q], <<>>)
    [] o.op = "take_last" ->
         LET q == Append(s.q, v) IN
         Outs([s1 EXCEPT !.q = IF Len(q) > o.n THEN Tail(q) ELSE q], <<>>)
    [] o.op = "distinct" ->
         LET c == IF key \in 1..Len(o.ks) THEN o.ks[key] ELSE 0 IN
         IF s.c > 0 /\ (raises \/ s.last = -1) THEN End(s1, <<ErrEv(ev, o.m)>>)  \* comparing them raises
         ELSE IF raises THEN Outs([s1 EXCEPT !.last = -1], <<ev>>)
         ELSE IF c # 0 /\ s.last > 0 /\ c - s.last <= o.n /\ s.last - c <= o.n
         THEN Outs([s1 EXCEPT !.last = c], <<>>)
         ELSE Outs([s1 EXCEPT !.last = c], <<ev>>)
    [] o.op \in ScanLike ->
         IF raises THEN End(s1, <<ErrEv(ev, o.m)>>)
         ELSE LET w == Fold(o, s.a, v) IN Outs([s1 EXCEPT !.a = w], <<[ev EXCEPT !.v = w]>>)
    [] o.op \in ReduceLike ->
         IF raises THEN End(s1, <<ErrEv(ev, o.m)>>)
         ELSE Outs([s1 EXCEPT !.a = Fold(o, @, v)], <<>>)
    [] o.op = "zip" ->
         IF idx < Len(o.ks) THEN emit(v \o <<o.ks[idx + 1]>>)
         ELSE IF o.m # 0 THEN End(s1, <<ErrEv(ev, o.m)>>)   \* the iterable raises
         ELSE End(s1, <<DoneEv(ev)>>)
    [] o.op = "delay" -> Outs(s1, <<[ev EXCEPT !.d = @ + o.n]>>)
    [] o.op = "debounce" -> Outs([s1 EXCEPT !.q = <<v>>, !.t = ev.d + o.n], <<>>)
    [] OTHER -> emit(v)

SEnd(o, s, ev) ==
  CASE o.op = "delay" -> End(s, <<[ev EXCEPT !.d = @ + o.n]>>)
    [] o.op = "debounce" -> End([s EXCEPT !.q = <<>>], <<ev>>)
    [] o.op = "take_last" /\ ev.k = "c" ->
         End(s, [i \in 1..Len(s.q) |-> [k |-> "n", v |-> s.q[i], d |-> ev.d, opt |-> FALSE]] \o <<ev>>)
    [] o.op \in ReduceLike /\ ev.k = "c" /\ s.c > 0 ->
         End(s, <<[k |-> "n", v |-> s.a, d |-> ev.d, opt |-> FALSE], ev>>)
    [] OTHER -> EndOpt(s, ev)

SStep(o, s, ev, g) ==
  IF s.done THEN Same(s)
  ELSE IF ev.k = "n" THEN SNext(o, s, ev, g) ELSE SEnd(o, s, ev)

\* Passage of time: what a stage emits by itself up to time t.
STick(o, s, t) ==
  IF o.op = "debounce" /\ ~s.done /\ s.q # <<>> /\ s.t <= t
  THEN Outs([s EXCEPT !.q = <<>>], <<[k |-> "n", v |-> s.q[1], d |-> s.t, opt |-> FALSE]>>)
  ELSE Same(s)

(***************************************************************************)
(* slice(start, stop, step) is a composition; RxGen checks that it agrees  *)
(* with Python's slicing of the whole list.                                *)
(***************************************************************************)
SliceOps(o) ==
  LET start == o.n  stop == o.m  step == o.tag
      p1 == IF start = None THEN <<>>
            ELSE IF start < 0 THEN <<Op("take_last", -start)>> ELSE <<Op("skip", start)>>
      st == IF start = None THEN 0 ELSE start
      p2 == IF stop = None THEN <<>>
            ELSE IF stop >= 0 THEN <<Op("take", Max2(stop - st, 0))>>
            ELSE <<Op("skip_last", -stop)>>
      p3 == IF step > 1 THEN <<Op("every", step)>> ELSE <<>>
  IN p1 \o p2 \o p3

RECURSIVE Expand(_)
Expand(ops) ==
  IF ops = <<>> THEN <<>>
  ELSE (IF ops[1].op = "slice" THEN SliceOps(ops[1]) ELSE <<ops[1]>>) \o Expand(Tail(ops))

(***************************************************************************)
(* Heads.  h.op, h.n (limit / count), h.ks (table), h.m                    *)
(***************************************************************************)
MergeDyn == {"merge_inner", "flat_map", "flat_mapi", "flat_map_async", "flat_mapi_async", "concat_map"}
MergeStat == {"merge", "merge_seq", "concat", "concat_seq"}
SwitchLike == {"switch_latest", "flat_map_latest", "flat_map_latest_async"}
Creator == {"from_iterable", "from_async_iterable", "single", "empty", "never", "fail",
            "from_async", "defer"}
Clock == {"interval", "timer"}
HeadGuarded(h) == h.op \in MergeDyn \cup MergeStat \cup SwitchLike \cup Creator
                          \cup Clock \cup {"combine_latest", "with_latest_from", "take_until"}
Limit(h) == IF h.op \in {"concat", "concat_seq", "concat_map"} THEN 1
            ELSE IF h.op = "merge_inner" THEN h.n ELSE 0

\* Which source does the outer value v stand for?
InnerOf(h, v) == IF h.op \in {"merge_inner", "switch_latest"} THEN v[1] ELSE 10 + Key(v)

HInit(h) ==
  [hs |-> <<>>,             \* handle -> source
   act |-> {},              \* live inner handles (merging)
   q |-> IF h.op \in MergeStat THEN [i \in 1..h.n |-> i] ELSE <<>>,
   stop |-> h.op \in MergeStat,
   outer |-> 0, cur |-> 0, curdone |-> FALSE,
   l1 |-> <<>>, l2 |-> <<>>,
   want |-> 0, left |-> h.n,
   i |-> 0, due |-> h.n, busy |-> FALSE, lag |-> FALSE,
   done |-> FALSE]

\* Sources the head may subscribe to next (nothing once done).
Want(h, s) ==
  CASE s.done -> {}
    [] h.op = "one" -> IF s.hs = <<>> THEN {1} ELSE {}
    [] h.op \in {"combine_latest", "with_latest_from", "take_until"} -> {1, 2} \ Rng(s.hs)
    [] h.op \in MergeDyn ->
         IF s.outer = 0 THEN {1}
         ELSE IF s.q # <<>> /\ (Limit(h) = 0 \/ Cardinality(s.act) < Limit(h)) THEN {s.q[1]} ELSE {}
    [] h.op \in MergeStat ->
         IF s.q # <<>> /\ (Limit(h) = 0 \/ Cardinality(s.act) < Limit(h)) THEN {s.q[1]} ELSE {}
    [] h.op \in SwitchLike -> IF s.outer = 0 THEN {1} ELSE Rng(s.q)
    [] h.op \in {"catch", "retry"} ->
         IF s.hs = <<>> THEN {1} ELSE IF s.want # 0 THEN {s.want} ELSE {}
    [] OTHER -> {}

\* Handles that have been superseded and must be given up.
Superseded(h, s) ==
  IF h.op \in SwitchLike
  THEN {i \in 1..Len(s.hs) : i # s.outer /\ (i # s.cur \/ s.q # <<>>)}
  ELSE IF h.op \in {"catch", "retry"} THEN {i \in 1..Len(s.hs) : i # s.cur}
  ELSE {}

RECURSIVE IndexOf(_, _, _)
IndexOf(s, x, i) == IF i > Len(s) THEN 0 ELSE IF s[i] = x THEN i ELSE IndexOf(s, x, i + 1)

\* src is subscribed (src \in Want): the new handle is Len(hs)+1.
OnSub(h, s, src) ==
  LET n == Len(s.hs) + 1
      s1 == [s EXCEPT !.hs = Append(@, src)]
  IN CASE h.op \in MergeDyn ->
            IF s.outer = 0 THEN [s1 EXCEPT !.outer = n]
            ELSE [s1 EXCEPT !.act = @ \cup {n}, !.q = Tail(@)]
       [] h.op \in MergeStat -> [s1 EXCEPT !.act = @ \cup {n}, !.q = Tail(@)]
       [] h.op \in SwitchLike ->
            IF s.outer = 0 THEN [s1 EXCEPT !.outer = n]
            ELSE [s1 EXCEPT !.cur = n, !.curdone = FALSE, !.q = Rest(s.q, IndexOf(s.q, src, 1))]
       [] h.op \in {"catch", "retry"} -> [s1 EXCEPT !.cur = n, !.want = 0]
       [] OTHER -> s1

HOuts(s, out) == [s |-> s, out |-> out]
HEnd(s, out) == [s |-> [s EXCEPT !.done = TRUE], out |-> out]

\* flat_mapi buffers the outer sequence before merging, so its error may be overtaken by inner events
\* (h.m = 1: the trace validator allows that; RxGen, where nothing takes time, does not).
Lagging == {"flat_mapi", "flat_mapi_async"}

MergeStep(h, s, n, ev) ==
  IF s.lag THEN
     CASE n = s.outer -> HOuts(s, <<>>)
       [] ev.k = "c" -> HOuts([s EXCEPT !.act = @ \ {n}], <<>>)
       [] OTHER -> HOuts(s, <<[ev EXCEPT !.opt = TRUE]>>)
  ELSE IF n = s.outer /\ n # 0 THEN
     CASE ev.k = "n" -> HOuts([s EXCEPT !.q = Append(@, InnerOf(h, ev.v))], <<>>)
       [] ev.k = "e" -> IF h.op \in Lagging /\ h.m = 1 THEN HOuts([s EXCEPT !.lag = TRUE], <<ev>>)
                        ELSE HEnd(s, <<ev>>)
       [] OTHER -> IF s.act = {} /\ s.q = <<>> THEN HEnd(s, <<ev>>)
                   ELSE HOuts([s EXCEPT !.stop = TRUE], <<>>)
  ELSE
     CASE ev.k = "n" -> HOuts(s, <<ev>>)
       [] ev.k = "e" -> HEnd(s, <<ev>>)
       [] OTHER -> LET s1 == [s EXCEPT !.act = @ \ {n}] IN
                   IF s1.stop /\ s1.act = {} /\ s1.q = <<>> THEN HEnd(s1, <<ev>>) ELSE HOuts(s1, <<>>)

SwitchStep(h, s, n, ev) ==
  LET live == n = s.cur
      may == s.q # <<>>             \* a newer inner is on its way
      oev == [ev EXCEPT !.opt = may]
  IN
  IF n = s.outer THEN
     CASE ev.k = "n" -> HOuts([s EXCEPT !.q = Append(@, InnerOf(h, ev.v))], <<>>)
       [] ev.k = "e" -> HEnd(s, <<ev>>)
       [] OTHER -> IF s.q = <<>> /\ (s.cur = 0 \/ s.curdone) THEN HEnd(s, <<ev>>)
                   ELSE HOuts([s EXCEPT !.stop = TRUE], <<>>)
  ELSE IF ~live THEN HOuts(s, <<>>)
  ELSE CASE ev.k = "n" -> HOuts(s, <<oev>>)
         [] ev.k = "e" -> IF may THEN HOuts([s EXCEPT !.curdone = TRUE], <<oev>>) ELSE HEnd(s, <<ev>>)
         [] OTHER -> LET s1 == [s EXCEPT !.curdone = TRUE] IN
                     IF s.stop /\ ~may THEN HEnd(s1, <<ev>>) ELSE HOuts(s1, <<>>)

CombineStep(h, s, n, ev) ==
  IF ev.k # "n" THEN HEnd(s, <<ev>>)
  ELSE LET src == s.hs[n]
           s1 == IF src = 1 THEN [s EXCEPT !.l1 = ev.v] ELSE [s EXCEPT !.l2 = ev.v]
           fire == s1.l1 # <<>> /\ s1.l2 # <<>> /\ (h.op = "combine_latest" \/ src = 1)
       IN HOuts(s1, IF fire THEN <<[ev EXCEPT !.v = s1.l1 \o s1.l2]>> ELSE <<>>)

UntilStep(h, s, n, ev) ==
  IF s.hs[n] = 2 THEN
     CASE ev.k = "n" -> HEnd(s, <<DoneEv(ev)>>)
       [] ev.k = "e" -> HEnd(s, <<ev>>)
       [] OTHER -> HOuts(s, <<>>)
  ELSE IF ev.k = "n" THEN HOuts(s, <<ev>>) ELSE HEnd(s, <<ev>>)

\* catch: h.ks[e] is the source the handler returns for exception e, or -x when it raises x.
CatchStep(h, s, n, ev) ==
  IF n # s.cur THEN HOuts(s, <<>>)
  ELSE CASE ev.k = "n" -> HOuts(s, <<ev>>)
    [] ev.k = "c" -> HEnd(s, <<ev>>)
    [] OTHER ->
       LET e == -ev.v[1]
           r == IF e \in 1..Len(h.ks) THEN h.ks[e] ELSE -e
       IN IF r > 0 THEN HOuts([s EXCEPT !.cur = 0, !.want = r], <<>>)
          ELSE HEnd(s, <<ErrEv(ev, -r)>>)

RetryStep(h, s, n, ev) ==
  IF n # s.cur THEN HOuts(s, <<>>)
  ELSE CASE ev.k = "n" -> HOuts(s, <<ev>>)
    [] ev.k = "c" -> HEnd(s, <<ev>>)
    [] OTHER -> IF s.left > 0 THEN HOuts([s EXCEPT !.cur = 0, !.want = 1, !.left = @ - 1], <<>>)
                ELSE HEnd(s, <<ev>>)

HStep(h, s, n, ev) ==
  IF s.done \/ n \notin 1..Len(s.hs) THEN HOuts(s, <<>>)
  ELSE CASE h.op = "one" -> IF ev.k = "n" THEN HOuts(s, <<ev>>) ELSE HEnd(s, <<ev>>)
    [] h.op \in MergeDyn \cup MergeStat -> MergeStep(h, s, n, ev)
    [] h.op \in SwitchLike -> SwitchStep(h, s, n, ev)
    [] h.op \in {"combine_latest", "with_latest_from"} -> CombineStep(h, s, n, ev)
    [] h.op = "take_until" -> UntilStep(h, s, n, ev)
    [] h.op = "catch" -> CatchStep(h, s, n, ev)
    [] h.op = "retry" -> RetryStep(h, s, n, ev)
    [] OTHER -> HOuts(s, <<>>)

\* What a creator emits: items h.ks, then the end h.m (0 completion, x > 0 exception x, -1 nothing),
\* not before h.n milliseconds after subscribing.
CreatorOuts(h, t) ==
  IF h.op \notin Creator THEN <<>>
  ELSE [i \in 1..Len(h.ks) |-> Ev("n", <<h.ks[i]>>, t + h.n)]
       \o (IF h.m = 0 THEN <<Ev("c", <<>>, t + h.n)>>
           ELSE IF h.m > 0 THEN <<Ev("e", <<-h.m>>, t + h.n)>> ELSE <<>>)

\* An empty static merge (merge_seq of nothing) completes at once.
StartOuts(h, t) == IF h.op \in MergeStat /\ h.n = 0 THEN <<Ev("c", <<>>, t)>> ELSE CreatorOuts(h, t)
StartState(h, s) == IF StartOuts(h, 0) # <<>> /\ h.m # -1 THEN [s EXCEPT !.done = TRUE] ELSE s

\* interval(h.n, h.m): fires at s.due, then waits for the consumer.
HTick(h, s, t) ==
  IF h.op \in Clock /\ ~s.done /\ ~s.busy /\ s.due <= t
  THEN [s |-> [s EXCEPT !.busy = TRUE], out |-> <<Ev("n", <<1000 + s.i>>, s.due)>>]
  ELSE HOuts(s, <<>>)

\* The consumer has handled the tick at time t.
HHandled(h, s, t) ==
  IF h.op \in Clock /\ s.busy /\ ~s.done
  THEN IF h.m = 0 THEN HEnd([s EXCEPT !.busy = FALSE], <<Ev("c", <<>>, t)>>)
       ELSE HOuts([s EXCEPT !.busy = FALSE, !.i = @ + 1, !.due = t + h.m], <<>>)
  ELSE HOuts(s, <<>>)

(***************************************************************************)
(* Pipelines                                                               *)
(***************************************************************************)
OpGuarded(o) == o.op \notin Direct
GuardBefore(h, ops, k) == HeadGuarded(h) \/ \E j \in 1..(k - 1) : OpGuarded(ops[j])
Guarded(h, ops) == GuardBefore(h, ops, Len(ops) + 1)
\* Nothing between head and observer buffers, so the observer holds the head up.
Straight(ops) == \A j \in 1..Len(ops) : ops[j].op \in Direct
\* Operators between a source and the head: h.pre[1] for source 1, h.pre[2] for the others.
PreOps(h, src) == IF h.pre = <<>> THEN <<>> ELSE Expand(h.pre[IF src = 1 THEN 1 ELSE 2])
Unbuffered(h, ops) == h.op \in {"one", "catch", "retry"} /\ Straight(ops) /\ Straight(PreOps(h, 1)) /\ Straight(PreOps(h, 2))

SInits(ops) == [k \in 1..Len(ops) |-> SInit(ops[k])]
PInit(h, ops) == [h |-> StartState(h, HInit(h)), s |-> SInits(ops), pre |-> <<>>]

RECURSIVE Feed(_, _, _, _, _, _)
\* Feed the events evs into stage k; r collects a user function exception nobody handles.
Feed(h, ops, sts, k, evs, r) ==
  IF evs = <<>> \/ k > Len(ops) THEN [s |-> sts, out |-> IF k > Len(ops) THEN evs ELSE <<>>, r |-> r]
  ELSE LET x == SStep(ops[k], sts[k], evs[1], GuardBefore(h, ops, k))
           y == Feed(h, ops, [sts EXCEPT ![k] = x.s], k + 1, x.out, IF r = 0 THEN x.r ELSE r)
           z == Feed(h, ops, y.s, k, Tail(evs), y.r)
       IN [s |-> z.s, out |-> y.out \o z.out, r |-> z.r]

PFeed(h, ops, P, hs, evs) ==
  LET x == Feed(h, ops, P.s, 1, evs, 0)
  IN [P |-> [P EXCEPT !.h = hs, !.s = x.s], out |-> x.out, r |-> x.r]

PStart(h, ops, P, t) == PFeed(h, ops, P, P.h, StartOuts(h, t))
\* The function of flat_map and its relatives raises exception h.tag for the keys h.rs.
MapperRaises(h, s, n, ev) == n = s.outer /\ n # 0 /\ ev.k = "n" /\ Key(ev.v) \in Rng(h.rs)
PIn(h, ops, P, n, ev) ==
  IF ~MapperRaises(h, P.h, n, ev) THEN LET x == HStep(h, P.h, n, ev) IN PFeed(h, ops, P, x.s, x.out)
  ELSE IF h.op \in Lagging THEN LET x == HStep(h, P.h, n, ErrEv(ev, h.tag)) IN PFeed(h, ops, P, x.s, x.out)
  ELSE [P |-> P, out |-> <<>>, r |-> h.tag]
RECURSIVE PIns(_, _, _, _, _)
PIns(h, ops, P, n, evs) ==
  IF evs = <<>> THEN [P |-> P, out |-> <<>>, r |-> 0]
  ELSE LET x == PIn(h, ops, P, n, evs[1])
           y == PIns(h, ops, x.P, n, Tail(evs))
       IN [P |-> y.P, out |-> x.out \o y.out, r |-> IF x.r # 0 THEN x.r ELSE y.r]
\* The event ev arrives on handle n.
PStep(h, ops, P, n, ev) ==
  IF h.pre = <<>> \/ n \notin 1..Len(P.pre) \/ P.h.hs[n] = 0 THEN PIn(h, ops, P, n, ev)
  ELSE LET x == Feed([op |-> "one"], PreOps(h, P.h.hs[n]), P.pre[n], 1, <<ev>>, 0)
           y == PIns(h, ops, [P EXCEPT !.pre[n] = x.s], n, x.out)
       IN [y EXCEPT !.r = IF x.r # 0 THEN x.r ELSE @]
PSub(h, P, src) == [P EXCEPT !.h = OnSub(h, @, src), !.pre = Append(@, SInits(PreOps(h, src)))]
\* The operators in front of handle n have ended by themselves.
PreDone(h, P, n) == h.pre # <<>> /\ n \in 1..Len(P.pre) /\ Len(P.pre[n]) > 0 /\ P.pre[n][Len(P.pre[n])].done
PWant(h, P) == Want(h, P.h)
PDone(ops, P) == IF ops = <<>> THEN P.h.done ELSE P.s[Len(ops)].done

RECURSIVE TickStages(_, _, _, _, _)
TickStages(h, ops, sts, k, t) ==
  IF k > Len(ops) THEN [s |-> sts, out |-> <<>>, r |-> 0]
  ELSE LET x == STick(ops[k], sts[k], t)
           y == Feed(h, ops, [sts EXCEPT ![k] = x.s], k + 1, x.out, 0)
           z == TickStages(h, ops, y.s, k + 1, t)
       IN [s |-> z.s, out |-> y.out \o z.out, r |-> 0]

RECURSIVE PTick(_, _, _, _, _)
\* `direct`: does the consumer of a clock head hold it up?
PTick(h, ops, P, t, direct) ==
  LET x == HTick(h, P.h, t)
      y == PFeed(h, ops, P, x.s, x.out)
      w == TickStages(h, ops, y.P.s, 1, t)
      P1 == [y.P EXCEPT !.s = w.s]
      out == y.out \o w.out
  IN IF x.out = <<>> \/ (direct /\ y.out # <<>>) THEN [P |-> P1, out |-> out]
     ELSE LET hh == HHandled(h, P1.h, x.out[1].d)
              z == PFeed(h, ops, P1, hh.s, hh.out)
              rec == PTick(h, ops, z.P, t, direct)
          IN [P |-> rec.P, out |-> out \o z.out \o rec.out]

PHandled(h, ops, P, t) == LET x == HHandled(h, P.h, t) IN PFeed(h, ops, P, x.s, x.out)
=============================================================================
