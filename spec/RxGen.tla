------------------------------- MODULE RxGen -------------------------------
(***************************************************************************)
(* The environment of a pipeline.  Exhaustively (or by simulation) TLC     *)
(*   - drives each configured pipeline with every history of source        *)
(*     events, subscriptions and disposal up to length L,                  *)
(*   - checks the operator machines of RxOps against declarative laws that *)
(*     are written independently of them (list slicing, folds, ...),       *)
(*   - prints the history as a JSON script, which harness/ replays on the  *)
(*     real code.                                                          *)
(***************************************************************************)
EXTENDS RxOps, RxSuites, TLC, Json, IOUtils, SequencesExt

CONSTANTS L,            \* script length
          EAGER,        \* TRUE: the operator subscribes as soon as it can
          EMIT,         \* TRUE: print scripts
          FULL          \* TRUE: print only scripts of full length or that cannot go on

SuiteName == IOEnv.RX_SUITE
Cfgs == Suite(SuiteName)

VARIABLES c,      \* configuration
          P,      \* pipeline state
          script, \* history of environment actions
          ins,    \* notifications that entered: [h, src, k, v]
          out,    \* notifications that left
          ended,  \* handles that ended by themselves
          nv,     \* values sent so far
          ne,     \* errors thrown so far
          disp,   \* disposed?
          now
vars == <<c, P, script, ins, out, ended, nv, ne, disp, now>>

Ops == Expand(c.ops)
Src(h) == P.h.hs[h]
Live == {h \in 1..Len(P.h.hs) : h \notin ended}
LiveSrc == {Src(h) : h \in Live}

Inner(s) == s >= 11

RECURSIVE Settle(_, _)
Settle(h, Q) == IF Want(h, Q.h) = {} THEN Q
                ELSE Settle(h, PSub(h, Q, CHOOSE x \in Want(h, Q.h) : \A y \in Want(h, Q.h) : x <= y))
Sub(h, Q) == IF EAGER THEN Settle(h, Q) ELSE Q

Init == /\ c \in Cfgs
        /\ LET x == PStart(c.head, Expand(c.ops), PInit(c.head, Expand(c.ops)), 0)
               y == PTick(c.head, Expand(c.ops), x.P, 0, FALSE)
           IN P = Sub(c.head, y.P) /\ out = x.out \o y.out
        /\ script = <<>> /\ ins = <<>> /\ ended = {} /\ nv = 0 /\ ne = 0 /\ disp = FALSE
        /\ now = 0

\* The values a source may send next.
NextVals(s) ==
  CASE c.head.op \in {"merge_inner", "switch_latest"} /\ s = 1 -> {<<10 + x>> : x \in c.inner}
    [] c.alpha = "set" -> {<<x>> : x \in Rng(c.vals)}
    [] c.alpha = "pair" -> {<<nv + 1, 40 + nv>>}
    [] c.head.op \in MergeDyn \cup SwitchLike /\ s = 1 -> {<<x>> : x \in c.inner}
    [] OTHER -> {<<nv + 1>>}

\* All live subscriptions of source s receive the event, oldest first.
RECURSIVE Push(_, _, _, _)
Push(Q, h, s, ev) ==
  IF h > Len(P.h.hs) THEN [Q |-> Q, out |-> <<>>]
  ELSE IF h \in Live /\ Src(h) = s
       THEN LET x == PStep(c.head, Ops, Q, h, ev)
                y == Push(x.P, h + 1, s, ev)
            IN [Q |-> y.Q, out |-> x.out \o y.out]
       ELSE Push(Q, h + 1, s, ev)

\* How a value is written in a script: inner sequences are 100 + source number.
Wire(s, v) == IF v # <<>> /\ c.head.op \in {"merge_inner", "switch_latest"} /\ s = 1 THEN <<100 + v[1]>> ELSE v

Event(s, k, v) ==
  LET x == Push(P, 1, s, Ev(k, v, now))
      hs == {h \in Live : Src(h) = s}
  IN /\ ins' = ins \o SetToSeq({[h |-> h, src |-> s, k |-> k, v |-> v] : h \in hs})
     /\ out' = IF disp THEN out ELSE out \o x.out
     /\ P' = IF disp THEN P ELSE Sub(c.head, x.Q)
     /\ ended' = IF k = "n" THEN ended ELSE ended \cup hs
     /\ script' = Append(script, <<"s", s, k, IF k = "e" THEN <<-v[1]>> ELSE Wire(s, v)>>)

Send(s) == /\ \E v \in NextVals(s) : Event(s, "n", v)
           /\ nv' = IF c.head.op \in MergeDyn \cup SwitchLike /\ s = 1 THEN nv ELSE nv + 1
           /\ UNCHANGED <<c, ne, disp, now>>
Throw(s) == /\ ne < c.maxerr
            /\ Event(s, "e", <<-(ne + 1)>>)
            /\ ne' = ne + 1 /\ UNCHANGED <<c, nv, disp, now>>
Close(s) == /\ Event(s, "c", <<>>)
            /\ UNCHANGED <<c, nv, ne, disp, now>>
Dispose == /\ c.dispose /\ ~disp /\ disp' = TRUE
           /\ script' = Append(script, <<"d", 1>>)
           /\ UNCHANGED <<c, P, ins, out, ended, nv, ne, now>>
Wait(ms) == /\ ms \in Rng(c.waits)
            /\ IF script = <<>> \/ c.head.op \in Clock THEN TRUE ELSE script[Len(script)][1] # "w"
            /\ LET x == PTick(c.head, Ops, P, now + ms, FALSE)
               IN P' = x.P /\ out' = IF disp THEN out ELSE out \o x.out
            /\ now' = now + ms
            /\ script' = Append(script, <<"w", ms>>)
            /\ UNCHANGED <<c, ins, ended, nv, ne, disp>>
\* Lazy subscription: the implementation takes its time.
Subscribe == /\ ~EAGER /\ ~disp
             /\ \E s \in PWant(c.head, P) : P' = PSub(c.head, P, s)
             /\ UNCHANGED <<c, script, ins, out, ended, nv, ne, disp, now>>

\* Once disposed only a little more is worth sending (late events of leaky sources).
After == \E k \in 1..Len(script) : script[k][1] = "d" /\ Len(script) > k + 1
CanGo == Len(script) < c.len /\ ~After
Step == CanGo /\ (\/ \E s \in LiveSrc : Send(s) \/ Throw(s) \/ Close(s)
                  \/ Dispose \/ \E ms \in Rng(c.waits) : Wait(ms))
Next == Step \/ Subscribe
Spec == Init /\ [][Next]_vars

Stuck == ~CanGo \/ (LiveSrc = {} /\ ~(c.dispose /\ ~disp) /\ c.waits = <<>>)
Emit == EMIT /\ (FULL => Stuck) =>
          PrintT("@S " \o ToJson([head |-> c.head, ops |-> c.ops, classes |-> c.classes, script |-> script]))

(***************************************************************************)
(* Laws                                                                    *)
(***************************************************************************)
Vals(evs) == LET ns == SelectSeq(evs, LAMBDA x : x.k = "n") IN [j \in 1..Len(ns) |-> ns[j].v]
OutVals == Vals(out)
OutEnd == IF out # <<>> /\ out[Len(out)].k # "n" THEN out[Len(out)].k ELSE ""
From(S) == SelectSeq(ins, LAMBDA x : x.h \in S)
HandlesOf(s) == {h \in 1..Len(P.h.hs) : Src(h) = s}
Xs == Vals(From(HandlesOf(1)))
HasEnd(S, k) == \E j \in 1..Len(ins) : ins[j].h \in S /\ ins[j].k = k
Closed == HasEnd(HandlesOf(1), "c")
Failed == HasEnd(HandlesOf(1), "e")

\* value*(error|completion)?
Grammar == \A j \in 1..(Len(out) - 1) : out[j].k = "n" \/ out[j].opt

PyIndex(x, n, dflt) == IF x = None THEN dflt
                       ELSE IF x < 0 THEN Max2(n + x, 0) ELSE Min2(x, n)
\* xs[a:b:s] of Python, s >= 1
PySlice(xs, a, b, s) ==
  LET lo == PyIndex(a, Len(xs), 0)
      hi == PyIndex(b, Len(xs), Len(xs))
      n == IF hi > lo THEN (hi - lo + s - 1) \div s ELSE 0
  IN [j \in 1..n |-> xs[lo + (j - 1) * s + 1]]

RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE s[1] \o Flat(Tail(s))

One == c.head.op = "one" /\ Len(c.ops) = 1 /\ ~disp
O1 == c.ops[1]
Folded(xs) == SelectSeq(xs, LAMBDA v : v[1] \notin Rng(O1.ks))
\* sources and mappers as they are
Raw == c.head.pre = <<>> /\ c.head.rs = <<>>
Raising == Len(c.ops) > 0 /\ \E k \in 1..Len(c.ops) : c.ops[k].rs # <<>>

SingleLaw ==
  One /\ ~Raising =>
   CASE O1.op = "take" ->
          /\ OutVals = First(Xs, O1.n)
          /\ (OutEnd = "c") <=> (Closed \/ (O1.n > 0 /\ Len(Xs) >= O1.n))
     [] O1.op = "skip" -> OutVals = Rest(Xs, O1.n)
     [] O1.op = "skip_last" -> OutVals = First(Xs, Max2(Len(Xs) - O1.n, 0))
     [] O1.op = "take_last" ->
          OutVals = IF Closed THEN Rest(Xs, Max2(Len(Xs) - O1.n, 0)) ELSE <<>>
     [] O1.op = "slice" ->
          Closed => OutVals = PySlice(Xs, O1.n, O1.m, O1.tag) /\ OutEnd = "c"
     [] O1.op = "distinct" ->
          LET cls(v) == O1.ks[v[1]]
              eq(a, b) == a # 0 /\ b # 0 /\ Max2(a, b) - Min2(a, b) <= O1.n
              keep == {j \in 1..Len(Xs) : j = 1 \/ ~eq(cls(Xs[j]), cls(Xs[j - 1]))}
          IN /\ Len(OutVals) = Cardinality(keep)
             /\ \A j \in keep : OutVals[Cardinality({k \in keep : k <= j})] = Xs[j]
     [] O1.op \in ScanLike ->
          /\ Len(OutVals) = Len(Xs)
          /\ \A j \in 1..Len(Xs) : OutVals[j] = <<O1.tag>> \o Flat(Folded(First(Xs, j)))
     [] O1.op \in ReduceLike ->
          OutVals = IF Closed /\ Xs # <<>> THEN <<<<O1.tag>> \o Flat(Folded(Xs))>> ELSE <<>>
     [] O1.op = "zip" ->
          /\ OutVals = [j \in 1..Min2(Len(Xs), Len(O1.ks)) |-> Xs[j] \o <<O1.ks[j]>>]
          /\ (OutEnd = "c") => (Closed \/ Len(Xs) > Len(O1.ks))
     [] O1.op \in MapLike -> OutVals = [j \in 1..Len(Xs) |-> IF Xs[j][1] \in Rng(O1.ks) THEN Xs[j] ELSE <<O1.tag>> \o Xs[j]]
     [] O1.op \in MapIdx -> OutVals = [j \in 1..Len(Xs) |-> IF Xs[j][1] \in Rng(O1.ks) THEN Xs[j] ELSE <<O1.tag>> \o Xs[j] \o <<999 + j>>]
     [] O1.op \in FilterLike -> OutVals = SelectSeq(Xs, LAMBDA v : v[1] \in Rng(O1.ks))
     [] OTHER -> TRUE

\* Every pipeline: an error that entered and was not handled is the last thing out.
ErrorLaw == Raw /\ c.head.op \notin {"catch", "retry"} \cup Creator /\ ~disp /\ ~Raising
              /\ ~(\E k \in 1..Len(c.ops) : c.ops[k].op = "zip" /\ c.ops[k].m # 0) =>
              (OutEnd = "e" => \E j \in 1..Len(ins) : ins[j].k = "e" /\ ins[j].v = out[Len(out)].v)

MergeLaw ==
  Raw /\ c.head.op \in MergeDyn \cup MergeStat /\ c.ops = <<>> /\ ~disp =>
    LET inner == IF c.head.op \in MergeStat THEN 1..Len(P.h.hs) ELSE (1..Len(P.h.hs)) \ {1}
        firstErr == {j \in 1..Len(ins) : ins[j].k = "e"}
        upto == IF firstErr = {} THEN Len(ins) ELSE CHOOSE j \in firstErr : \A k \in firstErr : j <= k
        seen == SubSeq(ins, 1, upto)
        vs == SelectSeq(seen, LAMBDA x : x.h \in inner)
        open == {h \in inner : h \notin ended}
    IN /\ OutVals = Vals(vs)
       /\ Limit(c.head) > 0 => Cardinality(P.h.act) <= Limit(c.head)
       /\ (OutEnd = "c") => open = {} /\ P.h.q = <<>> /\ firstErr = {}
       /\ (OutEnd = "e") <=> firstErr # {}
       /\ (EAGER /\ firstErr = {} /\ open = {} /\ P.h.q = <<>>
             /\ (c.head.op \in MergeStat \/ HasEnd({1}, "c"))) => OutEnd = "c"

\* Sequences run in order: an output never belongs to an earlier handle than the one before it.
ConcatLaw ==
  Raw /\ c.head.op \in {"concat", "concat_seq", "concat_map"} /\ ~disp =>
    Cardinality({h \in Live : c.head.op # "concat_map" \/ h # 1}) <= 1 \/ OutEnd = "e"

SwitchLaw ==
  Raw /\ c.head.op \in SwitchLike /\ EAGER /\ c.ops = <<>> /\ ~disp =>
    \* position of the outer event that introduced handle h: the (h-1)-th outer value
    LET outerN == SelectSeq([j \in 1..Len(ins) |-> <<j, ins[j]>>], LAMBDA p : p[2].h = 1 /\ p[2].k = "n")
        newest(j) == 1 + Cardinality({x \in Rng(outerN) : x[1] < j})
        errs == {j \in 1..Len(ins) : ins[j].k = "e" /\ (ins[j].h = 1 \/ ins[j].h = newest(j))}
        stopj == IF errs = {} THEN Len(ins) + 1 ELSE CHOOSE j \in errs : \A k \in errs : j <= k
        good == SelectSeq([j \in 1..Len(ins) |-> <<j, ins[j]>>],
                  LAMBDA p : p[1] < stopj /\ p[2].k = "n" /\ p[2].h # 1 /\ p[2].h = newest(p[1]))
    IN /\ OutVals = [j \in 1..Len(good) |-> good[j][2].v]
       /\ (OutEnd = "e") <=> errs # {}
       /\ (OutEnd = "c") <=> (errs = {} /\ HasEnd({1}, "c")
             /\ (Len(outerN) = 0 \/ HasEnd({Len(outerN) + 1}, "c")))

CombineLaw ==
  Raw /\ c.head.op \in {"combine_latest", "with_latest_from"} /\ c.ops = <<>> /\ ~disp =>
    LET ends == {j \in 1..Len(ins) : ins[j].k # "n"}
        n == IF ends = {} THEN Len(ins) ELSE (CHOOSE j \in ends : \A k \in ends : j <= k) - 1
        latest(s, j) == LET ks == {k \in 1..j : ins[k].src = s} IN
                        IF ks = {} THEN <<>> ELSE ins[CHOOSE k \in ks : \A q \in ks : q <= k].v
        fires == {j \in 1..n : latest(1, j) # <<>> /\ latest(2, j) # <<>>
                               /\ (c.head.op = "combine_latest" \/ ins[j].src = 1)}
    IN /\ Len(OutVals) = Cardinality(fires)
       /\ \A j \in fires : OutVals[Cardinality({k \in fires : k <= j})] = latest(1, j) \o latest(2, j)
       /\ (OutEnd # "") <=> ends # {}

UntilLaw ==
  Raw /\ c.head.op = "take_until" /\ c.ops = <<>> /\ ~disp =>
    LET stops == {j \in 1..Len(ins) : (ins[j].src = 2 /\ ins[j].k # "c") \/ (ins[j].src = 1 /\ ins[j].k # "n")}
        n == IF stops = {} THEN Len(ins) + 1 ELSE CHOOSE j \in stops : \A k \in stops : j <= k
    IN /\ OutVals = Vals(SelectSeq(SubSeq(ins, 1, n - 1), LAMBDA x : x.src = 1))
       /\ OutEnd = IF stops = {} THEN "" ELSE IF ins[n].src = 2 /\ ins[n].k = "n" THEN "c" ELSE ins[n].k

RetryLaw ==
  Raw /\ c.head.op = "retry" /\ c.ops = <<>> /\ ~disp =>
    LET errs == Cardinality({j \in 1..Len(ins) : ins[j].k = "e"})
    IN /\ Len(P.h.hs) <= c.head.n + 1
       /\ OutVals = Vals(ins)
       /\ (OutEnd = "e") <=> (errs = c.head.n + 1)
CatchLaw ==
  Raw /\ c.head.op = "catch" /\ c.ops = <<>> /\ ~disp =>
    /\ OutVals = Vals(ins)
    /\ Cardinality(Live) <= 1
    /\ EAGER => \A h \in 2..Len(P.h.hs) :
          \E j \in 1..Len(ins) : ins[j].h = h - 1 /\ ins[j].k = "e" /\ Src(h) = c.head.ks[-ins[j].v[1]]

\* Debounce: with all waits known, the values that leave are those followed by >= n ms of silence.
RECURSIVE DebSpec(_, _, _, _)
DebSpec(k, pend, left, n) ==
  IF k > Len(script) THEN <<>>
  ELSE LET a == script[k] IN
       IF a[1] = "w" THEN
          IF pend # <<>> /\ a[2] >= left THEN <<pend>> \o DebSpec(k + 1, <<>>, 0, n)
          ELSE DebSpec(k + 1, pend, left - a[2], n)
       ELSE IF a[1] = "s" /\ a[3] = "n" THEN DebSpec(k + 1, a[4], n, n)
       ELSE <<>>
DebounceLaw == One /\ O1.op = "debounce" => OutVals = DebSpec(1, <<>>, 0, O1.n)
DelayLaw == One /\ O1.op = "delay" =>
              /\ OutVals = Xs /\ (OutEnd # "") <=> (Closed \/ Failed)
              /\ \A j \in 1..(Len(out) - 1) : out[j].d <= out[j + 1].d
ClockLaw == c.head.op \in Clock /\ c.ops = <<>> /\ ~disp =>
              LET n == IF now < c.head.n THEN 0
                       ELSE IF c.head.m = 0 THEN 1 ELSE 1 + (now - c.head.n) \div c.head.m
              IN /\ OutVals = [j \in 1..n |-> <<999 + j>>]
                 /\ \A j \in 1..n : out[j].d = c.head.n + (j - 1) * c.head.m
                 /\ (OutEnd = "c") <=> (n = 1 /\ c.head.m = 0)

\* Which law covers the configuration (vacuity guard: RxSuites configurations must be covered).
Inv == /\ Grammar /\ SingleLaw /\ ErrorLaw /\ MergeLaw /\ ConcatLaw /\ SwitchLaw /\ CombineLaw
       /\ UntilLaw /\ RetryLaw /\ CatchLaw /\ DebounceLaw /\ DelayLaw /\ ClockLaw
\* A simulation run must not stop at Init for lack of scripts.
View == <<c, script, P, ended>>
=============================================================================
