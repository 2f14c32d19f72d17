------------------------------ MODULE RxSuites ------------------------------
(***************************************************************************)
(* Which pipelines the environment drives, per property.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences

LOCAL NoV == 999
O(op, n) == [op |-> op, n |-> n, m |-> 0, tag |-> 0, ks |-> <<>>, rs |-> <<>>]
OF(op, tag, ks, rs, m) == [op |-> op, n |-> 0, m |-> m, tag |-> tag, ks |-> ks, rs |-> rs]
OT(op, tag) == OF(op, tag, <<>>, <<>>, 0)
OS(a, b, s) == [op |-> "slice", n |-> a, m |-> b, tag |-> s, ks |-> <<>>, rs |-> <<>>]
H(op, n, m, ks) == [op |-> op, n |-> n, m |-> m, tag |-> 0, ks |-> ks, rs |-> <<>>, pre |-> <<>>]
\* the function given to a flat_map-like head raises exception x for the keys rs
HR(op, rs, x) == [H(op, 0, 0, <<>>) EXCEPT !.rs = rs, !.tag = x]
One1 == H("one", 0, 0, <<>>)

Cfg(head, ops, len) ==
  [head |-> head, ops |-> ops, alpha |-> "seq", vals |-> <<>>, inner |-> {1, 2}, maxerr |-> 1,
   dispose |-> FALSE, waits |-> <<>>, classes |-> <<>>, len |-> len]
S1(o, len) == Cfg(One1, <<o>>, len)

Counts == 0..4
Bounds == {NoV, -3, -2, -1, 0, 1, 2, 4}
SliceOk(a, b) == ~(a # NoV /\ a < 0 /\ b # NoV /\ b >= 0 /\ ~(a = -1 /\ b = 0))
\* xs[-1] is slice(-1, 0): a single index, not a Python slice; left to the implementation binding.
PureSlice(a, b) == SliceOk(a, b) /\ ~(a = -1 /\ b = 0)
Slices == {OS(a, b, s) : a \in Bounds, b \in Bounds, s \in {1, 2, 3}}
Positions(len) ==
  {S1(O(op, n), len) : op \in {"skip", "take", "skip_last", "take_last"}, n \in Counts}
  \cup {S1(o, len) : o \in {x \in Slices : PureSlice(x.n, x.m)}}

PairC(o, len) == [S1(o, len) EXCEPT !.alpha = "pair"]
ElemOps ==
  {OF(op, 201, <<>>, <<>>, 0) : op \in {"map", "map_async", "mapi", "mapi_async"}}
  \cup {OF(op, 202, ks, <<>>, 0) : op \in {"filter", "filter_async", "choose", "choose_async"},
                                   ks \in {<<>>, <<1, 3, 4>>, <<2, 3>>, <<1, 2, 3, 4, 5, 6>>}}
  \cup {OF(op, 201, <<1, 2, 4>>, <<>>, 0) : op \in {"map", "map_async", "mapi", "mapi_async"}}
  \cup {OF("filteri", 0, ks, <<>>, 0) : ks \in {<<>>, <<0, 2, 3>>, <<1>>, <<0, 1, 2, 3, 4, 5, 6>>}}
StarOps == {OF("starmap", 203, <<>>, <<>>, 0), OF("starmap_async", 204, <<>>, <<>>, 0),
            OF("starfilter", 0, <<1, 3>>, <<>>, 0), OF("starfilter", 0, <<2>>, <<>>, 0)}
RaiseOps == {OF(op, 205, <<1, 3, 4, 5>>, <<r>>, 5) :
               op \in {"map", "map_async", "mapi", "mapi_async", "filter", "filter_async", "choose",
                       "choose_async", "filteri"}, r \in {1, 2, 3}}
Elems(len) ==
  {S1(o, len) : o \in ElemOps \cup RaiseOps} \cup {PairC(o, len) : o \in StarOps}
  \cup {Cfg(One1, <<O("skip", 0), o>>, len) : o \in RaiseOps}
  \cup {Cfg(H("from_iterable", 0, 0, <<1, 2, 3, 4>>), <<o>>, 0) : o \in ElemOps \cup RaiseOps}
  \cup {Cfg(One1, <<OT("map", 201), OF("filter", 0, <<1, 3, 4>>, <<>>, 0), OT("mapi", 206)>>, len),
        Cfg(One1, <<OF("filteri", 0, <<1, 2>>, <<>>, 0), OT("mapi_async", 206)>>, len)}

\* classes: 0 equals nothing, others are equal when they differ by at most the tolerance n
ClassSets == {<<1, 1, 2, 0>>, <<1, 2, 2, 3>>, <<2, 2, 2, 1>>, <<1, 2, 3, 4>>}
Distincts(len) == {[S1(OF("distinct", 0, cs, <<>>, 0), len) EXCEPT !.alpha = "set",
                     !.vals = <<1, 2, 3, 4>>, !.classes = cs] : cs \in ClassSets}
  \cup {[S1([OF("distinct", 0, cs, <<>>, 0) EXCEPT !.n = 1], len) EXCEPT !.alpha = "set",
           !.vals = <<1, 2, 3, 4>>, !.classes = cs] : cs \in {<<1, 2, 3, 5>>, <<1, 2, 4, 0>>}}
  \* comparing the value r with anything raises
  \cup {[S1(OF("distinct", 0, <<1, 1, 2, 3>>, <<r>>, 5), len) EXCEPT !.alpha = "set",
           !.vals = <<1, 2, 3, 4>>, !.classes = <<1, 1, 2, 3>>] : r \in {2, 4}}

FoldOps == {OF(op, 301, ks, <<>>, 0) : op \in {"scan", "scan_async", "reduce", "reduce_async"}, ks \in {<<>>, <<1, 4>>, <<2, 3>>}}
           \cup {OF(op, 302, <<>>, <<r>>, 5) : op \in {"scan", "scan_async", "reduce", "reduce_async"}, r \in 1..3}
Folds(len) == {S1(o, len) : o \in FoldOps}
              \cup {Cfg(One1, <<O("skip", 0), o>>, len) : o \in FoldOps}
              \cup {Cfg(H("from_iterable", 0, 0, <<1, 2, 3, 4>>), <<o>>, 0) : o \in FoldOps}

ZipO(ks, m) == OF("zip", 0, ks, <<>>, m)
Combines(len) ==
  {Cfg(H(op, 0, 0, <<>>), <<>>, len) : op \in {"combine_latest", "with_latest_from"}}
  \cup {S1(ZipO(ks, m), len) : ks \in {<<>>, <<41>>, <<41, 42, 43>>}, m \in {0, 6}}

Merges(len) ==
  {[Cfg(H("merge_inner", n, 0, <<>>), <<>>, len) EXCEPT !.inner = {1, 2}] : n \in {0, 1, 2}}
  \cup {Cfg(H(op, 0, 0, <<>>), <<>>, len) : op \in {"flat_map", "flat_mapi", "flat_map_async", "flat_mapi_async"}}
  \cup {Cfg(HR(op, <<2>>, 6), <<>>, len) : op \in {"flat_map", "flat_mapi", "flat_map_async", "flat_mapi_async"}}
  \cup {Cfg(H("merge", 2, 0, <<>>), <<>>, len)}
  \cup {Cfg(H("merge_seq", n, 0, <<>>), <<>>, len) : n \in 0..3}
MergesWide(len) ==
  {[Cfg(H("merge_inner", n, 0, <<>>), <<>>, len) EXCEPT !.inner = {1, 2, 3, 4}] : n \in {0, 1, 2, 3}}
  \cup {[Cfg(H("flat_map", 0, 0, <<>>), <<>>, len) EXCEPT !.inner = {1, 2, 3, 4}]}
  \cup {Cfg(H("merge_seq", 5, 0, <<>>), <<>>, len)}
Concats(len) ==
  {Cfg(H("concat", 2, 0, <<>>), <<>>, len), Cfg(H("concat_map", 0, 0, <<>>), <<>>, len), Cfg(HR("concat_map", <<1>>, 6), <<>>, len)}
  \cup {Cfg(H("concat_seq", n, 0, <<>>), <<>>, len) : n \in 0..3}
Switches(len) ==
  {Cfg(H(op, 0, 0, <<>>), <<>>, len) : op \in {"switch_latest", "flat_map_latest", "flat_map_latest_async"}}
  \cup {Cfg(HR(op, <<1>>, 6), <<>>, len) : op \in {"flat_map_latest", "flat_map_latest_async"}}
Untils(len) == {Cfg(H("take_until", 0, 0, <<>>), <<>>, len)}
Catches(len) ==
  {[Cfg(H("catch", 0, 0, ks), <<>>, len) EXCEPT !.maxerr = 3] :
      ks \in {<<3, 4, 5>>, <<3, -6, 4>>, <<1, 1, 1>>, <<-7, 3, 3>>}}
  \cup {[Cfg(H("retry", n, 0, <<>>), <<>>, len) EXCEPT !.maxerr = 4] : n \in 0..3}

Items == {<<>>, <<1>>, <<1, 2, 3>>, <<1, 2, 3, 4, 5, 6>>, <<3, 3, 1>>}
CreatorHeads ==
  {H(op, 0, m, ks) : op \in {"from_iterable", "from_async_iterable", "defer"}, ks \in Items, m \in {0, 5}}
  \cup {H("single", 0, 0, <<1>>), H("single", 0, 0, <<2>>), H("single", 0, 0, <<3>>), H("empty", 0, 0, <<>>), H("never", 0, -1, <<>>),
        H("fail", 0, 4, <<>>), H("fail", 0, 7, <<>>)}
  \cup {H("from_async", d, 0, <<x>>) : d \in {0, 50}, x \in {1, 2}}
  \cup {H("from_async", d, 6, <<>>) : d \in {0, 50}}
Creators(len) == {Cfg(h, <<>>, len) : h \in CreatorHeads}
Clocks(len) ==
  {[Cfg(H("interval", d, p, <<>>), <<>>, len) EXCEPT !.waits = <<37, 110>>] : d \in {0, 100}, p \in {0, 50, 70}}
  \cup {[Cfg(H("timer", d, 0, <<>>), <<>>, len) EXCEPT !.waits = <<37, 110>>] : d \in {0, 60, 100}}
  \cup {[Cfg(H("interval", 20, 50, <<>>), <<O("take", n)>>, len) EXCEPT !.waits = <<37, 110>>] : n \in {1, 3}}
Delays(len) == {[S1(O("delay", d), len) EXCEPT !.waits = w] : d \in {100, 15, 0}, w \in {<<17, 61>>, <<29, 150>>}}
Debounces(len) == {[S1(O("debounce", 100), len) EXCEPT !.waits = w] : w \in {<<17, 150>>, <<29, 61>>, <<61, 150>>}}

\* One representative per operator, for the cross-cutting guarantees.
RepOps == {O("skip", 1), O("skip", 0), O("take", 2), O("take", 0), O("skip_last", 1), O("take_last", 2),
           OS(1, -1, 1), OS(0, 3, 2), OS(-2, NoV, 1), ZipO(<<41, 42>>, 0), ZipO(<<41, 42, 43, 44>>, 0),
           OT("map", 201), OT("map_async", 201), OT("mapi", 201), OT("mapi_async", 201),
           OF("filter", 0, <<1, 3, 4>>, <<>>, 0), OF("filter_async", 0, <<1, 3>>, <<>>, 0),
           OF("filteri", 0, <<0, 2, 3>>, <<>>, 0), OF("choose", 207, <<1, 2>>, <<>>, 0),
           OF("choose_async", 207, <<1, 2>>, <<>>, 0),
           OT("scan", 301), OT("scan_async", 301), OT("reduce", 301), OT("reduce_async", 301),
           OF("scan", 302, <<>>, <<2>>, 5), OF("scan", 303, <<2, 3>>, <<>>, 0), OF("map", 209, <<1, 3>>, <<>>, 0)}
RepPairs == {<<O("skip", 0), O("take", 2)>>, <<OT("map", 201), O("take", 2)>>,
             <<O("take", 3), OT("mapi", 201)>>, <<OF("filter", 0, <<1, 3, 4>>, <<>>, 0), O("skip_last", 1)>>,
             <<OT("scan", 301), O("take_last", 2)>>, <<O("skip", 1), OT("map_async", 201), O("take", 2)>>,
             <<O("take_last", 3), O("skip", 1)>>, <<OT("mapi", 201), OT("mapi", 202)>>,
             <<O("skip", 0), OT("scan", 301), OT("map", 201)>>, <<O("take", 2), OT("reduce", 301)>>}
RepHeads == {H("combine_latest", 0, 0, <<>>), H("with_latest_from", 0, 0, <<>>), H("take_until", 0, 0, <<>>),
             H("merge_inner", 0, 0, <<>>), H("merge_inner", 1, 0, <<>>), H("flat_map", 0, 0, <<>>),
             H("merge", 2, 0, <<>>), H("merge_seq", 3, 0, <<>>), H("concat", 2, 0, <<>>),
             H("concat_map", 0, 0, <<>>), H("switch_latest", 0, 0, <<>>), H("flat_map_latest", 0, 0, <<>>),
             H("catch", 0, 0, <<3, 4, 5>>), H("retry", 1, 0, <<>>), H("flat_mapi", 0, 0, <<>>)}
DistC(len) == [S1(OF("distinct", 0, <<1, 1, 2, 2>>, <<>>, 0), len) EXCEPT !.alpha = "set",
                  !.vals = <<1, 3>>, !.classes = <<1, 1, 2, 2>>]
TimedC(len) == {[S1(O(op, 100), len) EXCEPT !.waits = <<61>>] : op \in {"delay", "debounce"}}
RepSingle(len) == {S1(o, len) : o \in RepOps} \cup {DistC(len)} \cup {Cfg(One1, p, len) : p \in RepPairs}
                  \cup {PairC(o, len) : o \in {OF("starmap", 203, <<>>, <<>>, 0), OF("starfilter", 0, <<1, 3>>, <<>>, 0)}}
RepMulti(len) == {[Cfg(h, <<>>, len) EXCEPT !.maxerr = 2] : h \in RepHeads}
                 \cup {Cfg(H("merge", 2, 0, <<>>), <<O("take", 2)>>, len),
                       Cfg(H("combine_latest", 0, 0, <<>>), <<O("take", 1)>>, len),
                       Cfg(H("flat_map", 0, 0, <<>>), <<OT("map", 201), O("take", 2)>>, len)}
RepCreators == {Cfg(h, p, 1) : h \in {H("from_iterable", 0, 0, <<1, 2, 3>>), H("from_async_iterable", 0, 0, <<1, 2, 3>>),
                                     H("from_async", 50, 0, <<1>>), H("from_async", 0, 0, <<1>>), H("fail", 0, 4, <<>>),
                                     H("defer", 0, 0, <<1, 2>>), H("from_iterable", 0, 5, <<1, 2>>)},
                               p \in {<<>>, <<OT("map", 201)>>, <<O("take", 2)>>, <<OT("mapi", 201)>>}}
                \cup {Cfg(H("from_iterable", 0, 0, <<1, 2, 3, 4, 5, 6>>), <<o>>, 1) : o \in RepOps}
                \cup {Cfg(h, p, 1) : h \in {H("single", 0, 0, <<1>>), H("empty", 0, 0, <<>>), H("never", 0, -1, <<>>)},
                                     p \in {<<O("skip", 0)>>, <<O("take_last", 1)>>, <<O("distinct", 0)>>}}
\* single() itself ignores disposal (see C03), so it is only disposed behind a buffering operator
BareCreators == {Cfg(h, p, 1) : h \in {H("single", 0, 0, <<1>>), H("empty", 0, 0, <<>>), H("never", 0, -1, <<>>)},
                                p \in {<<>>, <<OT("map", 201)>>, <<OT("scan", 201)>>}}
RepClock(len) == {[Cfg(H("interval", 20, 50, <<>>), p, len) EXCEPT !.waits = <<37, 110>>] : p \in {<<>>, <<O("take", 2)>>, <<OT("map", 201)>>, <<OF("filteri", 0, <<1, 2>>, <<>>, 0)>>,
                                    <<OT("scan", 301)>>, <<OT("map_async", 201), O("skip", 1)>>}}
                 \cup {[Cfg(H("timer", 60, 0, <<>>), <<>>, len) EXCEPT !.waits = <<37, 110>>]}

\* Longer pipelines: any head, then two or three of a small choice of operators.
MixOps == {O("skip", 1), O("take", 3), O("take", 1), O("skip_last", 1), O("take_last", 2), OS(1, -1, 1), ZipO(<<41, 42, 43>>, 0), OT("map", 201),
           OT("map_async", 202), OT("mapi", 203), OF("filter", 0, <<1, 2, 3, 4, 6, 8>>, <<>>, 0), OF("filteri", 0, <<0, 2, 3, 5>>, <<>>, 0),
           OF("choose_async", 207, <<1, 2, 4, 5, 7>>, <<>>, 0), OT("scan", 301), OT("reduce_async", 302),
           OF("map", 205, <<>>, <<4>>, 5), OF("scan_async", 303, <<>>, <<5>>, 6), OF("mapi_async", 208, <<>>, <<3>>, 5)}
MixHeads == (RepHeads \ {H("flat_mapi", 0, 0, <<>>)}) \cup {One1, H("flat_map_async", 0, 0, <<>>), H("merge_inner", 2, 0, <<>>), H("retry", 2, 0, <<>>), H("catch", 0, 0, <<3, -6, 4>>),
                           H("concat_seq", 3, 0, <<>>), H("flat_map_latest_async", 0, 0, <<>>)}
Mixes(len) == {[Cfg(h, <<a, b>>, len) EXCEPT !.maxerr = 2] : h \in MixHeads, a \in MixOps, b \in MixOps}
Mixes3(len) == {[Cfg(One1, <<a, b, d>>, len) EXCEPT !.maxerr = 1] : a \in MixOps, b \in MixOps, d \in MixOps}
LOCAL WaitC(c) == [c EXCEPT !.waits = <<17, 61, 150>>]
MixTimed(len) == {WaitC([Cfg(h, <<a, O(t, 100)>>, len) EXCEPT !.maxerr = 1]) : h \in MixHeads, a \in MixOps, t \in {"delay", "debounce"}}

\* Operators in front of the head: unbuffered ones, and buffering ones.
PreD == {<<>>, <<OT("map", 211)>>, <<OF("filter", 0, <<1, 2, 4, 5, 7>>, <<>>, 0)>>, <<OT("scan", 311)>>, <<OF("map", 212, <<>>, <<3, 5>>, 6)>>,
         <<OF("choose", 213, <<1, 3, 4, 6>>, <<>>, 0), OT("map_async", 214)>>, <<OF("scan_async", 312, <<>>, <<3>>, 6)>>}
PreB == {<<>>, <<O("take", 1)>>, <<O("take", 2)>>, <<O("skip", 1)>>, <<OT("mapi", 215)>>, <<O("take_last", 1)>>, <<OT("reduce", 313)>>,
         <<O("skip_last", 1)>>, <<OT("map", 216), O("take", 2)>>, <<O("skip", 1), OT("scan", 314)>>, <<ZipO(<<41, 42>>, 0)>>, <<OS(0, 3, 2)>>}
PreHeads == {H("combine_latest", 0, 0, <<>>), H("with_latest_from", 0, 0, <<>>), H("take_until", 0, 0, <<>>), H("merge", 2, 0, <<>>),
             H("merge_seq", 3, 0, <<>>), H("concat", 2, 0, <<>>), H("concat_seq", 3, 0, <<>>), H("catch", 0, 0, <<3, 4, 5>>),
             H("retry", 1, 0, <<>>), H("retry", 2, 0, <<>>), H("flat_map", 0, 0, <<>>), H("concat_map", 0, 0, <<>>), H("flat_map_latest", 0, 0, <<>>)}
PreInner == {H("merge_inner", 0, 0, <<>>), H("merge_inner", 1, 0, <<>>), H("switch_latest", 0, 0, <<>>)}
Pres(A, len) ==
  {[Cfg([h EXCEPT !.pre = <<a, b>>], p, len) EXCEPT !.maxerr = 2] : h \in PreHeads, a \in A, b \in A, p \in {<<>>, <<O("skip", 0)>>, <<OT("map", 201)>>}}
  \cup {[Cfg([h EXCEPT !.pre = <<<<>>, b>>], p, len) EXCEPT !.maxerr = 2] : h \in PreInner, b \in A, p \in {<<>>, <<O("take", 3)>>}}

UnOps == {OT("map", 201), OT("map_async", 201), OF("filter", 0, <<1, 3, 4>>, <<>>, 0), OF("filter_async", 0, <<1, 3>>, <<>>, 0),
          OF("choose", 207, <<1, 2>>, <<>>, 0), OF("choose_async", 207, <<1, 2>>, <<>>, 0), OT("scan", 301), OT("scan_async", 301)}
Unbufs(len) ==
  {S1(o, len) : o \in UnOps} \cup {Cfg(One1, <<>>, len)}
  \cup {PairC(o, len) : o \in StarOps}
  \cup {Cfg(One1, <<OT("map_async", 201), OF("filter", 0, <<1, 3, 4>>, <<>>, 0), OT("scan", 301)>>, len),
         Cfg(One1, <<OT("scan_async", 301), OT("map", 201)>>, len)}
  \cup {[Cfg(H("catch", 0, 0, ks), p, len) EXCEPT !.maxerr = 2] : ks \in {<<3, 4, 5>>, <<1, 1, 1>>, <<-7, 3, 3>>},
                                                          p \in {<<>>, <<OT("map", 201)>>}}

Disp(S) == {[x EXCEPT !.dispose = TRUE] : x \in S}

Suite(name) ==
  CASE name = "positions" -> Positions(6)
    [] name = "elements" -> Elems(5)
    [] name = "distinct" -> Distincts(5)
    [] name = "folds" -> Folds(5)
    [] name = "merge" -> Merges(6)
    [] name = "concat" -> Concats(7)
    [] name = "switch" -> Switches(6)
    [] name = "combine" -> Combines(6)
    [] name = "until" -> Untils(6)
    [] name = "catch" -> Catches(6)
    [] name = "creators" -> Creators(0)
    [] name = "clocks" -> Disp(Clocks(4))
    [] name = "delay" -> Disp(Delays(6))
    [] name = "debounce" -> Disp(Debounces(6))
    [] name = "single" -> RepSingle(5)
    [] name = "multi" -> RepMulti(5)
    [] name = "timed" -> TimedC(5) \cup RepClock(3)
    [] name = "created" -> RepCreators \cup BareCreators
    [] name = "singleD" -> Disp(RepSingle(5))
    [] name = "multiD" -> Disp(RepMulti(5))
    [] name = "timedD" -> Disp(TimedC(5) \cup RepClock(3))
    [] name = "createdD" -> Disp(RepCreators)
    [] name = "unbuf" -> Unbufs(5)
    [] name = "unbufD" -> Disp(Unbufs(5))
    [] name = "positionsL" -> Positions(40)
    [] name = "elementsL" -> Elems(40)
    [] name = "foldsL" -> Folds(30)
    [] name = "distinctL" -> Distincts(40)
    [] name = "mergeL" -> Merges(14) \cup MergesWide(24)
    [] name = "concatL" -> Concats(20)
    [] name = "switchL" -> Switches(20)
    [] name = "combineL" -> Combines(20)
    [] name = "untilL" -> Untils(20)
    [] name = "catchL" -> Catches(16)
    [] name = "delayL" -> Disp(Delays(20))
    [] name = "debounceL" -> Disp(Debounces(20))
    [] name = "clocksL" -> Disp(Clocks(12))
    [] name = "singleL" -> Disp(RepSingle(30))
    [] name = "multiL" -> Disp(RepMulti(20))
    [] name = "timedL" -> Disp(TimedC(16) \cup RepClock(10))
    [] name = "mixes" -> Disp(Mixes(14)) \cup Disp(Mixes3(10))
    [] name = "pres" -> Disp(Pres(PreD, 12))
    [] name = "presB" -> Disp(Pres(PreB, 12))
    [] name = "mixesT" -> Disp(MixTimed(12))
    [] OTHER -> {}
=============================================================================
