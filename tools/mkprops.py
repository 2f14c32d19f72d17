#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the wording stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe or ["the calls an observer receives", "subscribe and dispose calls on the source"],
                               hook_needed=None)))
A = "aioreactive/"
p("C01", "Notification grammar holds for every subscription",
  "Every observer subscribed to any library sequence or operator pipeline receives zero or more values followed by at most one terminal notification (error or completion), and nothing at all after a terminal notification. "
  "This holds for all well-behaved sources and all schedules, also when the observer raises while handling a value; operators that buffer or combine (skip, take, skip_last, take_last, slice, distinct_until_changed, indexed operators, merging, concatenating, switching, combining, zip, take_until, delay, debounce) guarantee it even when the source itself keeps sending after its end or ends twice.",
  ["schedules", "inputs", "fault_sequences"], "all operator pipelines, source histories (including ill-behaved ones for guarded operators), observer failures and interleavings of source events with delivery",
  "tests drive one well-behaved source per operator to its end under one schedule; they never send after an end, fail an observer midway or overlap terminals from several inputs",
  [A+"observers.py", A+"create.py", A+"combine.py", A+"filtering.py", A+"transform.py", A+"timeshift.py"],
  [("safe observer mailbox loop", A+"observers.py:safe_observer"), ("stop flags in scan/subjects", A+"transform.py:_scan")])
p("C02", "Observers are never called concurrently by one subscription",
  "For any sequence creator (iterables, single, fail, awaitables) and any operator that buffers or combines, an observer is not given a new notification until its handling of the previous one has finished, no matter how many sources push at the same time, whether one source pushes without waiting, or how slow the observer is.",
  ["schedules", "histories"], "all interleavings of concurrently pushing sources with suspended observer handlers, all guarded operators",
  "tests use observers that return immediately, so overlapping deliveries cannot be observed",
  [A+"observers.py", A+"combine.py", A+"filtering.py", A+"transform.py", A+"create.py"],
  [("one mailbox per observer, one message handled at a time", A+"observers.py:safe_observer")])
p("C03", "No notification begins after dispose has returned",
  "Once disposing a subscription has returned, the observer of that subscription receives no further notification, even if values were already queued, delayed or about to be sent, and disposing again is harmless. Disposing raises nothing and always returns once the user code and the sources it waits for have. "
  "The only exceptions are a single() sequence and a value that was already inside a user-supplied asynchronous mapper, predicate or accumulator when dispose was called.",
  ["schedules", "histories"], "a dispose at every point between event-loop callbacks, from outside or from inside the observer, for every operator and creator, with buffered and in-flight values",
  "tests dispose at one or two hand-picked moments for a few operators",
  [A+"observers.py", A+"create.py", A+"timeshift.py", A+"combine.py", A+"transform.py", A+"filtering.py", A+"subject.py"],
  [("cancellation token checked by the mailbox loop", A+"observers.py:safe_observer"), ("auto-detach wrapper disposable", A+"observers.py:auto_detach_observer"), ("token cancellation in delay/of_async_worker", A+"timeshift.py:delay")])
p("C04", "Sources are released when a subscription ends",
  "After a subscription has ended (its observer got a terminal notification, it was disposed, or, for operators that buffer or combine, its observer failed), every source subscription opened on its behalf, including inner and secondary sources, that has not ended by itself is disposed once the system is quiescent. "
  "Nothing is released before that, except inner sequences that a newer one has superseded.",
  ["schedules", "histories", "fault_sequences"], "all operators with all their inputs, every way of ending (own completion, error, early completion, observer failure, dispose), also ending while the subscription is still being set up",
  "tests look at delivered values, never at whether each upstream subscription was disposed",
  [A+"observers.py", A+"combine.py", A+"transform.py", A+"filtering.py", A+"timeshift.py", A+"subject.py"],
  [("auto detach agent", A+"observers.py:auto_detach_observer"), ("cancel functions", A+"combine.py:merge_inner"), ("composite disposables", A+"combine.py:combine_latest")])
p("C05", "Delivered notifications do not depend on scheduling or observer speed",
  "For untimed pipelines the exact list of notifications an undisposed observer has received when the system is quiescent is determined only by the order in which the sources emitted: nothing is lost, duplicated, reordered or invented because an observer is slow, because sources push in bursts, or because many values are queued.",
  ["schedules", "inputs"], "all untimed operators and creators, burst sizes from 0 to hundreds, observers with arbitrary suspension, arbitrary points at which the loop runs between source events",
  "tests compare outputs under one schedule with an immediate observer and at most a handful of values",
  [A+"observers.py", A+"create.py", A+"combine.py", A+"filtering.py", A+"transform.py"],
  [("FIFO mailboxes", A+"observers.py:safe_observer")])
p("C06", "Element-wise operators transform each value exactly once, in order",
  "map, mapi, starmap, filter, filteri, starfilter, choose and their asynchronous variants apply the user function exactly once to every source value in order (with consecutive indices from 0 per subscription for the indexed forms), emit exactly the mapped or selected values unchanged in source order, and pass completion and errors through. "
  "An exception raised by the user function is never swallowed: it reaches the observer as the error, or is raised to whoever pushed the value.",
  ["inputs", "histories"], "all value sequences (including None, falsy, equal and uncomparable values), predicates, function failures at any position, asynchronous functions that suspend",
  "tests use two or three small integers",
  [A+"transform.py", A+"filtering.py", A+"combine.py"],
  [("transform", A+"transform.py:transform"), ("zip_seq index", A+"combine.py:zip_seq")])
p("C07", "skip/take/skip_last/take_last/slice agree with list slicing",
  "For every source sequence and every non-negative count, skip, take, skip_last and take_last yield exactly the corresponding Python list slice of the source values and then complete; slice and bracket notation agree with Python slicing for start, stop and positive step (a negative start combined with a non-negative stop, other than the single index -1, is excluded). "
  "take completes as soon as its last (positive) count-th value has been emitted without waiting for the source, skip and skip_last emit each value as soon as it is known to qualify, and a source error is passed on after the values emitted so far. A negative count for take and a negative step are refused with an exception instead of producing a sequence.",
  ["inputs", "configurations"], "all lengths, counts and slice bounds, including counts larger than the sequence and zero, and sources that end by error or never",
  "tests sample four slices of five elements",
  [A+"filtering.py", A+"__init__.py"],
  [("counters and queues", A+"filtering.py:take"), ("slice composition", A+"filtering.py:slice")])
p("C08", "distinct_until_changed drops exactly the consecutive repeats",
  "distinct_until_changed emits the first value and then exactly those values that compare unequal to the source value immediately before them, whatever the values are (None and falsy included), and passes the end of the source on.",
  ["inputs"], "all value sequences over equal, unequal and never-equal values",
  "tests use one sequence of small integers",
  [A+"filtering.py", A+"notification.py"], [("latest notification comparison", A+"filtering.py:distinct_until_changed"), ("notification equality", A+"notification.py:OnNext.__eq__")])
p("C09", "scan emits every running fold and reduce only the last one",
  "scan emits, for each source value in order, the accumulator applied to the previous accumulated state and that value, starting from the seed; reduce emits only the final state, immediately before completion, and nothing for an empty source or one that ends in error. "
  "If the accumulator raises, the observer gets that error as the terminal notification and the accumulator is not called again; every subscription starts again from the seed.",
  ["inputs", "histories"], "all value sequences, seeds, accumulator failures at any position, synchronous and suspending accumulators, repeated subscriptions",
  "tests fold one short list",
  [A+"transform.py"], [("accumulator state per subscription", A+"transform.py:_scan"), ("reduce = scan + take_last", A+"transform.py:reduce_async")])
p("C10", "Merging operators interleave all inner sequences without loss",
  "merge, merge_seq, merge_inner and the flat_map family emit every value of every inner sequence exactly once in the order in which it was produced, and complete exactly when the outer sequence and all inner sequences (including waiting ones) have completed. "
  "With a concurrency limit at most that many inner sequences are subscribed at a time, the others wait and are started first-come first-served as soon as a slot frees; the first error from any input ends the result.",
  ["schedules", "inputs", "configurations"], "all interleavings of outer and inner events, numbers of inner sequences, concurrency limits, the same inner sequence appearing more than once, inner sequences that end while being subscribed",
  "tests merge two short sequences and never use a limit other than 1",
  [A+"combine.py", A+"transform.py", A+"__init__.py"], [("merge agent", A+"combine.py:merge_inner"), ("waiting queue", A+"combine.py:Model")])
p("C11", "Concatenation runs its sequences one after another",
  "concat, concat_seq and concat_map subscribe to the next sequence only after the previous one has completed, emit all values of all sequences in sequence order, complete after the last one completes, and stop at the first error without starting later sequences.",
  ["schedules", "inputs"], "all numbers and lengths of sequences, empty and failing ones at any position, all timings of their ends",
  "tests concatenate two finite sequences",
  [A+"combine.py", A+"transform.py", A+"__init__.py"], [("merge agent with limit 1", A+"combine.py:merge_inner")])
p("C12", "Switching follows only the most recent inner sequence",
  "switch_latest and flat_map_latest emit values of the most recent inner sequence only: when a newer one has been subscribed the previous one is unsubscribed and none of its later values, errors or completion has any effect. "
  "The result completes when the outer sequence and the most recent inner sequence have both completed, in either order, and an error of the outer or current inner sequence ends it.",
  ["schedules", "histories"], "all interleavings of outer and inner events, superseded sequences that still emit, outer ending before or after the inner one",
  "switching is not covered by any test beyond construction",
  [A+"transform.py"], [("switch agent", A+"transform.py:switch_latest")])
p("C13", "Combining operators pair exactly the right values",
  "combine_latest emits, for every input value once both inputs have produced one, the pair of both latest values; with_latest_from emits a pair only for values of the first input and only once the second has produced one; zip_seq pairs the i-th value with the i-th item of the given sequence and completes when that sequence is exhausted at the next value. "
  "combine_latest and with_latest_from end when either input ends; errors of either input end the result; every value (None and falsy included) counts as a value.",
  ["schedules", "inputs"], "all interleavings of the two inputs and all value kinds",
  "tests cover one interleaving of with_latest_from and none of combine_latest",
  [A+"combine.py"], [("combine agent", A+"combine.py:combine_latest"), ("with_latest_from agent", A+"combine.py:with_latest_from"), ("enumerator", A+"combine.py:zip_seq")])
p("C14", "take_until mirrors the source until the other sequence emits",
  "take_until passes all values and the end of the source on until the other sequence emits its first value, at which point the result completes; completion of the other sequence without a value changes nothing and an error of it ends the result with that error.",
  ["schedules", "inputs"], "all interleavings of source and other events including simultaneous bursts",
  "take_until has no test",
  [A+"filtering.py"], [("secondary observer closing the result", A+"filtering.py:take_until")])
p("C15", "catch and retry resume after an error",
  "catch replaces an error of the current sequence by the sequence its handler returns for that very error, again for errors of that sequence, keeping the values emitted before and never subscribing the handler's sequence otherwise; retry(n) resubscribes the source at most n times per subscription and then passes the last error on. "
  "Exactly one sequence is subscribed at a time, completion of the current one completes the result, and if the handler raises the observer gets that exception.",
  ["fault_sequences", "histories"], "all positions and numbers of errors, handlers that return failing sequences or raise, repeated subscriptions",
  "catch and retry have no test",
  [A+"transform.py"], [("recursive resubscription", A+"transform.py:catch"), ("retry counter per subscription", A+"transform.py:retry")])
p("C16", "Creation functions emit exactly what they were given",
  "from_iterable, from_async_iterable, single, empty, never, fail, defer and from_async deliver to each subscriber exactly the given items in order and then the right end (completion; the error for fail, a failing awaitable, factory, or an iterable that raises, after the items before it; nothing for never). "
  "defer calls its factory once per subscription, and nothing is delivered before subscribing.",
  ["inputs", "schedules"], "all item lists (None, falsy, long, raising part-way), awaitables finishing with value or error at any time, subscribers of any speed, repeated subscription of re-iterable sources",
  "tests use finite lists of three items",
  [A+"create.py"], [("worker loop", A+"create.py:of_async_worker"), ("creators", A+"create.py:of_seq")])
p("C17", "interval and timer fire at the right times with the right counts",
  "interval emits 0, 1, 2, ... the first after the initial delay and each next one a period after the previous one was handled, until disposed; a zero period, as for timer, gives the single value 0 followed by completion.",
  ["configurations", "schedules"], "all delays and periods, observers of any speed, disposal at any time, several subscriptions",
  "tests use interval only as a helper",
  [A+"create.py"], [("timer loop", A+"create.py:interval")])
p("C18", "delay shifts every notification by exactly the given time",
  "delay delivers every value, the completion and the error of its source in source order, each exactly the given time after the source emitted it when the observer keeps up (never earlier, and never lost when it does not keep up).",
  ["inputs", "schedules"], "all timings of source events relative to the delay, bursts, slow observers, several subscriptions",
  "tests delay one evenly spaced sequence",
  [A+"timeshift.py"], [("due-time mailbox", A+"timeshift.py:delay")])
p("C19", "debounce emits exactly the values followed by silence",
  "debounce emits a source value exactly when no other notification follows it within the window, at the end of that window; completion and errors of the source are passed on immediately and a value still pending then is not emitted.",
  ["inputs", "schedules"], "all timings of source events relative to the window",
  "tests use two timings",
  [A+"timeshift.py"], [("indexed timer messages", A+"timeshift.py:debounce")])
p("C20", "A subject broadcasts to exactly its current subscribers",
  "Every value, error or completion pushed into a subject is delivered once, in push order where pushes do not overlap, to each observer that is subscribed when the push begins and still subscribed when its turn comes, in subscription order, and to nobody else; the push returns only after those observers have handled it. "
  "After an error or completion further pushes do nothing, and after the subject itself is disposed pushing or subscribing raises. Unsubscribing and disposing themselves return and raise nothing.",
  ["histories", "schedules"], "all histories of subscribe, unsubscribe, push and dispose, including from inside observers and with observers that suspend",
  "tests subscribe before pushing and never change the subscriber list during a broadcast",
  [A+"subject.py"], [("observer list snapshot", A+"subject.py:AsyncMultiSubject"), ("stop and dispose flags", A+"subject.py:AsyncMultiSubject")])
p("C21", "A single subject holds producers until its observer arrives",
  "Pushing into a single-subscriber subject waits until an observer is subscribed; the waiting producers then each deliver exactly once, in push order, and each push returns after the observer handled it. "
  "A terminal notification is delivered at most once with nothing after it, cancelling one waiting producer does not affect the others, and disposing the subject or its subscription makes every waiting or later push raise instead of hanging, while disposing itself returns and raises nothing.",
  ["schedules", "histories"], "all interleavings of producers, subscription, cancellation and disposal",
  "tests cover one waiting producer",
  [A+"subject.py"], [("wait future", A+"subject.py:AsyncSingleSubject")])
p("C22", "Async iteration yields the sequence with back-pressure",
  "Iterating a sequence asynchronously yields exactly its values in order and then ends, or raises the sequence's error; iterating past the end ends again. "
  "A producer pushing into the iterator is held until its notification (also the final one) has been picked up and is then released, and cancelling or timing out one step of the iteration loses nothing and leaves the iteration usable; disposing the iterator unsubscribes, releases held producers, returns and raises nothing, also before the first step.",
  ["schedules", "histories", "fault_sequences"], "all interleavings of pushes, iteration steps, cancelled steps and disposal",
  "tests iterate over three-element lists without interruption",
  [A+"observers.py", A+"observables.py", A+"leave.py"], [("hand-over queue", A+"observers.py:AsyncIteratorObserver")])
p("C23", "Running a sequence returns its last value or raises its error",
  "run, and awaiting an awaitable observer, give the last value of the sequence once it completes (also None and falsy ones), raise the sequence's error if it fails, count as cancelled if it completes empty, and run raises a timeout if the sequence does not end in time; in every case run's subscription is disposed when it returns. "
  "The user callbacks of the observer are invoked once per notification, notifications after the end or after disposing it are ignored, and closing after the awaiting side was cancelled raises nothing.",
  ["inputs", "schedules", "histories"], "all sequences, timeouts and moments of cancellation",
  "tests run sequences of a few integers to completion",
  [A+"subscription.py", A+"observers.py"], [("last value and stop flags", A+"observers.py:AsyncAwaitableObserver"), ("run", A+"subscription.py:run")])
p("C24", "Back-pressure passes through unbuffered operators",
  "When a value is pushed through a pipeline made only of map, filter, choose, starmap, starfilter, scan (and their asynchronous forms) or catch, and through subjects, the push returns only after the observer has finished handling everything that value caused, so a producer that awaits its pushes never runs ahead of a slow observer.",
  ["schedules"], "all such pipelines, observer and user-function suspensions of any length",
  "tests never measure when a push returns",
  [A+"transform.py", A+"filtering.py", A+"subject.py", A+"observers.py"], [("awaited forwarding", A+"transform.py:transform")])
p("C25", "The virtual-time loop runs callbacks in time order without waiting",
  "The virtual-time event loop starts at time 0 and runs every scheduled, uncancelled callback exactly once, ready callbacks in FIFO order and timed ones in order of their time with the clock showing that time (never going back), advancing the clock only when nothing is ready; cancelled callbacks never run, however many there are, and no real time is spent waiting.",
  ["schedules", "histories"], "all programs of immediate, timed, nested and cancelled callbacks",
  "tests check three sleeps",
  [A+"testing/virtual_events.py"], [("heap of timers", A+"testing/virtual_events.py:VirtualTimeEventLoop._run_once")], ["the order and the clock at which callbacks run"])
p("C26", "Chained methods behave like the piped functions",
  "Every method of the chained interface, including bracket slicing and its constructors, yields a sequence that behaves exactly as the corresponding function applied through a pipe with the same arguments, and subscribing through the chained object, the plain one, an observer object or separate callbacks, or through the conversion to an async iterable (which is itself a sequence), is equivalent.",
  ["programs", "inputs"], "all chained methods, arguments and source histories, both ways of passing observers",
  "tests chain only a few of the methods",
  [A+"__init__.py", A+"observables.py", A+"subscription.py"], [("delegating methods", A+"__init__.py:AsyncRx")])
p("C27", "Subscriptions to one pipeline are independent of each other",
  "Subscribing several observers to the same pipeline object gives each its own run over its own source subscriptions and its own operator state (counters, buffers, latest values, indices, retries, timers): what one observer gets is unaffected by when others subscribe, are disposed, end early, fail or are slow.",
  ["histories", "schedules"], "all operators, two or more subscriptions overlapping arbitrarily, one of them disposed, failing or slow at any point",
  "tests subscribe once to each pipeline",
  [A+"combine.py", A+"filtering.py", A+"transform.py", A+"timeshift.py", A+"create.py"], [("state created inside subscribe", A+"filtering.py:take")])
p("C28", "An error reaches the observer once, last, and as the same object",
  "When a source fails, the observer of any pipeline that does not handle the error receives that very exception object exactly once as its terminal notification, after all values that preceded it through the pipeline and not replaced by a completion or another error; an exception raised by an observer while handling a value is likewise not swallowed but handed to its error callback (buffering operators and creators) or back to the pusher.",
  ["fault_sequences", "inputs"], "all operators, all input positions and moments of failure, all exception kinds",
  "tests check errors for two operators",
  [A+"observers.py", A+"combine.py", A+"filtering.py", A+"transform.py", A+"timeshift.py", A+"create.py"], [("error branch of the mailbox loop", A+"observers.py:safe_observer")])
p("C29", "The testing utilities record and schedule faithfully",
  "The recording test observer stores every notification it is given with the loop time of arrival, in order, and calls each user callback once per notification; the scheduling methods of the test subjects push exactly the given notification at the given absolute or relative loop time.",
  ["histories", "inputs"], "all programs of scheduled and immediate pushes in virtual time",
  "the utilities are used by tests but not tested",
  [A+"testing/observer.py", A+"testing/subject.py"], [("recorded list", A+"testing/observer.py:AsyncTestObserver"), ("call_at and sleeping tasks", A+"testing/subject.py:AsyncSubjectBase")])
p("C30", "The bridge to synchronous observables is faithful",
  "Subscribing to the converted synchronous observable delivers the values and the end of the asynchronous source in order, and disposing that subscription, at any time including before the asynchronous subscription is established, leads to the source being unsubscribed and no further notification being delivered, and raises nothing.",
  ["schedules", "inputs"], "all source histories and dispose moments",
  "the bridge has no test",
  [A+"leave.py"], [("subscription task", A+"leave.py:to_observable")])
p("C31", "Notifications stand for exactly one event",
  "A notification object, accepted by three functions or by an observer, calls exactly the one function or method of its kind, once per acceptance, with the very value or exception it was made from, returns when that call has finished and hands on its exception; it may be accepted any number of times and concurrently. "
  "Its kind and pattern matching show the same content, and two notifications are equal exactly when they are of one kind and their values, or exceptions, are equal; nothing else is equal to a notification.",
  ["histories", "schedules", "inputs"], "all programs of making, accepting and comparing notifications, contents of any type, handlers that are slow or raise, overlapping acceptances",
  "notifications are only used inside operators by tests, which never accept one through functions or compare errors",
  [A+"notification.py"], [("accept and accept_observer", A+"notification.py:OnNext"), ("equality", A+"notification.py:OnError.__eq__")])
p("C32", "A sequence that cannot be subscribed is reported, nothing is left behind",
  "When subscribing to one of the sequences of a pipeline raises, that very exception is not lost: either the call that subscribes (or iterates, or runs) the pipeline raises it, or the observer receives it as its terminal notification, as it always does for inner sequences of merging, concatenating, flat-mapping and switching and on the bridge to synchronous observables. "
  "Nothing is delivered after that, the pipeline does not complete instead, and every other source subscribed on behalf of it is released. Not promised inside catch and retry, after the pipeline has ended or was disposed, and for an inner sequence that switching has already superseded.",
  ["histories", "schedules", "fault_sequences"], "all histories in which inner, first or second sources fail to be subscribed at any moment, before, between and after the notifications of the others, consumed in every way the library offers",
  "the tests never let a subscription fail",
  [A+"combine.py", A+"transform.py", A+"observers.py", A+"leave.py"], [("inner subscriptions", A+"combine.py:merge_inner"), ("inner subscriptions", A+"transform.py:switch_latest"), ("release on failure", A+"observers.py:auto_detach_observer"), ("bridge", A+"leave.py:to_observable")])
for x in P:
    assert len(x["title"]) <= 80, x["title"]
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
