-------------------------------- MODULE Args --------------------------------
(* Arguments that cannot mean anything: the behaviours are single calls.    *)
EXTENDS Integers, Sequences, TLC, Json
VARIABLES script
Ops == {<<"take", n>> : n \in {-40, -2, -1, 0, 1, 3}} \cup {<<"slice", n>> : n \in {-40, -2, -1, 1, 2, 3}}
Refused(o) == o[2] < 0
Init == script = <<>>
Next == script = <<>> /\ \E o \in Ops : script' = <<o>>
Spec == Init /\ [][Next]_script
Emit == script # <<>> => PrintT("@S " \o ToJson([cfg |-> "args", script |-> script]))
=============================================================================
