-------------------------------- MODULE Inj --------------------------------
(***************************************************************************)
(* Scenario space of the key-injection property: every keyed call with     *)
(* every class of hostile key, with values that are commands themselves,   *)
(* among good keys, followed by calls on good keys.                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS KeyClasses, Ops, Vals

VARIABLES hist, par
vars == <<hist, par>>

Pos == {0, 1, 2}     \* place of the bad key in a GetMulti

Init == /\ hist = << >>
        /\ par \in [op : Ops, kc : KeyClasses, v : Vals, pos : Pos]
        /\ par.op \in {"set", "add", "replace", "cas"} \/ par.v = CHOOSE v \in Vals : TRUE
        /\ par.op = "getm" \/ par.pos = 0

Bad == CASE par.op = "getm" -> [op |-> "getm", ks |-> CASE par.pos = 0 -> <<"z">>
                                                        [] par.pos = 1 -> <<"z", "a", "b">>
                                                        [] OTHER -> <<"a", "z", "b">>]
         [] par.op = "cas" -> [op |-> "set", k |-> "z", v |-> par.v, cas |-> "bogus"]
         [] par.op \in {"set", "add", "replace"} -> [op |-> par.op, k |-> "z", v |-> par.v]
         [] par.op \in {"incr", "decr"} -> [op |-> par.op, k |-> "z", d |-> 1]
         [] par.op = "touch" -> [op |-> "touch", k |-> "z", x |-> 100]
         [] OTHER -> [op |-> par.op, k |-> "z"]

Next == /\ hist = << >>
        /\ hist' = <<[op |-> "set", k |-> "a", v |-> "n5"], [op |-> "set", k |-> "b"], Bad,
                     [op |-> "get", k |-> "a"], [op |-> "incr", k |-> "a", d |-> 3], Bad,
                     [op |-> "set", k |-> "b", f |-> "5"]>>
        /\ UNCHANGED par
Emit == PrintT("SCN " \o ToJson([steps |-> hist', kc |-> par.kc]))
=============================================================================
