-------------------------------- MODULE Fid --------------------------------
(***************************************************************************)
(* Scenario space of the fidelity property: every way of storing an item   *)
(* (operation, value class, flags, expiration, kind of key) followed by    *)
(* every way of reading it back, re-storing what was read, and letting time *)
(* pass up to the boundary of its lifetime.                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS Vals, FlagSet, Exps, KeySets, Reads, StoreOps

VARIABLES hist, ph, par
vars == <<hist, ph, par>>

Init == /\ hist = << >> /\ ph = "choose"
        /\ par \in [op : StoreOps, v : Vals, f : FlagSet, x : Exps, ks : KeySets, rd : Reads]

Read(r) == CASE r = "get" -> <<[op |-> "get", k |-> "a"]>>
             [] r = "getm" -> <<[op |-> "getm", ks |-> <<"b", "a", "c">>]>>
             [] OTHER -> <<[op |-> "getm", ks |-> <<"a">>], [op |-> "get", k |-> "a"]>>

Prep == CASE par.op \in {"replace", "touch", "restore"} -> <<[op |-> "set", k |-> "a", v |-> "u", x |-> 7]>>
          [] par.op = "cas" -> <<[op |-> "set", k |-> "a", v |-> "u"], [op |-> "get", k |-> "a"]>>
          [] OTHER -> << >>

X == [x |-> par.x.x, xa |-> par.x.xa]
Main == CASE par.op = "touch" -> <<[op |-> "touch", k |-> "a"] @@ X>>
          [] par.op = "cas" -> <<[op |-> "set", k |-> "a", v |-> par.v, f |-> par.f, cas |-> "obs"] @@ X>>
          [] par.op = "restore" -> <<[op |-> "set", k |-> "a", v |-> par.v, f |-> par.f] @@ X,
                                     [op |-> "get", k |-> "a"], [op |-> "restore", k |-> "a"]>>
          [] par.op = "mrestore" -> <<[op |-> "set", k |-> "a", v |-> par.v, f |-> par.f] @@ X,
                                      [op |-> "getm", ks |-> <<"a">>], [op |-> "restore", k |-> "a"]>>
          [] OTHER -> <<[op |-> par.op, k |-> "a", v |-> par.v, f |-> par.f] @@ X>>

(* up to one second before the end, and past it *)
Later == IF par.x.x \in 1..1000 /\ ~par.x.xa
         THEN (IF par.x.x > 1 THEN <<[op |-> "tick", n |-> par.x.x - 1], [op |-> "get", k |-> "a"]>> ELSE << >>)
              \o <<[op |-> "tick", n |-> 1], [op |-> "get", k |-> "a"]>>
         ELSE << >>

Next == /\ ph = "choose" /\ ph' = "done"
        /\ hist' = Prep \o Main \o Read(par.rd) \o Later
        /\ UNCHANGED par
Emit == PrintT("SCN " \o ToJson([steps |-> hist', keyset |-> par.ks]))
=============================================================================
