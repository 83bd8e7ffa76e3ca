------------------------------- MODULE Store -------------------------------
(***************************************************************************)
(* The key-value semantics of one memcached server, as operators over a    *)
(* store (a function from keys to items).  Everything that is stored or    *)
(* compared is opaque (strings naming bytes, flags and CAS tokens) except   *)
(* counters, for which Dec gives 64-bit arithmetic, and time.              *)
(*                                                                         *)
(* These operators are shared by the design models, the scenario           *)
(* generators and the trace specifications.                                *)
(***************************************************************************)
EXTENDS Integers, Dec

NoExp == 2000000000              \* "never expires", later than any time used
Absent == [p |-> FALSE, v |-> "", f |-> "", x |-> 0, c |-> ""]
Item(v, f, x, c) == [p |-> TRUE, v |-> v, f |-> f, x |-> x, c |-> c]

Lookup(st, k) == IF k \in DOMAIN st THEN st[k] ELSE Absent
Put(st, k, it) == (k :> it) @@ st
Alive(it, now) == it.p /\ it.x > now
Live(st, k, now) == IF Alive(Lookup(st, k), now) THEN Lookup(st, k) ELSE Absent

(* Expiration as sent: seconds from now (0: never, negative: already
   expired), or, beyond 30 days, an absolute time. *)
AbsExp(now, xk, x) == IF xk = "abs" THEN x
                      ELSE IF x = 0 THEN NoExp
                      ELSE IF x < 0 THEN now ELSE now + x
TTL(it, now) == IF it.x = NoExp THEN -1 ELSE it.x - now

(* A command is a record [op, k, v, f, xk, x, d, cas, init, iv]; its outcome is
   [rep, it, n]: the kind of reply, the item it speaks about and the number
   it returns.  `nc` is the CAS token the server assigns if it modifies the
   item. *)
Rep(kind, it, n) == [rep |-> kind, it |-> it, n |-> n]

(* In the binary protocol any command may carry a token. *)
Stale(cmd, old) == cmd.cas # "" /\ old.c # cmd.cas

NewCounter(cmd, old) ==
    IF cmd.op = "incr" THEN IncrBy(CounterOf(old.v), cmd.d) ELSE DecrBy(CounterOf(old.v), cmd.d)

Outcome(st, now, cmd, nc) ==
    LET old == Live(st, cmd.k, now)
        new == Item(cmd.v, cmd.f, AbsExp(now, cmd.xk, cmd.x), nc)
    IN CASE cmd.op \in {"get", "gat"} ->
              IF old.p THEN Rep("hit", IF cmd.op = "gat" THEN [old EXCEPT !.x = AbsExp(now, cmd.xk, cmd.x)] ELSE old, "")
              ELSE Rep("miss", Absent, "")
         [] cmd.op = "set" -> Rep("stored", new, "")
         \* with a token an add is a conditional set
         [] cmd.op = "cas" \/ (cmd.op = "add" /\ cmd.cas # "") ->
              IF ~old.p THEN Rep("notfound", old, "")
              ELSE IF old.c # cmd.cas THEN Rep("exists", old, "")
              ELSE Rep("stored", new, "")
         [] cmd.op = "add" -> IF old.p THEN Rep("notstored", old, "") ELSE Rep("stored", new, "")
         [] cmd.op = "replace" -> IF ~old.p THEN Rep("notstored", old, "")
                                  ELSE IF Stale(cmd, old) THEN Rep("exists", old, "") ELSE Rep("stored", new, "")
         [] cmd.op = "delete" -> IF ~old.p THEN Rep("notfound", old, "")
                                 ELSE IF Stale(cmd, old) THEN Rep("exists", old, "") ELSE Rep("deleted", Absent, "")
         [] cmd.op \in {"incr", "decr"} ->
              IF ~old.p
              THEN IF cmd.init
                   THEN Rep("num", Item(cmd.iv, "00000000", AbsExp(now, cmd.xk, cmd.x), nc), cmd.iv)
                   ELSE Rep("notfound", old, "")
              ELSE IF ~IsCounter(old.v) THEN Rep("nonnum", old, "")
              ELSE IF Stale(cmd, old) THEN Rep("exists", old, "")
              ELSE LET n == NewCounter(cmd, old)
                   IN Rep("num", [old EXCEPT !.v = PadTo(n, Len(old.v)), !.c = nc], n)
         [] cmd.op = "touch" ->
              IF old.p THEN Rep("touched", [old EXCEPT !.x = AbsExp(now, cmd.xk, cmd.x), !.c = nc], "")
              ELSE Rep("notfound", old, "")
         [] cmd.op \in {"flush", "version"} -> Rep("ok", Absent, "")
         [] OTHER -> Rep("bad", Absent, "")

Modifies(rep) == rep \in {"stored", "deleted", "num", "touched"}

(* The store after a command whose outcome is `o`. *)
Effect(st, cmd, o) ==
    IF cmd.op = "flush" /\ o.rep = "ok" THEN << >>
    ELSE IF Modifies(o.rep) \/ (cmd.op = "gat" /\ o.rep = "hit") THEN Put(st, cmd.k, o.it)
    ELSE st
=============================================================================
