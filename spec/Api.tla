-------------------------------- MODULE Api --------------------------------
(***************************************************************************)
(* What the methods of a client connection mean.  A call is a record        *)
(*   [op, k, ks, v, f, xk, x, d, cas, bad, restore, ...]                    *)
(* an executed command (`exec`) a record                                    *)
(*   [op, k, v, f, xk, x, d, cas, init, iv, rep, it, n]                     *)
(* where [rep, it, n] is the Outcome that the store specification gives it, *)
(* and a result                                                             *)
(*   [r, items, n, ver]   r \in {"ok","nf","ex","err"}.                     *)
(*                                                                          *)
(* The module says which commands a call may cause (CmdDiff) and which      *)
(* results are right for the outcomes of these commands (Verdict).          *)
(***************************************************************************)
EXTENDS Store, SequencesExt, FiniteSets, FiniteSetsExt

Protos == {"text", "meta", "binary"}

SameExp(ak, ax, bk, bx) == \/ ak = bk /\ ax = bx
                           \/ ak = "rel" /\ bk = "rel" /\ ax < 0 /\ bx < 0

WireOps(call) ==
    CASE call.op \in {"get", "getm"} -> {"get"}
      [] call.op = "set" -> IF call.cas = "" THEN {"set"} ELSE {"cas"}
      [] call.op = "touch" -> {"touch", "gat"}
      [] OTHER -> {call.op}

KeyOps == {"get", "set", "add", "replace", "delete", "incr", "decr", "touch"}
StoreOps == {"set", "add", "replace"}

(* The tokens that the command of a call may carry. An add stores what is not
   there, whatever token the item has; a replace need not look at the token. *)
Tokens(proto, call) ==
    CASE call.op = "set" -> {call.cas}
      [] call.op = "replace" /\ proto = "binary" -> {"", call.cas}
      [] OTHER -> {""}

(* The ways in which an executed command differs from what the call asks
   for; the empty set if it is the command of this call. *)
CmdDiff(proto, call, ex) ==
    IF \/ ex.op \notin WireOps(call) \cup (IF call.op = "set" THEN {"set", "cas"} ELSE {})
       \/ call.op = "getm" /\ ~Contains(call.ks, ex.k)
       \/ call.op \in KeyOps /\ ex.k # call.k
    THEN {"wire.cmd"}
    ELSE (IF call.op \in StoreOps /\ ex.v # call.v THEN {"wire.val"} ELSE {})
         \cup (IF call.op \in StoreOps /\ ex.f # call.f THEN {"wire.flags"} ELSE {})
         \cup (IF call.op \in StoreOps \cup {"touch"} /\ ~call.restore
                  /\ ~SameExp(ex.xk, ex.x, call.xk, call.x) THEN {"wire.exp"} ELSE {})
         \cup (IF call.op \in {"incr", "decr"} /\ ex.d # call.d THEN {"wire.delta"} ELSE {})
         \cup (IF call.op \in {"incr", "decr"} /\ proto = "binary"
                  /\ (~ex.init \/ ex.iv # "1" \/ ~SameExp(ex.xk, ex.x, call.xk, call.x)) THEN {"wire.init"} ELSE {})
         \cup (IF call.op \in {"incr", "decr"} /\ proto # "binary" /\ ex.init THEN {"wire.init"} ELSE {})
         \cup (IF ex.cas \notin Tokens(proto, call) \/ ex.op \notin WireOps(call)
               THEN {"wire.cas"} ELSE {})

(* Commands a complete execution of the call consists of. *)
Count(s, P(_)) == Cardinality({i \in DOMAIN s : P(s[i])})
WireWhole(call, W) ==
    IF call.op = "getm"
    THEN \A k \in ToSet(call.ks) : Count(W, LAMBDA e : e.k = k) >= 1
    ELSE Len(W) = 1
WireDup(call, W) ==
    IF call.op = "getm"
    THEN \E k \in ToSet(call.ks) : Count(W, LAMBDA e : e.k = k) > Count(call.ks, LAMBDA q : q = k)
    ELSE Len(W) > 1

Errors == {"error", "toolarge", "nonnum", "bad"}

(* A reported item against the item the backend answered with. *)
ItemDiff(proto, now, rit, k, it, from) ==
    (IF rit.s \in {from, "*"} THEN {} ELSE {"item.srv"})
    \cup (IF rit.k # k THEN {"item.key"} ELSE {})
    \cup (IF rit.v # it.v THEN {"item.val"} ELSE {})
    \cup (IF rit.f # it.f THEN {"item.flags"} ELSE {})
    \cup (IF rit.c # it.c THEN {"item.cas"} ELSE {})
    \cup (IF proto = "meta" /\ it.x # NoExp
             /\ (\/ AbsExp(now, rit.tk, rit.t) = NoExp
                 \* a date is counted from the real clock, `now` seconds behind
                 \/ AbsExp(now, rit.tk, rit.t) - it.x \notin (IF rit.tk = "abs" THEN -now - 3 ELSE -3)..3)
          THEN {"item.ttl"} ELSE {})
    \cup (IF proto = "meta" /\ it.x = NoExp /\ AbsExp(now, rit.tk, rit.t) # NoExp THEN {"item.ttl"} ELSE {})

(* Is the result class right for the outcome of the (single) command? *)
ClassOf(proto, call, rep) ==   \* the set of right result classes
    CASE rep \in Errors -> {"err"}
      [] call.op = "get" -> IF rep = "hit" THEN {"ok"} ELSE {"nf"}
      [] call.op = "set" -> CASE rep = "stored" -> {"ok"}
                              [] rep = "exists" -> {"ex"}
                              [] rep = "notfound" -> {"nf", "err"}
                              [] OTHER -> {"err"}
      [] call.op = "add" -> IF rep = "stored" THEN {"ok"} ELSE {"ex"}
      [] call.op = "replace" -> CASE rep = "stored" -> {"ok"} [] rep = "exists" -> {"ex", "err"} [] OTHER -> {"nf"}
      [] call.op = "delete" -> IF rep = "deleted" THEN {"ok"}
                               ELSE IF proto = "meta" THEN {"ok"} ELSE {"nf"}
      [] call.op \in {"incr", "decr"} -> IF rep = "num" THEN {"ok"} ELSE {"nf"}
      [] call.op = "touch" -> IF rep \in {"touched", "hit"} THEN {"ok"}
                              ELSE IF proto = "text" THEN {"nf"} ELSE {"nf", "err"}
      [] call.op \in {"flush", "version"} -> {"ok"}
      [] OTHER -> {}

(* Name a wrong result class. *)
ClassReason(got, want) ==
    CASE got = "ok" -> "falseok"
      [] got = "nf" -> "falsemiss"
      [] got = "ex" -> "falseexists"
      [] got = "err" /\ want \subseteq {"nf", "ex"} -> "sentinel"
      [] OTHER -> "falseerr"

(* Reasons why the result `ret` is wrong, given that the call caused exactly
   the commands W (a sequence of exec records with their outcomes). `now` is
   the time of the call, `ver` the version string the backend gives. *)
Verdict(proto, call, W, ret, now, ver) ==
    IF call.op = "getm"
    THEN IF \E i \in DOMAIN W : W[i].rep \in Errors
         THEN IF ret.r = "err" THEN {} ELSE {ClassReason(ret.r, {"err"})}
         ELSE IF ret.r # "ok" THEN {ClassReason(ret.r, {"ok"})}
         ELSE LET hits == {W[i].k : i \in {j \in DOMAIN W : W[j].rep = "hit"}}
                  got  == {ret.items[i].k : i \in DOMAIN ret.items}
              IN (IF hits \ got # {} THEN {"gm.lost"} ELSE {})
                 \cup (IF got \ hits # {} THEN {"gm.extra"} ELSE {})
                 \cup (IF \E k \in got : Count(ret.items, LAMBDA q : q.k = k) > Count(call.ks, LAMBDA q : q = k)
                       THEN {"gm.dup"} ELSE {})
                 \cup UNION {LET rit == ret.items[i]
                                 Of == {j \in DOMAIN W : W[j].k = rit.k /\ W[j].rep = "hit"}
                             IN IF Of = {} THEN {}
                                ELSE IF \E j \in Of : ItemDiff(proto, now, rit, rit.k, W[j].it, W[j].b) = {} THEN {}
                                ELSE ItemDiff(proto, now, rit, rit.k, W[CHOOSE j \in Of : TRUE].it, W[CHOOSE j \in Of : TRUE].b)
                             : i \in DOMAIN ret.items}
    ELSE LET o == W[1]
             want == ClassOf(proto, call, o.rep)
         IN IF call.op \in {"incr", "decr"} /\ o.rep = "num" /\ ~Less(o.n, TwoTo63)
            THEN IF ret.r \in {"nf", "ex"} THEN {ClassReason(ret.r, {"ok"})} ELSE {}
            ELSE IF ret.r \notin want THEN {ClassReason(ret.r, want)}
            ELSE IF ret.r # "ok" THEN {}
            ELSE CASE call.op = "get" -> IF Len(ret.items) # 1 THEN {"item.none"}
                                         ELSE ItemDiff(proto, now, ret.items[1], call.k, o.it, o.b)
                   [] call.op \in {"incr", "decr"} -> IF ret.n # o.n THEN {"num"} ELSE {}
                   [] call.op = "version" -> IF ret.ver # ver THEN {"version"} ELSE {}
                   [] OTHER -> {}
=============================================================================
