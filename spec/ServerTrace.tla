---------------------------- MODULE ServerTrace ----------------------------
(***************************************************************************)
(* Executions of the real server against ServerConn.tla: what the handler  *)
(* was given and what the clients received.  T.conns are the requests as   *)
(* sent; C13, C14 and C15 give the reasons their names.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json, IOUtils

CONSTANT MaxMb
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, nd, nr, bad
vars == <<tid, l, nd, nr, bad>>
T == Traces[tid]
E == T.ev[l]

Init == /\ tid \in 1..Len(Traces) /\ l = 1 /\ bad = << >>
        /\ nd = [c \in 1..Len(T.conns) |-> 0]   \* requests delivered
        /\ nr = [c \in 1..Len(T.conns) |-> 0]   \* requests answered, or passed over in silence

R(c) == T.conns[c]
(* the first request behind which nothing is promised *)
Lim(c) == IF \E i \in DOMAIN R(c) : R(c)[i].op = "bad" \/ R(c)[i].out = "herr" \/ ~R(c)[i].whole
          THEN CHOOSE i \in DOMAIN R(c) :
                 /\ R(c)[i].op = "bad" \/ R(c)[i].out = "herr" \/ ~R(c)[i].whole
                 /\ \A j \in 1..i - 1 : R(c)[j].op # "bad" /\ R(c)[j].out # "herr" /\ R(c)[j].whole
          ELSE Len(R(c)) + 1
AfterBad(c, i) == \E j \in 1..i : j \in DOMAIN R(c) /\ R(c)[j].op = "bad"
AfterFail(c, i) == \E j \in 1..i : j \in DOMAIN R(c) /\ R(c)[j].out = "herr"

Fields == {"op", "ks", "v", "f", "x", "d", "cas", "opt", "opq", "meta", "quiet"}
(* The opaque of a binary request is the server's own business. *)
Same(q, e, fl) == IF fl = "opq" /\ q.p = "bin" THEN TRUE ELSE q[fl] = e[fl]
Diff(q, e) == {fl \in Fields : ~Same(q, e, fl)}

Deliver ==
    LET c == E.c
        i == nd[c] + 1
    IN IF c = 0 THEN {"extra"}
       ELSE IF E.bad THEN {"bad.delivered"}
       ELSE IF AfterBad(c, i) THEN {}
       ELSE IF i > Len(R(c)) THEN {"extra"}
       ELSE IF ~R(c)[i].whole THEN {"partial"}
       ELSE IF E.op # R(c)[i].op /\ \E j \in i + 1..Len(R(c)) : E.op = R(c)[j].op /\ E.ks = R(c)[j].ks THEN {"lost"}
       ELSE IF E.ks # R(c)[i].ks /\ \E j \in 1..i - 1 : E.op = R(c)[j].op /\ E.ks = R(c)[j].ks /\ Diff(R(c)[j], E) = {} THEN {"twice"}
       ELSE {"fld." \o fl : fl \in Diff(R(c)[i], E)}

(* --- replies *)
Hits(q) == SelectSeq(q.items, LAMBDA it : it.out = "hit")
Failed(q) == \E i \in DOMAIN q.items : q.items[i].out \notin {"hit", "miss", "nf"}
Missed(q) == q.op = "get" /\ Hits(q) = << >> /\ ~Failed(q)
Quiet(q) == q.quiet /\ Missed(q)
Stores == {"set", "add", "replace"}

TokOf(q, it, t) ==
    CASE t = "c" -> it.c [] t = "f" -> it.f [] t = "k" -> q.ks[1] [] t = "s" -> it.n [] t = "t" -> it.t [] t = "O" -> q.opq
    [] OTHER -> "?"
Letters(s) == [i \in 1..Len(s) |-> SubSeq(s, i, i)]
Toks(q, it, e) == e.toks = [i \in 1..Len(q.order) |-> [t |-> Letters(q.order)[i], v |-> TokOf(q, it, Letters(q.order)[i])]]
(* a store may return them in any order *)
ToksAny(q, it, e) == /\ Len(e.toks) = Len(q.order)
                     /\ ToSet(e.toks) = {[t |-> Letters(q.order)[i], v |-> TokOf(q, it, Letters(q.order)[i])] : i \in 1..Len(q.order)}
HasV(q) == \E i \in 1..Len(q.opt) : Letters(q.opt)[i] = "v"
NoItem == [c |-> "", f |-> "", n |-> "", t |-> "", v |-> ""]

TextGet(q, e) ==
    IF Failed(q) THEN e.kind = "ERROR"
    ELSE /\ e.kind = "values"
         /\ Len(e.items) = Len(Hits(q))
         /\ \A i \in DOMAIN e.items : LET h == Hits(q)[i] IN
              e.items[i] = [k |-> h.k, f |-> h.f, v |-> h.v, c |-> IF q.casq THEN h.c ELSE ""]
MetaGet(q, e) ==
    LET it == q.items[1]
    IN CASE it.out = "hit" /\ HasV(q) -> e.kind = "VA" /\ e.v = it.v /\ Toks(q, it, e)
       [] it.out = "hit" -> e.kind = "HD" /\ Toks(q, it, e)
       [] Missed(q) -> e.kind = "EN"
       [] OTHER -> e.kind = "ERROR"
TextOther(q, e) ==
    CASE q.out = "ok" ->
           (CASE q.op \in Stores /\ q.meta -> e.kind = "HD" /\ ToksAny(q, NoItem, e)
            [] q.op \in Stores -> e.kind = "STORED"
            [] q.op = "delete" /\ q.meta -> e.kind = "HD" /\ e.toks = << >>
            [] q.op = "delete" -> e.kind = "DELETED"
            [] q.op \in {"incr", "decr"} -> e.kind = "NUM" /\ e.v = q.rv
            [] q.op = "touch" -> e.kind = "TOUCHED"
            [] q.op = "flush" -> e.kind = "OK"
            [] q.op = "version" -> e.kind = "VERSION" /\ e.v = q.rv
            [] OTHER -> FALSE)
    [] q.out = "nf" ->
           (CASE q.op = "replace" -> e.kind \in (IF q.meta THEN {"NS", "NF"} ELSE {"NOT_STORED", "NOT_FOUND"})
            [] q.op = "add" -> e.kind \in (IF q.meta THEN {"NS", "NF"} ELSE {"NOT_STORED", "NOT_FOUND"})
            [] q.op \in {"flush", "version"} -> e.kind \in {"ERROR", "NOT_FOUND"}
            [] OTHER -> e.kind = IF q.meta THEN "NF" ELSE "NOT_FOUND")
    [] q.out = "ex" ->
           (CASE q.op = "add" -> e.kind \in (IF q.meta THEN {"NS", "EX"} ELSE {"NOT_STORED", "EXISTS"})
            [] q.op = "replace" -> e.kind \in (IF q.meta THEN {"NS", "EX"} ELSE {"NOT_STORED", "EXISTS"})
            [] q.op \in {"flush", "version"} -> e.kind \in {"ERROR", "EXISTS"}
            [] OTHER -> e.kind = IF q.meta THEN "EX" ELSE "EXISTS")
    [] OTHER -> e.kind = "ERROR"

Empty == ""
Status(q) == CASE q.op = "get" -> (CASE Missed(q) -> "nf" [] Failed(q) -> q.items[1].out [] OTHER -> "ok") [] OTHER -> q.out
Bin(q, e) ==
    /\ e.kind = "bin" /\ e.op = q.bin /\ e.opq = q.opq
    /\ CASE Status(q) = "ok" -> e.st = 0 [] Status(q) = "nf" -> e.st = 1 [] Status(q) = "ex" -> e.st = 2 [] OTHER -> e.st \notin {0, 1, 2}
    /\ Status(q) = "ok" =>
          CASE q.op = "get" -> LET it == q.items[1] IN
                 /\ e.v = it.v /\ e.f = it.f /\ e.cs = it.c
                 /\ e.k = q.ks[1] \/ (e.k = Empty /\ q.bin = 0)
          [] q.op \in {"incr", "decr", "version"} -> e.v = q.rv
          [] OTHER -> e.v = Empty

Answers(q, e) ==
    CASE q.out = "herr" -> IF q.p = "bin" THEN e.kind = "bin" /\ e.st \notin {0, 1, 2} ELSE e.kind = "ERROR"
    [] q.p = "bin" -> Bin(q, e)
    [] q.op = "get" /\ ~q.meta -> TextGet(q, e)
    [] q.op = "get" -> MetaGet(q, e)
    [] OTHER -> TextOther(q, e)

(* the next request of c that has to be answered *)
RECURSIVE NextQ(_, _)
NextQ(c, i) == IF i <= Len(R(c)) /\ R(c)[i].op # "bad" /\ R(c)[i].out # "herr" /\ Quiet(R(c)[i]) THEN NextQ(c, i + 1) ELSE i

(* What kind of lie it is. *)
Kind(q, e) ==
    IF e.kind = "garbage" THEN "reply.garbage"
    ELSE IF q.out \in {"ok", "hit", "val"} /\ ~(q.op = "get" /\ (Failed(q) \/ Missed(q))) THEN "reply.success"
    ELSE IF q.op = "get" /\ ~Failed(q) THEN "reply.miss"
    ELSE "reply.failure"

Reply ==
    LET c == E.c
        i == NextQ(c, nr[c] + 1)
    IN IF AfterBad(c, i) THEN [i |-> i, r |-> {}]
       ELSE IF i > Len(R(c)) \/ ~R(c)[i].whole THEN [i |-> i, r |-> {"reply.extra"}]
       ELSE [i |-> i, r |-> IF Answers(R(c)[i], E) THEN {} ELSE {Kind(R(c)[i], E)}]

AtEnd ==
    LET c == E.c
        unanswered == NextQ(c, nr[c] + 1)
    IN (IF E.closed THEN {} ELSE {"stuck"})
       \cup (IF E.reset THEN {} ELSE
              (IF nd[c] >= Lim(c) - 1 THEN {} ELSE {"lost"})
              \cup (IF unanswered >= Lim(c) THEN {} ELSE {"noreply"})
              \cup (IF E.rest = "" \/ (Lim(c) <= Len(R(c)) /\ R(c)[Lim(c)].op = "bad") THEN {} ELSE {"reply.garbage"}))

Reasons ==
    CASE E.e = "deliver" -> Deliver
    [] E.e = "reply" -> Reply.r
    [] E.e = "done" -> AtEnd
    [] E.e = "fresh" -> IF E.ok THEN {} ELSE {"fresh"}
    [] E.e = "mem" -> IF E.mb <= MaxMb THEN {} ELSE {"mem"}
    [] E.e = "line" -> IF E.closed THEN {} ELSE {"line"}
    [] E.e = "stuck" -> {"stuck"}
    [] E.e = "kept" -> {"fld.kept"}      \* what the handler keeps stays as it was
    [] OTHER -> {"HARNESS"}

Step == /\ l <= Len(T.ev)
        /\ l' = l + 1 /\ tid' = tid
        /\ bad' = bad \o SetToSeq({[l |-> l, r |-> r] : r \in Reasons})
        /\ nd' = IF E.e = "deliver" /\ E.c > 0 /\ E.c <= Len(T.conns) /\ ~E.bad THEN [nd EXCEPT ![E.c] = @ + 1] ELSE nd
        /\ nr' = IF E.e = "reply" /\ E.c > 0 THEN [nr EXCEPT ![E.c] = Reply.i] ELSE nr
Done == l > Len(T.ev) /\ UNCHANGED vars
Next == Step \/ Done
Report == l > Len(T.ev) /\ bad # << >> => PrintT(<<"BAD", tid, T.id, ToJson(bad)>>)
=============================================================================
