----------------------------- MODULE PoolTrace -----------------------------
(***************************************************************************)
(* Trace specification for pools: several backends, one sequential caller, *)
(* a SinglePool or a ReplicaPool.  Every command a backend executed moves  *)
(* that backend's specified store; which backend owns a key is learned     *)
(* from the first command for it and must never change; the results are    *)
(* judged as Api and the replication rules of Pool.tla prescribe.          *)
(***************************************************************************)
EXTENDS Api, Json, IOUtils, TLC

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tid, l, sts, now, cur, wire, faulty, link, down, orphans, own, cl, bad

vars == <<tid, l, sts, now, cur, wire, faulty, link, down, orphans, own, cl, bad>>

None == [op |-> ""]
T == Traces[tid]
E == T.ev[l]
Router == T.target = "router"
Replica == T.target \in {"replica", "router"}
(* What a router does not offer its clients: it may refuse these. *)
Refusable == /\ Router /\ cur.c # "pool"
             /\ cur.op # "get"
             /\ ~(cur.op = "getm" /\ cur.c = "text")
             /\ ~(cur.op = "set" /\ (cur.cas = "" \/ cur.c # "text"))
(* a client whose connection to the router has ended *)
Cut == Router /\ cur.c \in DOMAIN cl /\ cl[cur.c] # "ok"
(* the protocol whose items the caller sees *)
Seen(b) == IF Router THEN cur.p ELSE T.protos[b]
Pri == ToSet(T.bs)
Secs == ToSet(T.ss)
Tier(b) == IF b \in Pri THEN "p" ELSE "s"
ProtoOf(b) == T.protos[b]

Init == /\ tid \in 1..Len(Traces)
        /\ l = 1 /\ sts = [b \in ToSet(Traces[tid].bs) \cup ToSet(Traces[tid].ss) |-> << >>] /\ now = 0
        /\ cur = None /\ wire = << >> /\ faulty = {}
        /\ link = [b \in ToSet(Traces[tid].bs) \cup ToSet(Traces[tid].ss) |-> "ok"] /\ down = {}
        /\ orphans = << >> /\ own = << >> /\ cl = << >> /\ bad = << >>

Blame(rs) == bad' = bad \o SetToSeq({[l |-> l, r |-> r] : r \in rs})

----------------------------------------------------------------------------
Call == /\ E.e = "call"
        /\ cur' = E /\ wire' = << >> /\ faulty' = {}
        /\ UNCHANGED <<sts, now, link, down, orphans, own, bad, cl>>

OutcomeOf(ex) == IF ex.rep = "error" THEN Rep("error", Absent, "")
                 ELSE IF ex.rep = "toolarge" THEN Rep("toolarge", Absent, "")
                 ELSE Outcome(sts[ex.b], now, ex, ex.rc)

BackendOk(ex, o) ==
    /\ ex.rep = o.rep
    /\ o.rep = "hit" => ex.rv = o.it.v /\ ex.rf = o.it.f /\ ex.rc = o.it.c /\ ex.rt = TTL(o.it, now)
    /\ o.rep = "num" => ex.rn = o.n

Accepted(e) == \/ e.rep \in {"stored", "deleted", "num", "touched"}
               \/ e.op = "delete" /\ e.rep = "notfound"     \* meta delete of a missing key succeeds
Writes == {"set", "add", "replace", "delete", "incr", "decr"}
IsRead(e) == e.op = "get"

(* The commands at the primary that are the call itself (a replicated counter
   is read back from the primary, too). *)
MainP(W) == SelectSeq(W, LAMBDA e : Tier(e.b) = "p" /\ ~(Replica /\ cur.op \in {"incr", "decr"} /\ IsRead(e)))
SecW(W) == SelectSeq(W, LAMBDA e : Tier(e.b) = "s")

TierKey(b, k) == <<Tier(b), k>>
Routed(e) == e.k = "" \/ TierKey(e.b, e.k) \notin DOMAIN own \/ own[TierKey(e.b, e.k)] = e.b

CmdReasons(e) ==
    IF Tier(e.b) = "p"
    THEN IF Replica /\ cur.op \in {"incr", "decr"} /\ IsRead(e) /\ e.k = cur.k THEN {}
         ELSE CmdDiff(ProtoOf(e.b), cur, e)
    ELSE IF cur.op \notin Writes THEN {"sec.read"}
    ELSE IF e.k # cur.k THEN {"wire.cmd"}
    ELSE LET M == MainP(wire)
         IN IF \E i \in DOMAIN M : Accepted(M[i]) THEN {}
            ELSE IF M # << >> THEN {"sec.sent"} ELSE {"sec.early"}

Orphan(e) == {i \in DOMAIN orphans : /\ orphans[i].op \in KeyOps => orphans[i].k = e.k
                                     /\ orphans[i].op = "getm" => Contains(orphans[i].ks, e.k)}

Exec == /\ E.e = "exec"
        /\ LET o == OutcomeOf(E)
               ex == E @@ [it |-> o.it, n |-> o.n]
               h == IF BackendOk(E, o) THEN {} ELSE {"HARNESS"}
               rs == IF cur = None THEN {"wire.cmd"} ELSE CmdReasons(E)
           IN /\ sts' = [sts EXCEPT ![E.b] = Effect(sts[E.b], E, o)]
              /\ IF E.c = 0 THEN Blame(h) /\ UNCHANGED <<wire, orphans, own, cl>>
                 ELSE IF "wire.cmd" \in rs /\ Orphan(E) # {}
                 THEN /\ orphans' = RemoveAt(orphans, Min(Orphan(E))) /\ Blame(h) /\ UNCHANGED <<wire, own, cl>>
                 ELSE /\ Blame(h \cup rs \cup (IF Routed(E) THEN {} ELSE {"route"})
                                 \cup (IF link[E.b] = "closed" THEN {"closed.exec"} ELSE {}))
                      /\ own' = IF E.k = "" \/ TierKey(E.b, E.k) \in DOMAIN own THEN own
                                ELSE (TierKey(E.b, E.k) :> E.b) @@ own
                      /\ wire' = IF cur # None /\ "wire.cmd" \notin rs THEN Append(wire, ex) ELSE wire
                      /\ UNCHANGED orphans
        /\ UNCHANGED <<now, cur, faulty, link, down, cl>>

Fault == /\ E.e = "fault"
         /\ faulty' = faulty \cup {E.b}
         /\ link' = IF link[E.b] = "closed" THEN link ELSE [link EXCEPT ![E.b] = "sus"]
         /\ UNCHANGED <<sts, now, cur, wire, down, orphans, own, bad, cl>>

BadReq == /\ E.e = "badreq"
          /\ Blame(IF cur # None /\ (cur.bad \/ faulty # {}) THEN {} ELSE {"badreq"})
          /\ UNCHANGED <<sts, now, cur, wire, faulty, link, down, orphans, own, cl>>

----------------------------------------------------------------------------
(* A backend that may be the reason for a failure. *)
Ill(b) == b \in faulty \/ link[b] # "ok" \/ b \in down
OwnerIll(k, tier) == IF <<tier, k>> \in DOMAIN own THEN Ill(own[<<tier, k>>])
                     ELSE \E b \in IF tier = "p" THEN Pri ELSE Secs : Ill(b)
Failed(W) == \E i \in DOMAIN W : W[i].rep \in Errors

(* A lifetime may be rounded by a few seconds. A copied lifetime of more than
   30 days is sent as a date, which the client counts from its own clock; the
   clock of the specification may be `now` seconds ahead of it. *)
Equal(a, b, xk) == /\ a.p = b.p
                   /\ a.p => /\ a.v = b.v /\ a.f = b.f
                             /\ \/ a.x = b.x
                                \/ a.x # NoExp /\ b.x # NoExp /\ a.x - b.x \in -3..(IF xk = "abs" THEN now + 3 ELSE 3)

Keyed(ret) ==
    IF cur.bad /\ ret.r = "err" THEN {}
    ELSE LET M == MainP(wire)
    IN IF Len(M) > 1 THEN {"dup"}
       ELSE IF M = << >>
       THEN IF ret.r = "err" THEN (IF OwnerIll(cur.k, "p") THEN {} ELSE {"falseerr"}) ELSE {"noexec"}
       ELSE IF ret.r = "err" /\ Ill(M[1].b) THEN {}
       ELSE IF ~Replica \/ cur.op \notin Writes \/ ~Accepted(M[1])
       THEN Verdict(Seen(M[1].b), cur, M, ret, now, "")
       ELSE IF ret.r = "err" THEN (IF Failed(wire) \/ OwnerIll(cur.k, "s") THEN {}
                                   ELSE IF cur.op \in {"incr", "decr"} /\ ~Less(M[1].n, TwoTo63) THEN {} ELSE {"falseerr"})
       ELSE IF ret.r # "ok" THEN {ClassReason(ret.r, {"ok"}), "sec.refused"}
       ELSE LET S == SecW(wire)
            IN Verdict(Seen(M[1].b), cur, M, ret, now, "")
               \cup (IF S = << >> \/ Last(S).rep \in Errors THEN {"sec.hidden"}
                     ELSE IF Equal(Live(sts[M[1].b], cur.k, now), Live(sts[Last(S).b], cur.k, now), Last(S).xk) THEN {} ELSE {"sec.diff"})

GetM(ret) ==
    IF cur.bad /\ ret.r = "err" THEN {}
    ELSE IF Len(cur.ks) = 0 THEN (IF ret.r = "err" \/ Len(ret.items) = 0 THEN {} ELSE {"gm.extra"})
    ELSE IF ret.r = "err" /\ (Failed(wire) \/ \E i \in DOMAIN cur.ks : OwnerIll(cur.ks[i], "p")) THEN {}
    ELSE IF WireDup(cur, wire) THEN {"dup"}
    ELSE IF ~WireWhole(cur, wire) THEN (IF ret.r = "err" THEN {"falseerr"} ELSE {"noexec"})
    ELSE Verdict(IF Router THEN cur.p ELSE T.proto, cur, wire, ret, now, "")

All(ret) ==
    LET Done(b) == {i \in DOMAIN wire : wire[i].b = b}
    IN IF \E b \in Pri : Cardinality(Done(b)) > 1 THEN {"dup"}
       ELSE IF ret.r = "err" THEN (IF Failed(wire) \/ \E b \in Pri : Ill(b) THEN {} ELSE {"falseerr"})
       ELSE IF ret.r # "ok" THEN {ClassReason(ret.r, {"ok"})}
       ELSE (IF \E b \in Pri : ~\E i \in Done(b) : wire[i].rep = "ok" THEN {"falseok"} ELSE {})
            \cup (IF cur.op = "version" /\ ToSet(ret.vers) # {[s |-> b, v |-> "fake-" \o b] : b \in Pri} THEN {"version"} ELSE {})

RetData(ret) ==
    IF ret.r \in {"panic", "hang"} THEN {ret.r}
    ELSE IF ret.r = "err" /\ (Refusable \/ Cut) THEN {}
    ELSE CASE cur.op = "getm" -> GetM(ret)
           [] cur.op \in {"flush", "version"} -> All(ret)
           [] OTHER -> Keyed(ret)

Whole == CASE cur.op = "getm" -> WireWhole(cur, wire)
           [] Replica -> FALSE
           [] OTHER -> wire # << >>

Ret == /\ E.e = "ret"
       /\ IF cur.op = "close"
          THEN /\ Blame(IF E.r \in {"panic", "hang"} THEN {E.r} ELSE {})
               /\ link' = [b \in DOMAIN link |-> IF b \in Pri THEN "closed" ELSE link[b]]
               /\ UNCHANGED <<orphans, cl>>
          ELSE /\ cl' = IF Router /\ E.r = "err" /\ cur.c # "pool" THEN (cur.c :> "sus") @@ cl ELSE cl
               /\ Blame(RetData(E) \cup (IF E.mut THEN {"mut"} ELSE {}) \cup (IF E.late THEN {"late"} ELSE {}))
               /\ orphans' = IF E.r = "err" /\ faulty # {} /\ ~Whole THEN Append(orphans, cur) ELSE orphans
               /\ UNCHANGED link
       /\ cur' = None /\ wire' = << >> /\ faulty' = {}
       /\ UNCHANGED <<sts, now, down, own>>

----------------------------------------------------------------------------
Tick == E.e = "tick" /\ now' = now + E.n /\ UNCHANGED <<sts, cur, wire, faulty, link, down, orphans, own, bad, cl>>
SetLink(b, s) == link' = IF link[b] = "closed" THEN link ELSE [link EXCEPT ![b] = s]
Drop == /\ E.e = "drop" /\ SetLink(E.b, "sus")
        /\ UNCHANGED <<sts, now, cur, wire, faulty, down, orphans, own, bad, cl>>
(* operations on one server of the pool *)
SRec == /\ E.e = "srec" /\ SetLink(E.b, IF E.r = "ok" THEN "ok" ELSE "sus")
        /\ UNCHANGED <<sts, now, cur, wire, faulty, down, orphans, own, bad, cl>>
SClose == /\ E.e = "sclose" /\ SetLink(E.b, "closed")
          /\ UNCHANGED <<sts, now, cur, wire, faulty, down, orphans, own, bad, cl>>
Down == /\ E.e = "down" /\ down' = down \cup {E.b} /\ SetLink(E.b, "sus")
        /\ UNCHANGED <<sts, now, cur, wire, faulty, orphans, own, bad, cl>>
Up == E.e = "up" /\ down' = down \ {E.b} /\ UNCHANGED <<sts, now, cur, wire, faulty, link, orphans, own, bad, cl>>
CRec == /\ E.e = "crec"
        /\ Blame(IF E.r = "ok" THEN {} ELSE {"creconnect"})
        /\ cl' = IF E.r = "ok" THEN (E.c :> "ok") @@ cl ELSE cl
        /\ UNCHANGED <<sts, now, cur, wire, faulty, link, down, orphans, own>>
Conns == /\ E.e = "conns"
         /\ Blame(IF link[E.b] = "closed" /\ E.n # 0 THEN {"sock"} ELSE {})
         /\ UNCHANGED <<sts, now, cur, wire, faulty, link, down, orphans, own, cl>>
Recheck == /\ E.e = "recheck"
           /\ Blame(IF E.ok THEN {} ELSE {"recheck"})
           /\ UNCHANGED <<sts, now, cur, wire, faulty, link, down, orphans, own, cl>>
Harness == /\ E.e = "harness"
           /\ Blame({"HARNESS"})
           /\ UNCHANGED <<sts, now, cur, wire, faulty, link, down, orphans, own, cl>>
Skip == /\ E.e \in {"ext", "dump", "accept", "eof", "slow"}
        /\ UNCHANGED <<sts, now, cur, wire, faulty, link, down, orphans, own, bad, cl>>

Step == /\ l <= Len(T.ev)
        /\ l' = l + 1 /\ tid' = tid
        /\ \/ Call \/ Exec \/ Fault \/ BadReq \/ Ret \/ Tick \/ Drop \/ SRec \/ SClose \/ Down \/ Up \/ CRec \/ Conns
           \/ Recheck \/ Harness \/ Skip
Done == l > Len(T.ev) /\ UNCHANGED vars
Next == Step \/ Done
Spec == Init /\ [][Next]_vars

Report == l > Len(T.ev) /\ bad # << >> => PrintT(<<"BAD", tid, T.id, ToJson(bad)>>)
=============================================================================
