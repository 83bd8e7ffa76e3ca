------------------------------ MODULE KvTrace ------------------------------
(***************************************************************************)
(* Trace specification for one client connection and one backend.  It      *)
(* replays recorded executions of the real client through the store and    *)
(* call specifications: every command the backend executed moves the       *)
(* specified store, every call result is compared with what the            *)
(* specification allows.  The specification is total: a wrong event is      *)
(* recorded in `bad` and the rest of the trace is still examined.          *)
(***************************************************************************)
EXTENDS Api, Json, IOUtils, TLC

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tid, l, st, now, cur, wire, faulty, link, down, orphans, bad

vars == <<tid, l, st, now, cur, wire, faulty, link, down, orphans, bad>>

None == [op |-> ""]
T == Traces[tid]
E == T.ev[l]
P == T.proto

Init == /\ tid \in 1..Len(Traces)
        /\ l = 1 /\ st = << >> /\ now = 0 /\ cur = None /\ wire = << >> /\ faulty = FALSE
        /\ link = "ok" /\ down = FALSE /\ orphans = << >> /\ bad = << >>

Blame(rs) == bad' = bad \o SetToSeq({[l |-> l, r |-> r] : r \in rs})

----------------------------------------------------------------------------
Call == /\ E.e = "call"
        /\ cur' = E @@ [restx |-> Live(st, E.k, now).x] /\ wire' = << >> /\ faulty' = E.short
        /\ UNCHANGED <<st, now, link, down, orphans, bad>>

(* The outcome of an executed command, as specified. An injected error reply
   ("error") leaves everything as it was. *)
OutcomeOf(ex) == IF ex.rep = "error" THEN Rep("error", Absent, "")
                 ELSE IF ex.rep = "toolarge" THEN Rep("toolarge", Absent, "")
                 ELSE Outcome(st, now, ex, ex.rc)

(* Does the backend emulator itself answer as specified? *)
BackendOk(ex, o) ==
    /\ ex.rep = o.rep
    /\ o.rep = "hit" => ex.rv = o.it.v /\ ex.rf = o.it.f /\ ex.rc = o.it.c /\ ex.rt = TTL(o.it, now)
    /\ o.rep = "num" => ex.rn = o.n

Exec == /\ E.e = "exec"
        /\ LET o == OutcomeOf(E)
               ex == E @@ [it |-> o.it, n |-> o.n]
               mine == cur # None /\ CmdDiff(P, cur, E) = {}
               orphan == {i \in DOMAIN orphans : CmdDiff(P, orphans[i], E) = {}}
           IN /\ st' = Effect(st, E, o)
              /\ IF E.c = 0 THEN /\ Blame(IF BackendOk(E, o) THEN {} ELSE {"HARNESS"})     \* another client's write
                                 /\ UNCHANGED <<wire, orphans>>
                 ELSE IF mine THEN /\ wire' = Append(wire, ex)
                                   /\ UNCHANGED orphans
                                   /\ Blame((IF BackendOk(E, o) THEN {} ELSE {"HARNESS"})
                                            \cup (IF link = "closed" THEN {"closed.exec"} ELSE {}))
                 ELSE IF orphan # {} THEN /\ orphans' = RemoveAt(orphans, Min(orphan))
                                          /\ UNCHANGED wire
                                          /\ Blame(IF BackendOk(E, o) THEN {} ELSE {"HARNESS"})
                 ELSE /\ Blame(IF cur = None THEN {"wire.cmd"} ELSE CmdDiff(P, cur, E))
                      /\ wire' = IF cur # None /\ "wire.cmd" \notin CmdDiff(P, cur, E) THEN Append(wire, ex) ELSE wire
                      /\ UNCHANGED orphans
        /\ UNCHANGED <<now, cur, faulty, link, down>>

Fault == /\ E.e = "fault"
         /\ faulty' = TRUE
         /\ UNCHANGED <<st, now, cur, wire, link, down, orphans, bad>>

(* A command line no memcached would accept. Harmless if the call reports an
   error, which Ret checks, but only a key that the protocol cannot carry
   excuses it. *)
BadReq == /\ E.e = "badreq"
          /\ Blame(IF cur # None /\ (cur.bad \/ faulty) THEN {} ELSE {"badreq"})
          /\ UNCHANGED <<st, now, cur, wire, faulty, link, down, orphans>>

----------------------------------------------------------------------------
Excused == faulty \/ link # "ok" \/ cur.bad \/ down

RetData(ret) ==
    IF ret.r \in {"panic", "hang"} THEN {ret.r}
    ELSE IF link = "closed" THEN (IF ret.r = "err" THEN {} ELSE {"closed"})
    ELSE IF ret.r = "err" /\ Excused THEN {}
    ELSE IF cur.op = "getm" /\ Len(cur.ks) = 0
    THEN IF ret.r = "err" \/ Len(ret.items) = 0 THEN {} ELSE {"gm.extra"}
    ELSE IF WireDup(cur, wire) THEN {"dup"}
    ELSE IF ~WireWhole(cur, wire)
    THEN IF cur.op = "getm" /\ ret.r = "err" /\ \E i \in DOMAIN wire : wire[i].rep \in Errors THEN {}
         ELSE IF ret.r = "err" THEN {"falseerr"} ELSE {"noexec"}
    ELSE Verdict(P, cur, wire, ret, now, "fake-p0")

(* A re-stored item must keep its expiration. *)
Restored == IF cur.restore /\ P = "meta" /\ Len(wire) = 1 /\ wire[1].rep = "stored"
            THEN LET old == cur.restx
                     new == wire[1].it.x
                 IN IF old = new \/ (old # NoExp /\ new # NoExp /\ new - old \in -3..3) THEN {} ELSE {"restore"}
            ELSE {}

RetLink(ret) == IF link = "closed" THEN "closed"
                ELSE IF ret.r = "err" /\ (faulty \/ link # "ok" \/ down) THEN "sus"
                ELSE link

Ret == /\ E.e = "ret"
       /\ CASE cur.op = "close" ->
                 /\ Blame(IF E.r \in {"panic", "hang"} THEN {E.r}
                          ELSE IF link = "closed" /\ E.r # "err" THEN {"closed2"} ELSE {})
                 /\ link' = "closed"
            [] cur.op = "reconnect" ->
                 /\ Blame(IF E.r \in {"panic", "hang"} THEN {E.r}
                          ELSE IF link = "closed" THEN (IF E.r = "err" THEN {} ELSE {"closed"})
                          ELSE IF down THEN (IF E.r = "err" THEN {} ELSE {"reconnect"})
                          ELSE IF E.r = "ok" THEN {} ELSE {"reconnect"})
                 /\ link' = IF link = "closed" THEN "closed" ELSE IF E.r = "ok" THEN "ok" ELSE "sus"
            [] OTHER ->
                 /\ Blame(RetData(E) \cup Restored
                          \cup (IF E.mut THEN {"mut"} ELSE {})
                          \cup (IF E.late THEN {"late"} ELSE {}))
                 /\ link' = RetLink(E)
       /\ orphans' = IF E.r = "err" /\ cur.op \notin {"close", "reconnect"} /\ ~WireWhole(cur, wire)
                     THEN Append(orphans, cur) ELSE orphans
       /\ cur' = None /\ wire' = << >> /\ faulty' = FALSE
       /\ UNCHANGED <<st, now, down>>

----------------------------------------------------------------------------
Tick == E.e = "tick" /\ now' = now + E.n /\ UNCHANGED <<st, cur, wire, faulty, link, down, orphans, bad>>
Drop == /\ E.e = "drop"
        /\ link' = IF link = "closed" THEN "closed" ELSE "sus"
        /\ UNCHANGED <<st, now, cur, wire, faulty, down, orphans, bad>>
Down == E.e = "down" /\ down' = TRUE /\ UNCHANGED <<st, now, cur, wire, faulty, link, orphans, bad>>
Up == E.e = "up" /\ down' = FALSE /\ UNCHANGED <<st, now, cur, wire, faulty, link, orphans, bad>>
Conns == /\ E.e = "conns"
         /\ Blame(IF \/ link = "closed" /\ E.n # 0
                     \/ link = "ok" /\ ~down /\ E.n > 1 THEN {"sock"} ELSE {})
         /\ UNCHANGED <<st, now, cur, wire, faulty, link, down, orphans>>
Recheck == /\ E.e = "recheck"
           /\ Blame(IF E.ok THEN {} ELSE {"recheck"})
           /\ UNCHANGED <<st, now, cur, wire, faulty, link, down, orphans>>
Harness == /\ E.e = "harness"
           /\ Blame({"HARNESS"})
           /\ UNCHANGED <<st, now, cur, wire, faulty, link, down, orphans>>
Skip == /\ E.e \in {"ext", "dump", "accept", "eof", "slow"}
        /\ UNCHANGED <<st, now, cur, wire, faulty, link, down, orphans, bad>>

Step == /\ l <= Len(T.ev)
        /\ l' = l + 1 /\ tid' = tid
        /\ \/ Call \/ Exec \/ Fault \/ BadReq \/ Ret \/ Tick \/ Drop \/ Down \/ Up \/ Conns \/ Recheck \/ Harness \/ Skip

Done == /\ l > Len(T.ev)
        /\ UNCHANGED vars

Next == Step \/ Done
Spec == Init /\ [][Next]_vars

(* Printed once per trace, when it has been consumed. *)
Report == l > Len(T.ev) /\ bad # << >> => PrintT(<<"BAD", tid, T.id, ToJson(bad)>>)
=============================================================================
