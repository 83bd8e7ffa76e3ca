------------------------------ MODULE LinTrace ------------------------------
(***************************************************************************)
(* Trace specification for concurrent callers of one connection or pool.   *)
(* The commands the backends executed are the linearization points: the    *)
(* specification looks for an assignment of every executed command to one  *)
(* of the calls under way such that every call got exactly the commands it *)
(* stands for and the result that belongs to them.  Which call a command   *)
(* belongs to is a choice, so TLC searches; a trace is accepted if one of  *)
(* its behaviours reaches the end with why = "".                            *)
(***************************************************************************)
EXTENDS Api, Json, IOUtils, TLC

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tid, l, sts, open, gone, noisy, shut, won, why

vars == <<tid, l, sts, open, gone, noisy, shut, won, why>>

T == Traces[tid]
E == T.ev[l]
Replica == T.target = "replica"
Pool == T.target # "server"
Pri == ToSet(T.bs)
Secs == ToSet(T.ss)
ProtoOf(b) == T.protos[b]
ProtosOf(W) == LET S == {ProtoOf(W[i].b) : i \in DOMAIN W} IN IF Cardinality(S) = 1 THEN CHOOSE p \in S : TRUE ELSE "text"

Init == /\ tid \in 1..Len(Traces)
        /\ l = 1 /\ sts = [b \in ToSet(Traces[tid].bs) \cup ToSet(Traces[tid].ss) |-> << >>]
        /\ open = << >> /\ gone = << >> /\ noisy = FALSE /\ shut = "no" /\ won = FALSE /\ why = ""

(* shut: "no", "closing" while the first Close runs, "closed" after one returned *)

Same == UNCHANGED <<sts, open, gone, noisy, shut, won, why>>
But(x) == UNCHANGED x
Fail(r) == /\ why' = r /\ UNCHANGED <<sts, open, gone, noisy, shut, won>>

----------------------------------------------------------------------------
(* A call carries: w, the commands it got; n, whether the network was
   disturbed since it began; z, whether Close had returned when it began; ov,
   whether a write of another call to its key was under way meanwhile. *)
Writes == {"set", "add", "replace", "delete", "incr", "decr", "touch", "flush"}
Clash(a, b) == a.op \in Writes /\ b.op \in Writes /\ (a.k = b.k \/ "flush" \in {a.op, b.op})
Call == /\ E.e = "call"
        /\ LET cl == {t \in DOMAIN open : Clash(open[t], E)}
           IN open' = (E.t :> (E @@ [w |-> << >>, n |-> noisy, z |-> shut, ov |-> cl # {}]))
                      @@ [t \in DOMAIN open |-> IF t \in cl THEN [open[t] EXCEPT !.ov = TRUE] ELSE open[t]]
        /\ shut' = IF E.op = "close" /\ shut = "no" THEN "closing" ELSE shut
        /\ UNCHANGED <<sts, gone, noisy, won, why>>

OutcomeOf(ex) == IF ex.rep \in {"error", "toolarge"} THEN Rep(ex.rep, Absent, "") ELSE Outcome(sts[ex.b], 0, ex, ex.rc)
BackendOk(ex, o) ==
    /\ ex.rep = o.rep
    /\ o.rep = "hit" => ex.rv = o.it.v /\ ex.rf = o.it.f /\ ex.rc = o.it.c /\ ex.rt = TTL(o.it, 0)
    /\ o.rep = "num" => ex.rn = o.n

Accepted(e) == e.rep \in {"stored", "deleted", "num", "touched"} \/ (e.op = "delete" /\ e.rep = "notfound")
(* the commands of a call at the primary that are the call itself *)
IsMain(c, e) == e.b \in Pri /\ ~(Replica /\ c.op \in {"incr", "decr"} /\ e.op = "get")
Mains(c) == SelectSeq(c.w, LAMBDA e : IsMain(c, e))
Seconds(c) == SelectSeq(c.w, LAMBDA e : e.b \in Secs)
Backs(c) == SelectSeq(c.w, LAMBDA e : e.b \in Pri /\ ~IsMain(c, e))

(* May the executed command e be part of call c? *)
Fits(c, e) ==
    IF e.b \in Secs
    THEN /\ Replica /\ c.op \in {"set", "add", "replace", "delete", "incr", "decr"} /\ e.k = c.k
         /\ Seconds(c) = << >> /\ \E i \in DOMAIN Mains(c) : Accepted(Mains(c)[i])
         /\ CASE c.op = "delete" -> e.op = "delete"
              [] c.op \in {"incr", "decr"} -> e.op = "set" /\ Backs(c) # << >> /\ e.v = Last(Backs(c)).it.v
              [] OTHER -> e.op = "set" /\ e.v = c.v /\ e.f = c.f
    ELSE IF Replica /\ c.op \in {"incr", "decr"} /\ e.op = "get"
    THEN e.k = c.k /\ Backs(c) = << >> /\ Len(Mains(c)) = 1 /\ Accepted(Mains(c)[1])
    ELSE /\ CmdDiff(ProtoOf(e.b), c, e) = {}
         /\ CASE c.op = "getm" -> Count(c.w, LAMBDA x : x.k = e.k) < Count(c.ks, LAMBDA q : q = e.k)
              [] c.op \in {"flush", "version"} -> ~\E i \in DOMAIN c.w : c.w[i].b = e.b
              [] OTHER -> Mains(c) = << >>

Exec == /\ E.e = "exec"
        /\ LET o == OutcomeOf(E)
               ex == E @@ [it |-> o.it, n |-> o.n]
               mine == {t \in DOMAIN open : open[t].z # "closed" /\ Fits(open[t], E)}
               late == {i \in DOMAIN gone : Fits(gone[i], E)}
               beat == T.hb /\ E.op = "version"
           IN IF ~BackendOk(E, o) THEN Fail("HARNESS")
              ELSE IF mine = {} /\ late = {} /\ ~beat THEN Fail("exec")
              ELSE /\ sts' = [sts EXCEPT ![E.b] = Effect(@, E, o)]
                   /\ \/ \E t \in mine : open' = [open EXCEPT ![t].w = Append(@, ex)] /\ UNCHANGED gone
                      \/ \E i \in late : gone' = [gone EXCEPT ![i].w = Append(@, ex)] /\ UNCHANGED open
                      \/ beat /\ UNCHANGED <<open, gone>>
                   /\ UNCHANGED <<noisy, shut, won, why>>

----------------------------------------------------------------------------
Whole(c) == CASE c.op = "getm" -> WireWhole(c, c.w)
              [] c.op \in {"flush", "version"} -> \A b \in Pri : \E i \in DOMAIN c.w : c.w[i].b = b
              [] Replica /\ c.op \in Writes -> /\ Len(Mains(c)) = 1
                                               /\ Accepted(Mains(c)[1]) => Len(Seconds(c)) = 1
              [] OTHER -> Len(c.w) = 1

Equal(a, b) == a.p = b.p /\ (a.p => a.v = b.v /\ a.f = b.f /\ (a.x = b.x \/ (a.x # NoExp /\ b.x # NoExp /\ a.x - b.x \in -3..3)))

One(s, d) == IF s = {} THEN d ELSE CHOOSE r \in s : TRUE

Data(c, ret) ==      \* "" or a reason
    IF c.z = "closed" THEN (IF ret.r = "err" THEN "" ELSE "closed")
    ELSE IF ret.r = "err" /\ (c.n \/ noisy \/ shut # "no" \/ c.bad) THEN ""
    ELSE IF c.op = "getm" /\ Len(c.ks) = 0 THEN (IF ret.r = "err" \/ Len(ret.items) = 0 THEN "" ELSE "gm.extra")
    ELSE IF ~Whole(c) THEN (IF ret.r = "err" THEN "falseerr" ELSE "noexec")
    ELSE IF c.op = "version" /\ Pool
    THEN (IF ret.r = "ok" /\ ToSet(ret.vers) = {[s |-> b, v |-> "fake-" \o b] : b \in Pri} THEN "" ELSE "version")
    ELSE IF c.op = "flush" THEN (IF ret.r = "ok" THEN "" ELSE "falseerr")
    ELSE LET M == IF c.op = "getm" THEN c.w ELSE Mains(c)
             r == One(Verdict(ProtosOf(M), c, M, ret, 0, "fake-p0") \ {"item.srv"}, "")
         IN IF r # "" THEN r
            ELSE IF Replica /\ c.op \in Writes /\ ret.r = "ok" /\ ~c.ov /\ ~c.n
                    /\ ~Equal(Lookup(sts[Mains(c)[1].b], c.k), Lookup(sts[Seconds(c)[1].b], c.k))
            THEN "sec.diff" ELSE ""

Result(c, ret) ==
    IF ret.r \in {"panic", "hang"} THEN ret.r
    ELSE IF ret.mut THEN "mut"
    ELSE IF ret.late THEN "late"
    ELSE CASE c.op = "close" -> IF ret.r = "ok" /\ (c.z = "closed" \/ won) /\ ~T.hb THEN "closed2"
                                ELSE IF ret.r = "ok" /\ won THEN "closed2" ELSE ""
           [] c.op = "reconnect" ->
                IF c.z = "closed" THEN (IF ret.r = "err" THEN "" ELSE "closed")
                ELSE IF ret.r = "ok" \/ c.n \/ noisy \/ shut # "no" THEN "" ELSE "reconnect"
           [] OTHER -> Data(c, ret)

Ret == /\ E.e = "ret"
       /\ LET c == open[E.t]
              r == Result(c, E)
          IN IF r # "" THEN Fail(r)
             ELSE /\ open' = [t \in DOMAIN open \ {E.t} |-> open[t]]
                  /\ gone' = IF E.r = "err" /\ c.op \notin {"close", "reconnect"} /\ c.z # "closed" /\ ~Whole(c)
                             THEN Append(gone, c) ELSE gone
                  /\ shut' = IF c.op = "close" THEN "closed" ELSE shut
                  /\ won' = (won \/ (c.op = "close" /\ E.r = "ok"))
                  /\ UNCHANGED <<sts, noisy, why>>

----------------------------------------------------------------------------
Noise == /\ E.e \in {"fault", "drop", "down", "stall"}
         /\ noisy' = TRUE /\ open' = [t \in DOMAIN open |-> [open[t] EXCEPT !.n = TRUE]]
         /\ UNCHANGED <<sts, gone, shut, won, why>>
(* Everything was made reachable and renewed. *)
Calm == /\ E.e = "calm"
        /\ IF shut = "no" /\ ~E.ok THEN Fail("reconnect")
           ELSE IF shut = "closed" /\ E.ok /\ ~Pool THEN Fail("closed")
           ELSE /\ noisy' = IF E.ok THEN FALSE ELSE noisy
                /\ UNCHANGED <<sts, open, gone, shut, won, why>>
(* What the heartbeat had made of the connection after a while. *)
Await == /\ E.e = "await"
         /\ IF shut # "no" THEN Same
            ELSE IF T.auto \/ ~noisy
            THEN IF ~E.ok THEN Fail(IF noisy THEN "hb.noheal" ELSE "hb.none")
                 ELSE /\ noisy' = FALSE /\ UNCHANGED <<sts, open, gone, shut, won, why>>
            ELSE IF ~E.ok THEN Fail("hb.noclose")
                 ELSE /\ shut' = "closed" /\ UNCHANGED <<sts, open, gone, noisy, won, why>>
(* Is there any life after Close? *)
QuietCheck == /\ E.e = "quiet"
              /\ IF shut = "closed" /\ (E.beats # 0 \/ E.accepts # 0 \/ E.conns # 0 \/ E.left # 0) THEN Fail("afterlife") ELSE Same
Conns == /\ E.e = "conns"
         /\ IF shut = "closed" /\ E.b \in Pri /\ E.n # 0 THEN Fail("sock")
            ELSE IF shut = "no" /\ ~noisy /\ E.n # 1 THEN Fail("sock") ELSE Same
(* A healthy connection is not dropped by the object that owns it. *)
Eof == /\ E.e = "eof"
       /\ IF T.hb /\ ~noisy /\ shut = "no" /\ ~\E i \in 1..l : T.ev[i].e = "call" /\ T.ev[i].op = "reconnect"
          THEN Fail("hb.dropped") ELSE Same
Recheck == E.e = "recheck" /\ IF E.ok THEN Same ELSE Fail("recheck")
BadReq == E.e = "badreq" /\ IF noisy \/ shut # "no" \/ \E t \in DOMAIN open : open[t].bad THEN Same ELSE Fail("badreq")
Harness == E.e = "harness" /\ Fail("HARNESS")
Skip == E.e \in {"accept", "up", "resume", "slow"} /\ Same

Over == l > Len(T.ev) \/ why # ""
Step == /\ ~Over
        /\ \/ Call \/ Exec \/ Ret \/ Noise \/ Calm \/ Await \/ QuietCheck \/ Conns \/ Eof \/ Recheck \/ BadReq \/ Harness \/ Skip
        /\ l' = IF why' = "" THEN l + 1 ELSE l
        /\ tid' = tid
Next == Step \/ (Over /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars

Report == Over => PrintT(<<"END", tid, T.id, why, l>>)
=============================================================================
