-------------------------------- MODULE Pool --------------------------------
(***************************************************************************)
(* A pool of servers (Kind = "single": a SinglePool; Kind = "replica": a   *)
(* ReplicaPool with a primary and a secondary tier).  A call is executed   *)
(* in steps (one command at one server each), any of which may fail; the   *)
(* properties say what must be true of the commands and of the contents of *)
(* the servers, whatever fails where.                                      *)
(*                                                                         *)
(* Its behaviours are also the scenarios run on the real pools: `hist` is  *)
(* the list of steps in the vocabulary of the harness.                     *)
(*                                                                         *)
(* Mut names a deliberate mistake in the design ("" for none): each of     *)
(* them must violate a property, which shows that the properties bite.     *)
(***************************************************************************)
EXTENDS Store, SequencesExt, FiniteSets, Json

CONSTANTS Kind, Pri, Sec, Keys, Vals, Exps, Ops, Faults, MaxFaults, MaxLen, MaxKs, MaxNow, EmitAll, Mut

VARIABLES own, sown, st, link, now, nc, nf, hist, call, ph, todo, log, ret

vars == <<own, sown, st, link, now, nc, nf, hist, call, ph, todo, log, ret>>
ctx == <<own, sown>>

Servers == Pri \cup Sec
NoFault == [kind |-> "none", tier |-> "", n |-> 0]
NoCall == [op |-> "", k |-> "", ks |-> << >>, v |-> "", x |-> 0, cas |-> "", f |-> NoFault, pre |-> Absent]

Init == /\ own \in [Keys -> Pri]
        /\ sown \in IF Sec = {} THEN {<< >>} ELSE [Keys -> Sec]
        /\ st = [s \in Servers |-> << >>] /\ link = [s \in Servers |-> "ok"]
        /\ now = 0 /\ nc = 1 /\ nf = 0 /\ hist = << >>
        /\ call = NoCall /\ ph = "idle" /\ todo = {} /\ log = << >> /\ ret = ""

ValOf(v) == IF v = "n5" THEN "5" ELSE v
Cmd(op, k, v, x, cas) ==
    [op |-> op, k |-> k, v |-> ValOf(v), f |-> "0", xk |-> "rel", x |-> x, d |-> "1", cas |-> cas, init |-> FALSE, iv |-> ""]

Pick(S) == IF EmitAll \/ S = {} THEN S ELSE {RandomElement(S)}
Idle == ph = "idle" /\ Len(hist) < MaxLen

----------------------------------------------------------------------------
(* Calls *)
Writes == {"set", "add", "replace", "cas", "delete", "incr", "decr"}
Keyed == Writes \cup {"get", "touch"}

HStep(c) == CASE c.op = "getm" -> [op |-> "getm", ks |-> c.ks]
              [] c.op = "cas" -> [op |-> "set", k |-> c.k, v |-> c.v, x |-> c.x, cas |-> IF c.cas = "stale" THEN "bogus" ELSE "obs"]
              [] c.op \in {"set", "add", "replace"} -> [op |-> c.op, k |-> c.k, v |-> c.v, x |-> c.x]
              [] c.op = "touch" -> [op |-> c.op, k |-> c.k, x |-> c.x]
              [] c.op \in {"incr", "decr"} -> [op |-> c.op, k |-> c.k, d |-> 1]
              [] c.op \in {"flush", "version", "close"} -> [op |-> c.op]
              [] OTHER -> [op |-> c.op, k |-> c.k]
HFault(f) == IF f.kind = "none" THEN << >>
             ELSE [b |-> IF f.tier = "s" THEN "s*" ELSE "p*",
                   fault |-> [kind |-> f.kind, kind2 |-> "oom", at |-> 0, n |-> f.n]]
(* a conditional set needs a token: it is preceded by a read *)
Hist(c) == (IF c.op = "cas" /\ c.cas # "stale" THEN <<[op |-> "get", k |-> c.k]>> ELSE << >>)
           \o <<IF c.f.kind = "none" THEN HStep(c) ELSE HStep(c) @@ HFault(c.f)>>

Begin(c) ==
    /\ Idle /\ c.op \in Ops
    /\ c.f.kind = "none" \/ nf < MaxFaults
    /\ nf' = IF c.f.kind = "none" THEN nf ELSE nf + 1
    /\ call' = [c EXCEPT !.cas = IF c.op # "cas" THEN "" ELSE IF c.cas = "stale" THEN "none"
                                  ELSE LET it == Live(st[own[c.k]], c.k, now) IN IF it.p THEN it.c ELSE "none",
                         !.pre = IF c.op \in Keyed THEN Live(st[own[c.k]], c.k, now) ELSE Absent]
    /\ ph' = CASE c.op \in Keyed -> IF Mut = "secfirst" /\ c.op \in {"set", "add", "replace", "delete"} /\ Kind = "replica" THEN "s" ELSE "p"
               [] c.op = "getm" -> "each"
               [] OTHER -> "each"
    /\ todo' = CASE c.op = "getm" -> {own[k] : k \in ToSet(c.ks)}
                 [] c.op \in {"flush", "version", "close"} -> IF Mut = "flushone" THEN {CHOOSE s \in Pri : TRUE} ELSE Pri
                 [] OTHER -> {}
    /\ log' = << >> /\ ret' = ""
    /\ hist' = hist \o Hist(c)
    /\ UNCHANGED <<own, sown, st, link, now, nc>>

FaultOf(tier) == LET n == Cardinality({i \in DOMAIN log : log[i].t = tier})
                 IN IF call.f.tier = tier /\ call.f.n = n THEN call.f.kind ELSE "none"

Return(r) == ph' = "idle" /\ ret' = r

(* One command at server s. `go(o)` says what happens after a complete reply. *)
Run(tier, s, cmd) ==
    LET o == Outcome(st[s], now, cmd, ToString(nc))
        flt == FaultOf(tier)
        e(rep) == [t |-> tier, s |-> s, op |-> cmd.op, k |-> cmd.k, rep |-> rep, ok |-> rep = o.rep, cmd |-> cmd, it |-> o.it]
    IN CASE link[s] # "ok" -> /\ UNCHANGED <<st, link, nc, log>> /\ FALSE
         [] link[s] = "ok" /\ flt = "err" -> /\ log' = Append(log, e("error")) /\ UNCHANGED <<st, link, nc>>
         [] link[s] = "ok" /\ flt = "cutpre" -> /\ link' = [link EXCEPT ![s] = "sus"] /\ log' = Append(log, e("lost"))
                                               /\ UNCHANGED <<st, nc>>
         [] link[s] = "ok" /\ flt = "cut" -> /\ link' = [link EXCEPT ![s] = "sus"] /\ log' = Append(log, [e(o.rep) EXCEPT !.ok = FALSE])
                                            /\ st' = [st EXCEPT ![s] = Effect(st[s], cmd, o)] /\ nc' = nc + 1
         [] OTHER -> /\ log' = Append(log, e(o.rep)) /\ UNCHANGED link
                     /\ st' = [st EXCEPT ![s] = Effect(st[s], cmd, o)] /\ nc' = nc + 1

Broken(e) == ~e.ok
Accepted(e) == ~Broken(e) /\ (e.rep \in {"stored", "deleted", "num", "touched", "hit"} \/ (e.op = "delete" /\ e.rep = "notfound"))
ClassOf(e) == IF Broken(e) \/ e.rep \in {"error", "nonnum"} THEN "err"
              ELSE IF Accepted(e) THEN "ok"
              ELSE IF e.rep \in {"exists"} \/ (e.op = "add" /\ e.rep = "notstored") THEN "ex" ELSE "nf"

Rest == UNCHANGED <<own, sown, now, nf, hist, call, todo>>

Dead(s) == link[s] # "ok"
Refuse(s) == /\ Dead(s) /\ Return("err") /\ UNCHANGED <<st, link, nc, log>> /\ Rest

PServer == IF Mut = "route" /\ call.op = "delete" THEN CHOOSE s \in Pri : TRUE ELSE own[call.k]

PStep == /\ ph = "p"
         /\ \/ Refuse(PServer)
            \/ /\ ~Dead(PServer)
               /\ Run("p", PServer, Cmd(call.op, call.k, call.v, call.x, call.cas))
               /\ IF Kind = "replica" /\ call.op \in Writes /\ (Accepted(Last(log')) \/ Mut = "seconfail")
                  THEN /\ ph' = IF call.op \in {"incr", "decr"} THEN "g" ELSE "s"
                       /\ ret' = ret
                  ELSE Return(ClassOf(Last(log')))
               /\ Rest

(* a counter is read back from the primary and copied *)
GStep == /\ ph = "g"
         /\ \/ Refuse(own[call.k])
            \/ /\ ~Dead(own[call.k])
               /\ Run("p", own[call.k], Cmd("get", call.k, "", 0, ""))
               /\ IF Accepted(Last(log')) THEN ph' = "s" /\ ret' = ret ELSE Return("err")
               /\ Rest

SCmd == CASE call.op = "delete" -> Cmd("delete", call.k, "", 0, "")
          [] call.op \in {"incr", "decr"} ->
                LET it == Last(log).it
                IN Cmd("set", call.k, it.v, IF it.x = NoExp THEN (IF Mut = "secttl" THEN 7 ELSE 0) ELSE it.x - now, "")
          [] OTHER -> Cmd(IF Mut = "seccas" /\ call.op = "cas" THEN "cas" ELSE IF Mut = "secadd" /\ call.op = "add" THEN "add" ELSE "set",
                          call.k, call.v, call.x, call.cas)

SStep == /\ ph = "s"
         /\ \/ /\ Dead(sown[call.k])
               /\ Return(IF Mut = "sechide" THEN "ok" ELSE "err")
               /\ UNCHANGED <<st, link, nc, log>> /\ Rest
            \/ /\ ~Dead(sown[call.k])
               /\ Run("s", sown[call.k], SCmd)
               /\ Return(IF Mut = "sechide" THEN "ok" ELSE IF Accepted(Last(log')) THEN "ok" ELSE "err")
               /\ Rest

(* flush, version and multi-get visit servers in any order *)
EStep == /\ ph = "each"
         /\ IF todo = {} THEN /\ Return("ok") /\ UNCHANGED <<own, sown, st, link, now, nc, nf, hist, call, todo, log>>
            ELSE \E s \in todo :
                 IF call.op = "close"
                 THEN /\ link' = [link EXCEPT ![s] = "closed"] /\ todo' = todo \ {s}
                      /\ UNCHANGED <<own, sown, st, now, nc, nf, hist, call, log, ph, ret>>
                 ELSE IF Dead(s) THEN /\ Return("err") /\ UNCHANGED <<own, sown, st, link, now, nc, nf, hist, call, todo, log>>
                 ELSE /\ IF call.op = "getm"
                         THEN /\ log' = log \o [i \in 1..Len(call.ks) |->
                                        [t |-> "p", s |-> s, op |-> "get", k |-> call.ks[i], rep |-> IF own[call.ks[i]] = s THEN "hit" ELSE "skip",
                                         ok |-> TRUE, cmd |-> NoCall, it |-> Absent]]
                              /\ UNCHANGED <<st, link, nc>>
                         ELSE Run("p", s, Cmd(call.op, "", "", 0, ""))
                      /\ IF Broken(Last(log')) THEN Return("err") ELSE UNCHANGED <<ph, ret>>
                      /\ todo' = todo \ {s}
                      /\ UNCHANGED <<own, sown, now, nf, hist, call>>

----------------------------------------------------------------------------
(* The rest of the world: other clients (on one tier only, so that the tiers
   differ), time, lost and restored connections. *)
Other(tier, op, k, v) ==
    /\ Idle /\ ("x" \o op) \in Ops
    /\ LET s == IF tier = "s" THEN sown[k] ELSE own[k]
           cmd == Cmd(op, k, v, 0, "")
       IN st' = [st EXCEPT ![s] = Effect(st[s], cmd, Outcome(st[s], now, cmd, ToString(nc)))]
    /\ nc' = nc + 1
    /\ hist' = Append(hist, [op |-> "x" \o op, k |-> k, v |-> v, b |-> IF tier = "s" THEN "s*" ELSE "p*"])
    /\ call' = NoCall /\ log' = << >> /\ ret' = ""
    /\ UNCHANGED <<own, sown, link, now, nf, ph, todo>>
Tick == /\ Idle /\ "tick" \in Ops /\ now < MaxNow
        /\ now' = now + 1 /\ hist' = Append(hist, [op |-> "tick", n |-> 1])
        /\ call' = NoCall /\ log' = << >> /\ ret' = ""
        /\ UNCHANGED <<own, sown, st, link, nc, nf, ph, todo>>
Drop(s) == /\ Idle /\ "drop" \in Ops /\ nf < MaxFaults /\ link[s] = "ok"
           /\ link' = [link EXCEPT ![s] = "sus"] /\ nf' = nf + 1
           /\ hist' = Append(hist, [op |-> "drop", b |-> s])
           /\ call' = NoCall /\ log' = << >> /\ ret' = ""
           /\ UNCHANGED <<own, sown, st, now, nc, ph, todo>>
CloseOne(s) == /\ Idle /\ "sclose" \in Ops /\ nf < MaxFaults /\ link[s] = "ok"
               /\ link' = [link EXCEPT ![s] = "closed"] /\ nf' = nf + 1
               /\ hist' = Append(hist, [op |-> "sclose", b |-> s])
               /\ call' = NoCall /\ log' = << >> /\ ret' = ""
               /\ UNCHANGED <<own, sown, st, now, nc, ph, todo>>
Reconnect(s) == /\ Idle /\ "sreconnect" \in Ops /\ link[s] = "sus"
                /\ link' = [link EXCEPT ![s] = "ok"]
                /\ hist' = Append(hist, [op |-> "sreconnect", b |-> IF s \in Sec THEN "s*" ELSE "p*"])
                /\ call' = NoCall /\ log' = << >> /\ ret' = ""
                /\ UNCHANGED <<own, sown, st, now, nc, nf, ph, todo>>

C(op, k) == [NoCall EXCEPT !.op = op, !.k = k]
KeyLists == UNION {[1..n -> Keys] : n \in 1..MaxKs}
F == Faults \cup {NoFault}
Tiers == IF Kind = "replica" THEN {"p", "s"} ELSE {"p"}

Calls ==
    \E fl \in IF EmitAll THEN F
             ELSE IF nf < MaxFaults /\ RandomElement(1..4) = 1 THEN {RandomElement(F)} ELSE {NoFault} :
    \/ \E k \in Pick(Keys), op \in Pick({"get", "delete", "incr", "decr"}) : Begin([C(op, k) EXCEPT !.f = fl])
    \/ \E k \in Pick(Keys), x \in Pick(Exps) : Kind = "single" /\ Begin([C("touch", k) EXCEPT !.x = x, !.f = fl])
    \/ \E k \in Pick(Keys), op \in Pick({"set", "add", "replace"}), v \in Pick(Vals), x \in Pick(Exps) :
          Begin([C(op, k) EXCEPT !.v = v, !.x = x, !.f = fl])
    \/ \E k \in Pick(Keys), v \in Pick(Vals), x \in Pick(Exps), c \in Pick({"fresh", "stale"}) :
          Begin([C("cas", k) EXCEPT !.v = v, !.x = x, !.f = fl, !.cas = c])
    \/ \E ks \in Pick(KeyLists) : fl.kind \in {"none", "err"} /\ Begin([C("getm", "") EXCEPT !.ks = ks, !.f = fl])
    \/ \E op \in Pick({"flush", "version"}) : Kind = "single" /\ Begin([C(op, "") EXCEPT !.f = fl])
    \/ Kind = "single" /\ Begin(C("close", ""))

Finish == /\ ~EmitAll /\ Len(hist) >= MaxLen /\ ph = "idle"
          /\ PrintT("SCN " \o ToJson(hist))
          /\ UNCHANGED vars

Next == \/ PStep \/ GStep \/ SStep \/ EStep
        \/ Idle /\ (\/ Calls
                    \/ \E t \in Pick(Tiers), k \in Pick(Keys), v \in Pick(Vals) : Other(t, "set", k, v)
                    \/ \E t \in Pick(Tiers), k \in Pick(Keys) : Other(t, "delete", k, "u")
                    \/ Tick
                    \/ \E s \in Pick(Servers) : Drop(s) \/ CloseOne(s) \/ Reconnect(s))
        \/ Finish
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
(* Properties *)
Same(a, b) == a.p = b.p /\ (a.p => a.v = b.v /\ a.f = b.f /\ a.x = b.x)
KeyedAtOwner == \A i \in DOMAIN log : log[i].k # "" /\ log[i].rep # "skip" =>
                    log[i].s = IF log[i].t = "s" THEN sown[log[i].k] ELSE own[log[i].k]
OnceEach == call.op \in Keyed => Cardinality({i \in DOMAIN log : log[i].t = "p" /\ log[i].op # "get"}) <= 1
ReadsFromPrimary == call.op \in {"get", "getm"} => \A i \in DOMAIN log : log[i].t = "p"
PrimaryFirst == \A i \in DOMAIN log : log[i].t = "s" => i > 1 /\ \A j \in 1..(i-1) : log[j].t = "p" => Accepted(log[j])
FailureReported == ret = "ok" => \A i \in DOMAIN log : log[i].ok /\ log[i].rep # "error"
SuccessIsWhole == ret = "ok" => CASE call.op \in {"flush", "version"} -> {log[i].s : i \in DOMAIN log} = Pri
                                  [] call.op = "getm" -> \A k \in ToSet(call.ks) : \E i \in DOMAIN log : log[i].k = k /\ log[i].s = own[k]
                                  [] call.op = "close" -> \A s \in Pri : link[s] = "closed"
                                  [] call.op \in Writes /\ Kind = "replica" -> \E i \in DOMAIN log : log[i].t = "s"
                                  [] OTHER -> TRUE
EqualAfterSuccess == Kind = "replica" /\ ret = "ok" /\ call.op \in Writes =>
                        Same(Live(st[own[call.k]], call.k, now), Live(st[sown[call.k]], call.k, now))
NoFalseError == ret = "err" => \/ \E i \in DOMAIN log : ~log[i].ok \/ log[i].rep \in {"error", "nonnum"}
                               \/ \E s \in Servers : link[s] # "ok"
RefusalsOnly == ret \in {"nf", "ex"} => Len(log) = 1 /\ log[1].t = "p" /\ log[1].rep \in {"miss", "notfound", "notstored", "exists"}
TypeOK == ph \in {"idle", "p", "g", "s", "each"} /\ ret \in {"", "ok", "nf", "ex", "err"}

(* states that differ only in tokens and in history behave alike *)
Abs(s, k) == LET it == Live(st[s], k, now)
             IN [p |-> it.p, n |-> IsCounter(it.v), x |-> IF it.p /\ it.x # NoExp THEN it.x - now ELSE -1,
                 eq |-> it.p /\ Live(st[own[k]], k, now).v = it.v]
View == <<own, sown, [s \in Servers |-> [k \in Keys |-> Abs(s, k)]], link, nf, [call EXCEPT !.cas = IF call.cas \in {"", "none"} THEN call.cas ELSE IF call.cas = call.pre.c THEN "cur" ELSE "old", !.pre = Absent], ph, todo,
          [i \in DOMAIN log |-> [s |-> log[i].s, op |-> log[i].op, rep |-> log[i].rep, ok |-> log[i].ok]], ret>>
Emit == EmitAll /\ hist' # hist => PrintT("SCN " \o ToJson(hist'))
=============================================================================
