------------------------------- MODULE Router -------------------------------
(***************************************************************************)
(* The router: a memcached server in front of a ReplicaPool.  Clients of    *)
(* any protocol talk to it; others use the pool directly ("pool").  What a  *)
(* client gets through the router must be what it would have got from the   *)
(* pool itself.                                                             *)
(*                                                                          *)
(* One owner per tier is enough here: which server of a tier owns a key is  *)
(* the subject of Ring.tla and Pool.tla.                                    *)
(*                                                                          *)
(* The behaviours are also the scenarios run on the real router (`hist`).   *)
(* Mut names a deliberate mistake ("" for none).                            *)
(***************************************************************************)
EXTENDS Store, SequencesExt, FiniteSets, Json

CONSTANTS Keys, Vals, Flags, Exps, Clients, Faults, MaxFaults, MaxLen, MaxKs, MaxNow, EmitAll, Mut

VARIABLES p, s, link, cl, now, nc, nf, hist, call, res

vars == <<p, s, link, cl, now, nc, nf, hist, call, res>>
NoFault == [kind |-> "none", tier |-> ""]
NoCall == [c |-> "", op |-> "", ks |-> << >>, v |-> "", f |-> "", x |-> 0, cas |-> "", fl |-> NoFault, pre |-> << >>]
NoRes == [r |-> "", items |-> {}]

Init == /\ p = << >> /\ s = << >> /\ link = [t \in {"p", "s"} |-> "ok"] /\ cl = [c \in Clients |-> "ok"]
        /\ now = 0 /\ nc = 1 /\ nf = 0 /\ hist = << >> /\ call = NoCall /\ res = NoRes

Cmd(op, k, v, f, x, cas) ==
    [op |-> op, k |-> k, v |-> v, f |-> f, xk |-> "rel", x |-> x, d |-> "1", cas |-> cas, init |-> FALSE, iv |-> ""]

(* One command at one tier: what happens and what the pool makes of it. *)
At(st, t, fl, cmd) ==
    LET o == Outcome(st, now, cmd, ToString(nc) \o t)
        hit == fl.tier = t
    IN CASE link[t] # "ok" -> [st |-> st, rep |-> "err", it |-> Absent, link |-> link[t]]
         [] hit /\ fl.kind = "err" -> [st |-> st, rep |-> "err", it |-> Absent, link |-> "ok"]
         [] hit /\ fl.kind = "cutpre" -> [st |-> st, rep |-> "err", it |-> Absent, link |-> "sus"]
         [] hit /\ fl.kind = "cut" -> [st |-> Effect(st, cmd, o), rep |-> "err", it |-> Absent, link |-> "sus"]
         [] OTHER -> [st |-> Effect(st, cmd, o), rep |-> o.rep, it |-> o.it, link |-> "ok"]

Shown(k, it) == [k |-> k, v |-> it.v, f |-> IF Mut = "noflags" THEN "0" ELSE it.f, c |-> it.c, t |-> TTL(it, now)]

(* An error ends the client's connection to the router; a miss does not. *)
After(c, r) == IF c # "pool" /\ r = "err" THEN [cl EXCEPT ![c] = "sus"] ELSE cl

Idle == Len(hist) < MaxLen
Begin(c, fl) == /\ Idle /\ (fl.kind = "none" \/ nf < MaxFaults)
                /\ nf' = IF fl.kind = "none" THEN nf ELSE nf + 1
Step(c, h, fl) == hist' = Append(hist, IF fl.kind = "none" THEN [c |-> c] @@ h
                                       ELSE [c |-> c, b |-> IF fl.tier = "s" THEN "s*" ELSE "p*",
                                             fault |-> [kind |-> fl.kind, kind2 |-> "oom", at |-> 0, n |-> 0]] @@ h)
Record(c, op, ks, v, f, x, cas, fl) ==
    call' = [c |-> c, op |-> op, ks |-> ks, v |-> v, f |-> f, x |-> x, cas |-> cas, fl |-> fl,
             pre |-> [k \in ToSet(ks) |-> Live(p, k, now)]]

(* a client whose connection has ended gets an error and causes nothing *)
Gone(c) == c # "pool" /\ cl[c] # "ok"
Refused(c) == /\ res' = [r |-> "err", items |-> {}] /\ UNCHANGED <<p, s, link, cl, now, nc>>

Get(c, k, fl) ==
    /\ Begin(c, fl) /\ Record(c, "get", <<k>>, "", "", 0, "", fl) /\ Step(c, [op |-> "get", k |-> k], fl)
    /\ IF Gone(c) THEN Refused(c)
       ELSE LET a == IF Mut = "readsec" THEN At(s, "s", fl, Cmd("get", k, "", "", 0, "")) ELSE At(p, "p", fl, Cmd("get", k, "", "", 0, ""))
                r == CASE a.rep = "hit" -> "ok" [] a.rep = "miss" -> "nf"
                       [] OTHER -> IF Mut = "errmiss" /\ c # "pool" THEN "nf" ELSE "err"
            IN /\ res' = [r |-> r, items |-> IF r = "ok" THEN {Shown(k, a.it)} ELSE {}]
               /\ link' = [link EXCEPT !["p"] = a.link] /\ cl' = After(c, r)
               /\ UNCHANGED <<p, s, now, nc>>

(* Many keys: the pool is asked for each in turn; the first failure ends it. *)
Multi(c, ks) ==
    /\ Begin(c, NoFault) /\ Record(c, "getm", ks, "", "", 0, "", NoFault) /\ Step(c, [op |-> "getm", ks |-> ks], NoFault)
    /\ IF Gone(c) THEN Refused(c)
       ELSE LET asked == IF Mut = "first" THEN {ks[1]} ELSE ToSet(ks)
            IN IF link["p"] # "ok" THEN /\ res' = [r |-> "err", items |-> {}] /\ cl' = After(c, "err")
                                        /\ UNCHANGED <<p, s, link, now, nc>>
               ELSE /\ res' = [r |-> "ok", items |-> {Shown(k, Live(p, k, now)) : k \in {q \in asked : Live(p, q, now).p}}]
                    /\ UNCHANGED <<p, s, link, cl, now, nc>>

Set(c, k, v, f, x, ck, fl) ==
    LET cas == CASE ck = "" -> "" [] ck = "bogus" -> "none"
                 [] OTHER -> IF Live(p, k, now).p THEN Live(p, k, now).c ELSE "none"
        h == [op |-> "set", k |-> k, v |-> v, f |-> f, x |-> x] @@ (IF ck = "" THEN << >> ELSE [cas |-> ck])
    IN
    /\ Begin(c, fl) /\ Record(c, "set", <<k>>, v, f, x, cas, fl)
    /\ (ck # "" => c \in {"meta", "binary", "pool"})
    /\ (ck = "obs" => Len(hist) + 1 < MaxLen)
    /\ IF ck = "obs"
       THEN hist' = hist \o <<[c |-> "pool", op |-> "get", k |-> k],
                              IF fl.kind = "none" THEN [c |-> c] @@ h
                              ELSE [c |-> c, b |-> IF fl.tier = "s" THEN "s*" ELSE "p*", fault |-> [kind |-> fl.kind, kind2 |-> "oom", at |-> 0, n |-> 0]] @@ h>>
       ELSE Step(c, h, fl)
    /\ IF Gone(c) THEN Refused(c)
       ELSE LET cc == IF Mut = "dropcas" /\ c # "pool" THEN "" ELSE cas
                xx == IF Mut = "dropttl" /\ c # "pool" THEN 0 ELSE x
                a == At(p, "p", fl, Cmd(IF cc = "" THEN "set" ELSE "cas", k, v, f, xx, cc))
                b == At(s, "s", fl, Cmd("set", k, v, f, xx, ""))
                r == IF a.rep = "stored" THEN (IF b.rep = "stored" \/ Mut = "ack" THEN "ok" ELSE "err")
                     ELSE CASE a.rep = "exists" -> "ex" [] a.rep = "notfound" -> "nf" [] OTHER -> "err"
            IN /\ p' = a.st /\ s' = IF a.rep = "stored" /\ Mut # "nosec" THEN b.st ELSE s
               /\ link' = [link EXCEPT !["p"] = a.link, !["s"] = IF a.rep = "stored" THEN b.link ELSE @]
               /\ res' = [r |-> r, items |-> {}] /\ cl' = After(c, r) /\ nc' = nc + 1
               /\ UNCHANGED now

(* Anything the router does not do: an error, and nothing done. *)
Other == {"add", "replace", "delete", "incr", "decr", "touch", "flush", "version"}
Unsupported(c, op, k) ==
    /\ c # "pool" /\ Begin(c, NoFault) /\ Record(c, op, <<k>>, "u", "", 0, "", NoFault)
    /\ Step(c, IF op \in {"flush", "version"} THEN [op |-> op]
               ELSE IF op \in {"add", "replace"} THEN [op |-> op, k |-> k, v |-> "u"] ELSE [op |-> op, k |-> k], NoFault)
    /\ res' = [r |-> IF Mut = "pretend" THEN "ok" ELSE "err", items |-> {}]
    /\ cl' = After(c, "err") /\ UNCHANGED <<p, s, link, now, nc>>

----------------------------------------------------------------------------
Quiet == call' = NoCall /\ res' = NoRes
Back(c) == /\ Idle /\ cl[c] # "ok" /\ cl' = [cl EXCEPT ![c] = "ok"]
           /\ hist' = Append(hist, [c |-> c, op |-> "reconnect"]) /\ Quiet /\ UNCHANGED <<p, s, link, now, nc, nf>>
SBack(t) == /\ Idle /\ link[t] # "ok" /\ link' = [link EXCEPT ![t] = "ok"]
            /\ hist' = Append(hist, [op |-> "sreconnect", b |-> t \o "*"]) /\ Quiet /\ UNCHANGED <<p, s, cl, now, nc, nf>>
Drop(t) == /\ Idle /\ nf < MaxFaults /\ link[t] = "ok" /\ link' = [link EXCEPT ![t] = "sus"] /\ nf' = nf + 1
           /\ hist' = Append(hist, [op |-> "drop", b |-> t \o "*"]) /\ Quiet /\ UNCHANGED <<p, s, cl, now, nc>>
X(t, k, v, f, x) ==
    /\ Idle
    /\ LET c == Cmd("set", k, v, f, x, "")
           st == IF t = "p" THEN p ELSE s
           st2 == Effect(st, c, Outcome(st, now, c, ToString(nc) \o t))
       IN /\ p' = IF t = "p" THEN st2 ELSE p
          /\ s' = IF t = "s" THEN st2 ELSE s
    /\ nc' = nc + 1
    /\ hist' = Append(hist, [op |-> "xset", k |-> k, v |-> v, f |-> f, x |-> x, b |-> t \o "*"])
    /\ Quiet /\ UNCHANGED <<link, cl, now, nf>>
XDel(t, k) ==
    /\ Idle
    /\ p' = IF t = "p" THEN Put(p, k, Absent) ELSE p
    /\ s' = IF t = "s" THEN Put(s, k, Absent) ELSE s
    /\ hist' = Append(hist, [op |-> "xdelete", k |-> k, b |-> t \o "*"])
    /\ Quiet /\ UNCHANGED <<link, cl, now, nc, nf>>
Tick == /\ Idle /\ now < MaxNow /\ now' = now + 1 /\ hist' = Append(hist, [op |-> "tick", n |-> 1])
        /\ Quiet /\ UNCHANGED <<p, s, link, cl, nc, nf>>

Pick(S) == IF EmitAll \/ S = {} THEN S ELSE {RandomElement(S)}
KeyLists == UNION {[1..n -> Keys] : n \in 1..MaxKs}
AnyFault == IF EmitAll THEN Faults \cup {NoFault}
            ELSE IF nf < MaxFaults /\ RandomElement(1..4) = 1 THEN {RandomElement(Faults)} ELSE {NoFault}
Callers == Clients \cup {"pool"}

Finish == ~EmitAll /\ Len(hist) >= MaxLen /\ PrintT("SCN " \o ToJson(hist)) /\ UNCHANGED vars

Next == \/ \E c \in Pick(Callers), k \in Pick(Keys), fl \in AnyFault : Get(c, k, fl)
        \/ \E c \in Pick(Callers), ks \in Pick(KeyLists) : c \in {"text", "pool"} /\ Multi(c, ks)
        \/ \E c \in Pick(Callers), k \in Pick(Keys), v \in Pick(Vals), f \in Pick(Flags), x \in Pick(Exps), ck \in Pick({"", "obs", "bogus"}), fl \in AnyFault :
              Set(c, k, v, f, x, ck, fl)
        \/ \E c \in Pick(Callers), op \in Pick(Other), k \in Pick(Keys) : Unsupported(c, op, k)
        \/ \E c \in Pick(Clients) : Back(c)
        \/ \E t \in Pick({"p", "s"}) : SBack(t) \/ Drop(t)
        \/ \E t \in Pick({"p", "s"}), k \in Pick(Keys), v \in Pick(Vals), f \in Pick(Flags), x \in Pick(Exps) : X(t, k, v, f, x)
        \/ \E t \in Pick({"p", "s"}), k \in Pick(Keys) : XDel(t, k)
        \/ Tick
        \/ Finish
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
(* What a client sees is what the pool holds. *)
TypeOK == res.r \in {"", "ok", "nf", "ex", "err"} /\ \A c \in Clients : cl[c] \in {"ok", "sus"}
AsPool(k) == LET it == call.pre[k] IN [k |-> k, v |-> it.v, f |-> it.f, c |-> it.c, t |-> TTL(it, now)]
GetIsPool == call.op \in {"get", "getm"} /\ res.r = "ok" =>
                res.items = {AsPool(k) : k \in {q \in ToSet(call.ks) : call.pre[q].p}} /\ (call.op = "get" => call.pre[call.ks[1]].p)
MissIsMiss == res.r = "nf" => ~call.pre[call.ks[1]].p
SetIsPool == call.op = "set" /\ res.r = "ok" =>
                LET a == Live(p, call.ks[1], now)
                    b == Live(s, call.ks[1], now)
                    x == AbsExp(now, "rel", call.x)
                IN IF x <= now THEN ~a.p /\ ~b.p
                   ELSE a.p /\ b.p /\ a.v = call.v /\ b.v = call.v /\ a.f = call.f /\ b.f = call.f /\ a.x = x /\ b.x = x
CasIsPool == call.op = "set" /\ call.cas # "" /\ res.r = "ok" => call.pre[call.ks[1]].p /\ call.pre[call.ks[1]].c = call.cas
RefusedUnchanged == call.op = "set" /\ res.r \in {"ex", "nf"} => Live(p, call.ks[1], now) = call.pre[call.ks[1]]
ErrorHasCause == res.r = "err" => \/ call.op \in Other \/ call.fl.kind # "none" \/ link["p"] # "ok" \/ link["s"] # "ok"
                                  \/ call.c # "pool" /\ cl[call.c] # "ok"
NeverPretends == call.op \in Other => res.r = "err"

View == <<[k \in Keys |-> LET a == Live(p, k, now) b == Live(s, k, now)
                          IN <<a.p, a.f, IF a.p THEN TTL(a, now) ELSE 0, b.p, a.p /\ b.p /\ a.v = b.v>>],
          link, cl, nf, [call EXCEPT !.pre = << >>, !.cas = IF call.cas \in {"", "none"} THEN call.cas ELSE "t"], res.r>>
Emit == EmitAll /\ hist' # hist => PrintT("SCN " \o ToJson(hist'))
=============================================================================
