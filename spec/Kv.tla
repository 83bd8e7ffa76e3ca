-------------------------------- MODULE Kv --------------------------------
(***************************************************************************)
(* One client connection (possibly next to other clients of the same       *)
(* memcached) as a state machine: calls, other clients' writes, time,      *)
(* injected faults, connection losses, Reconnect and Close.                *)
(*                                                                         *)
(* It serves two purposes: its properties are model checked, and its       *)
(* behaviours are the scenarios that are run on the real client: `hist` is *)
(* the list of steps in the vocabulary of the harness, and Emit prints it  *)
(* for every transition of the (abstracted, see View) state graph, or for  *)
(* every random walk.                                                      *)
(***************************************************************************)
EXTENDS Store, SequencesExt, FiniteSets, Json

CONSTANTS Keys, Vals, Exps, Faults, Ops, MaxLen, MaxFaults, EmitAll, FlagSet, MaxKs

VARIABLES st, now, nc, obs, link, nf, hist, last

vars == <<st, now, nc, obs, link, nf, hist, last>>

NoOut == [op |-> "", k |-> "", rep |-> "", cas |-> "", pre |-> Absent]

Init == st = << >> /\ now = 0 /\ nc = 1 /\ obs = [k \in Keys |-> ""] /\ link = "ok" /\ nf = 0
        /\ hist = << >> /\ last = NoOut

ValOf(v) == CASE v = "n5" -> "5" [] v = "u" -> "x" [] OTHER -> "x"

Cmd(op, k, v, f, x, cas, d) ==
    [op |-> op, k |-> k, v |-> ValOf(v), f |-> f, xk |-> "rel", x |-> x, d |-> d, cas |-> cas, init |-> FALSE, iv |-> ""]

(* Execute a command on the store; `seen` says whether the caller learns the
   token (reads). *)
Do(cmd, reads) ==
    LET o == Outcome(st, now, cmd, ToString(nc))
    IN /\ st' = Effect(st, cmd, o)
       /\ nc' = nc + 1
       /\ obs' = IF reads /\ o.rep = "hit" THEN [obs EXCEPT ![cmd.k] = o.it.c] ELSE obs
       /\ last' = [op |-> cmd.op, k |-> cmd.k, rep |-> o.rep, cas |-> cmd.cas, pre |-> Live(st, cmd.k, now)]

Log(s) == hist' = Append(hist, s)
Quiet == UNCHANGED <<now, link, nf>>

S(op, k) == [op |-> op, k |-> k]

(* A random walk does not need all successors of a state, one per kind is enough. *)
Pick(set) == IF EmitAll \/ set = {} THEN set ELSE {RandomElement(set)}

(* --- calls of the client *)
Get(k) == "get" \in Ops /\ Do(Cmd("get", k, "u", "", 0, "", "0"), TRUE) /\ Log(S("get", k)) /\ Quiet

GetM(ks) == /\ "getm" \in Ops
            /\ obs' = [k \in Keys |-> IF Contains(ks, k) /\ Live(st, k, now).p THEN Live(st, k, now).c ELSE obs[k]]
            /\ Log([op |-> "getm", ks |-> ks])
            /\ last' = NoOut
            /\ UNCHANGED <<st, nc>> /\ Quiet

Store1(op, k, v, x, f) ==
    /\ op \in Ops
    /\ Do(Cmd(op, k, v, f, x, "", "0"), FALSE)
    /\ Log([op |-> op, k |-> k, v |-> v, x |-> x, f |-> f]) /\ Quiet

CasSet(k, v, x) ==
    /\ "cas" \in Ops
    /\ Do(Cmd("cas", k, v, "0", x, IF obs[k] = "" THEN "none" ELSE obs[k], "0"), FALSE)
    /\ Log([op |-> "set", k |-> k, v |-> v, x |-> x, cas |-> "obs"]) /\ Quiet

Delete(k) == "delete" \in Ops /\ Do(Cmd("delete", k, "u", "", 0, "", "0"), FALSE) /\ Log(S("delete", k)) /\ Quiet
Count1(op, k) == /\ op \in Ops
                 /\ Do(Cmd(op, k, "u", "", 0, "", "1"), FALSE)
                 /\ Log([op |-> op, k |-> k, d |-> 1]) /\ Quiet
Touch(k, x) == /\ "touch" \in Ops
               /\ Do(Cmd("touch", k, "u", "", x, "", "0"), FALSE)
               /\ Log([op |-> "touch", k |-> k, x |-> x]) /\ Quiet
Flush == "flush" \in Ops /\ Do(Cmd("flush", "", "u", "", 0, "", "0"), FALSE) /\ Log([op |-> "flush"]) /\ Quiet
Version == /\ "version" \in Ops
           /\ Log([op |-> "version"]) /\ last' = NoOut
           /\ UNCHANGED <<st, nc, obs>> /\ Quiet

(* --- the rest of the world *)
ExtSet(k, v) == /\ "xset" \in Ops
                /\ Do(Cmd("set", k, v, "0", 0, "", "0"), FALSE)
                /\ Log([op |-> "xset", k |-> k, v |-> v]) /\ Quiet
ExtDel(k) == /\ "xdelete" \in Ops
             /\ Do(Cmd("delete", k, "u", "", 0, "", "0"), FALSE)
             /\ Log(S("xdelete", k)) /\ Quiet
Tick == /\ "tick" \in Ops /\ now < 6
        /\ now' = now + 1
        /\ Log([op |-> "tick", n |-> 1]) /\ last' = NoOut
        /\ UNCHANGED <<st, nc, obs, link, nf>>

(* --- faults: a call whose exchange is disturbed. The command may or may
   not have been executed; the model follows the common case (it was) so
   that later steps stay interesting; the trace specification follows what
   really happened. *)
FaultyStep(c, f) ==
    /\ nf < MaxFaults
    /\ nf' = nf + 1
    /\ hist' = Append(hist, c @@ [fault |-> f])
    /\ link' = IF f.kind = "err" THEN link ELSE "sus"
    /\ last' = NoOut
    /\ UNCHANGED <<st, now, nc, obs>>
FaultyCalls ==
    {c \in {[op |-> o] : o \in {"version", "flush"}}
           \cup {[op |-> o, k |-> k] : o \in {"get", "delete", "set", "add", "replace"}, k \in Keys}
           \cup {[op |-> o, k |-> k, d |-> 1] : o \in {"incr", "decr"}, k \in Keys}
           \cup {[op |-> "touch", k |-> k, x |-> 2] : k \in Keys}
           \cup {[op |-> "getm", ks |-> ks] : ks \in {<<k>> : k \in Keys} \cup {<<j, k>> : j, k \in Keys}} : c.op \in Ops}

Faulty == \E c \in Pick(FaultyCalls), f \in Pick(Faults) : FaultyStep(c, f)

Drop == /\ "drop" \in Ops /\ nf < MaxFaults
        /\ nf' = nf + 1 /\ link' = "sus" /\ Log([op |-> "drop"]) /\ last' = NoOut
        /\ UNCHANGED <<st, now, nc, obs>>
Reconnect == /\ "reconnect" \in Ops
             /\ link' = IF link = "down" THEN "down" ELSE "ok"
             /\ Log([op |-> "reconnect"]) /\ last' = NoOut
             /\ UNCHANGED <<st, now, nc, obs, nf>>
GoDown == /\ "down" \in Ops /\ link # "down" /\ nf < MaxFaults
          /\ nf' = nf + 1 /\ link' = "down" /\ Log([op |-> "down"]) /\ last' = NoOut
          /\ UNCHANGED <<st, now, nc, obs>>
GoUp == /\ "down" \in Ops /\ link = "down"
        /\ link' = "sus" /\ Log([op |-> "up"]) /\ last' = NoOut
        /\ UNCHANGED <<st, now, nc, obs, nf>>

KeyLists == UNION {[1..n -> Keys] : n \in 1..MaxKs}

(* A walk is printed when it is complete. *)
Finish == /\ ~EmitAll /\ Len(hist) = MaxLen
          /\ PrintT("SCN " \o ToJson(hist))
          /\ UNCHANGED vars

Next ==
    \/ Finish
    \/ /\ Len(hist) < MaxLen
       /\ \/ \E k \in Pick(Keys) : Get(k) \/ Delete(k) \/ ExtDel(k)
          \/ \E ks \in Pick(KeyLists) : GetM(ks)
          \/ \E k \in Pick(Keys), v \in Pick(Vals), x \in Pick(Exps), f \in Pick(FlagSet), op \in Pick({"set", "add", "replace"}) : Store1(op, k, v, x, f)
          \/ \E k \in Pick(Keys), v \in Pick(Vals), x \in Pick(Exps) : CasSet(k, v, x)
          \/ \E k \in Pick(Keys), op \in Pick({"incr", "decr"}) : Count1(op, k)
          \/ \E k \in Pick(Keys), x \in Pick(Exps) : Touch(k, x)
          \/ \E k \in Pick(Keys), v \in Pick(Vals) : ExtSet(k, v)
          \/ Flush \/ Version \/ Tick \/ Faulty \/ Drop \/ Reconnect \/ GoDown \/ GoUp

Spec == Init /\ [][Next]_vars

(* What distinguishes states: token identity matters only as "the observed
   token is the current one". *)
Abs(k) == LET it == Live(st, k, now)
          IN [p |-> it.p, n |-> IsCounter(it.v), x |-> IF it.p /\ it.x # NoExp THEN it.x - now ELSE -1,
              o |-> IF obs[k] = "" THEN "none" ELSE IF it.p /\ obs[k] = it.c THEN "cur" ELSE "stale"]
View == <<[k \in Keys |-> Abs(k)], link, nf>>

(* --- properties of the specified semantics, on every transition (action
   properties: View hides `last`, so they must not be state invariants) *)
CasNeverOverwritesNewer ==
    [][last'.op = "cas" /\ last'.rep = "stored" => last'.pre.p /\ last'.pre.c = last'.cas]_vars
CasConflictIsReported ==
    [][last'.op = "cas" /\ last'.pre.p /\ last'.pre.c # last'.cas => last'.rep = "exists"]_vars
AddOnlyWhenAbsent == [][last'.op = "add" => (last'.rep = "stored" <=> ~last'.pre.p)]_vars
ReplaceOnlyWhenPresent == [][last'.op = "replace" => (last'.rep = "stored" <=> last'.pre.p)]_vars
HitsAreLive == [][last'.op = "get" => (last'.rep = "hit" <=> last'.pre.p)]_vars
TokensUnique == [][\A j, k \in DOMAIN st' : j # k /\ st'[j].p /\ st'[k].p => st'[j].c # st'[k].c]_vars
FailedLeavesItem ==
    [][last'.k # "" /\ last'.rep \in {"exists", "notstored", "notfound", "nonnum", "miss"} /\ last'.pre.p
        => Live(st', last'.k, now) = last'.pre]_vars
NonInterference == [][\A k \in DOMAIN st : last'.k # k /\ last'.op # "flush" => Lookup(st', k) = Lookup(st, k)]_vars

TypeOK == now \in 0..6 /\ link \in {"ok", "sus", "down"}

Emit == EmitAll => PrintT("SCN " \o ToJson(hist'))
=============================================================================
