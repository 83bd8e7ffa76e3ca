-------------------------------- MODULE Conn --------------------------------
(***************************************************************************)
(* The life of one client connection object: callers share it under a      *)
(* mutex, the link below it breaks, stalls and is replaced by Reconnect,   *)
(* Close ends it without waiting for the mutex, and a heartbeat may watch  *)
(* it.  What a command does is the subject of Kv.tla; here a command is a  *)
(* request with an identity, and its answer carries the same identity.     *)
(*                                                                         *)
(* Mut names a deliberate mistake ("" for none).                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS Threads, Ops, MaxCalls, MaxGen, MaxFaults, Heartbeat, Alone, Record, EmitAll, Mut
\* Heartbeat: "none", "close" (a failed one closes the object), "auto" (reconnects)

VARIABLES since, pc, op, cid, res, late, mu, gen, up, c2s, s2c, closed, closeRet, reach, stall, next, served, post, faults, hb, hist

vars == <<since, pc, op, cid, res, late, mu, gen, up, c2s, s2c, closed, closeRet, reach, stall, next, served, post, faults, hb, hist>>

All == Threads \cup {"hb"}
Free == "-"
Gens == 1..MaxGen

Init == /\ since = TRUE /\ pc = [t \in All |-> "idle"] /\ op = [t \in All |-> ""] /\ cid = [t \in All |-> 0] /\ res = [t \in All |-> 0] /\ late = [t \in All |-> FALSE]
        /\ mu = Free /\ gen = 1 /\ up = [g \in Gens |-> g = 1]
        /\ c2s = [g \in Gens |-> << >>] /\ s2c = [g \in Gens |-> << >>]
        /\ closed = FALSE /\ closeRet = FALSE /\ reach = TRUE /\ stall = FALSE
        /\ next = 1 /\ served = {} /\ post = FALSE /\ faults = 0 /\ hb = IF Heartbeat = "none" THEN "off" ELSE "on"
        /\ hist = << >>

Pick(S) == IF EmitAll \/ S = {} THEN S ELSE {RandomElement(S)}
Quiet == \A t \in Threads : pc[t] = "idle"
May(t) == pc[t] = "idle" /\ (Alone => Quiet) /\ next <= MaxCalls
Note(h) == hist' = IF Record THEN Append(hist, h) ELSE hist
(* what thread t does *)
Do(t, h) == Note(h) /\ since' = TRUE /\ op' = [op EXCEPT ![t] = h.op]

(* res: -1 an error, otherwise the identity the answer carries *)
Begin(t, o) == /\ May(t)
                /\ pc' = [pc EXCEPT ![t] = "want"] /\ cid' = [cid EXCEPT ![t] = next] /\ res' = [res EXCEPT ![t] = 0]
                /\ late' = [late EXCEPT ![t] = closeRet]
                /\ next' = next + 1 /\ Do(t, [t |-> t, op |-> o])
                /\ UNCHANGED <<mu, gen, up, c2s, s2c, closed, closeRet, reach, stall, served, post, faults, hb>>

Lock(t) == /\ pc[t] = "want" /\ (mu = Free \/ Mut = "nolock")
           /\ mu' = t /\ pc' = [pc EXCEPT ![t] = "send"]
           /\ UNCHANGED <<since, op, cid, res, late, gen, up, c2s, s2c, closed, closeRet, reach, stall, next, served, post, faults, hb, hist>>

Send(t) == /\ pc[t] = "send" /\ up[gen]
           /\ c2s' = [c2s EXCEPT ![gen] = Append(@, cid[t])] /\ pc' = [pc EXCEPT ![t] = "wait"]
           /\ mu' = IF Mut = "unlockearly" THEN Free ELSE mu
           /\ UNCHANGED <<since, op, cid, res, late, gen, up, s2c, closed, closeRet, reach, stall, next, served, post, faults, hb, hist>>

(* the call ends; the mutex with it *)
End(t, r) == /\ pc' = [pc EXCEPT ![t] = IF t = "hb" /\ r = -1 THEN "alarm" ELSE "idle"] /\ res' = [res EXCEPT ![t] = r]
             /\ mu' = IF mu = t THEN Free ELSE mu
Same == UNCHANGED <<since, op, cid, late, gen, c2s, closed, closeRet, reach, stall, next, served, post, faults, hb, hist>>

Recv(t) == /\ pc[t] = "wait" /\ up[gen] /\ s2c[gen] # << >>
           /\ End(t, Head(s2c[gen])) /\ s2c' = [s2c EXCEPT ![gen] = Tail(@)] /\ UNCHANGED up /\ Same

(* the link is broken: an error; with it goes everything still on its way *)
Fail(t) == /\ pc[t] \in {"send", "wait"} /\ ~up[gen] /\ End(t, -1) /\ UNCHANGED <<up, s2c>> /\ Same
Timeout(t) == /\ pc[t] = "wait" /\ up[gen] /\ stall /\ s2c[gen] = << >> /\ Mut # "notimeout"
              /\ End(t, -1) /\ up' = IF Mut = "nopoison" THEN up ELSE [up EXCEPT ![gen] = FALSE]
              /\ UNCHANGED s2c /\ Same

Serve == /\ ~stall
         /\ \E g \in Gens : /\ up[g] /\ c2s[g] # << >>
                            /\ s2c' = [s2c EXCEPT ![g] = Append(@, Head(c2s[g]))]
                            /\ served' = IF Head(c2s[g]) = 0 THEN served ELSE served \cup {<<Head(c2s[g]), IF \E q \in served : q[1] = Head(c2s[g]) THEN 2 ELSE 1>>}
                            /\ post' = (post \/ closeRet)
                            /\ c2s' = [c2s EXCEPT ![g] = Tail(@)]
         /\ UNCHANGED <<since, op, pc, cid, res, late, mu, gen, up, closed, closeRet, reach, stall, next, faults, hb, hist>>

----------------------------------------------------------------------------
(* Reconnect: under the mutex the old link goes, a new one is dialled, and
   it is installed unless the object was closed meanwhile. *)
RBegin(t) == /\ May(t) /\ "reconnect" \in Ops
             /\ pc' = [pc EXCEPT ![t] = "rwant"] /\ cid' = [cid EXCEPT ![t] = next] /\ late' = [late EXCEPT ![t] = closeRet]
             /\ res' = [res EXCEPT ![t] = 0] /\ next' = next + 1 /\ Do(t, [t |-> t, op |-> "reconnect"])
             /\ UNCHANGED <<mu, gen, up, c2s, s2c, closed, closeRet, reach, stall, served, post, faults, hb>>
RLock(t) == /\ pc[t] = "rwant" /\ mu = Free
            /\ IF closed /\ Mut # "reopen"
               THEN /\ pc' = [pc EXCEPT ![t] = "idle"] /\ res' = [res EXCEPT ![t] = -1] /\ UNCHANGED <<mu, up>>
               ELSE /\ mu' = t /\ pc' = [pc EXCEPT ![t] = "dial"] /\ up' = [up EXCEPT ![gen] = FALSE] /\ UNCHANGED res
            /\ UNCHANGED <<since, op, cid, late, gen, c2s, s2c, closed, closeRet, reach, stall, next, served, post, faults, hb, hist>>
RDial(t) == /\ pc[t] = "dial"
            /\ IF reach /\ gen < MaxGen
               THEN pc' = [pc EXCEPT ![t] = "install"] /\ UNCHANGED <<res, mu, hb>>
               ELSE /\ pc' = [pc EXCEPT ![t] = "idle"] /\ res' = [res EXCEPT ![t] = -1] /\ mu' = Free
                    /\ hb' = IF t = "hb" /\ Mut = "hbquits" THEN "off" ELSE hb
            /\ UNCHANGED <<since, op, cid, late, gen, up, c2s, s2c, closed, closeRet, reach, stall, next, served, post, faults, hist>>
RInstall(t) == /\ pc[t] = "install"
               /\ mu' = Free /\ pc' = [pc EXCEPT ![t] = "idle"]
               /\ IF closed /\ Mut \notin {"install", "reopen"}
                  THEN res' = [res EXCEPT ![t] = -1] /\ UNCHANGED <<gen, up>>
                  ELSE /\ res' = [res EXCEPT ![t] = cid[t]] /\ gen' = gen + 1
                       /\ up' = [up EXCEPT ![gen + 1] = reach]    \* it may have broken at once
               /\ UNCHANGED <<since, op, cid, late, c2s, s2c, closed, closeRet, reach, stall, next, served, post, faults, hb, hist>>

(* Close does not wait for the mutex. *)
Close(t) == /\ May(t) /\ "close" \in Ops
            /\ next' = next + 1 /\ Do(t, [t |-> t, op |-> "close"])
            /\ closed' = TRUE /\ closeRet' = TRUE
            /\ up' = IF Mut = "closelazy" THEN up ELSE [up EXCEPT ![gen] = FALSE]
            /\ hb' = IF hb = "on" /\ Mut # "hbforever" THEN "off" ELSE hb
            /\ cid' = [cid EXCEPT ![t] = next] /\ late' = [late EXCEPT ![t] = closeRet]
            /\ res' = [res EXCEPT ![t] = IF closed THEN -1 ELSE next]
            /\ UNCHANGED <<pc, mu, gen, c2s, s2c, reach, stall, served, post, faults>>

(* The heartbeat: a version request now and then. *)
Beat == /\ hb = "on" /\ pc["hb"] = "idle" /\ Heartbeat # "none"
        /\ pc' = [pc EXCEPT !["hb"] = "want"] /\ cid' = [cid EXCEPT !["hb"] = 0] /\ late' = [late EXCEPT !["hb"] = closeRet]
        /\ UNCHANGED <<since, op, res, mu, gen, up, c2s, s2c, closed, closeRet, reach, stall, next, served, post, faults, hb, hist>>
Alarm == /\ pc["hb"] = "alarm"
         /\ IF Heartbeat = "auto"
            THEN /\ pc' = [pc EXCEPT !["hb"] = "rwant"] /\ UNCHANGED <<closed, closeRet, up, hb>>
            ELSE /\ pc' = [pc EXCEPT !["hb"] = "idle"]
                 /\ closed' = TRUE /\ closeRet' = TRUE /\ hb' = "off" /\ up' = [up EXCEPT ![gen] = FALSE]
         /\ UNCHANGED <<since, op, cid, res, late, mu, gen, c2s, s2c, reach, stall, next, served, post, faults, hist>>

----------------------------------------------------------------------------
(* The world *)
Env(h) == /\ faults < MaxFaults /\ faults' = faults + 1 /\ since' = FALSE /\ (Alone => Quiet) /\ Note(h)
Drop == /\ up[gen] /\ Env([t |-> "env", op |-> "drop"]) /\ up' = [up EXCEPT ![gen] = FALSE]
        /\ UNCHANGED <<op, pc, cid, res, late, mu, gen, c2s, s2c, closed, closeRet, reach, stall, next, served, post, hb>>
Down == /\ reach /\ Env([t |-> "env", op |-> "down"]) /\ reach' = FALSE /\ up' = [up EXCEPT ![gen] = FALSE]
        /\ UNCHANGED <<op, pc, cid, res, late, mu, gen, c2s, s2c, closed, closeRet, stall, next, served, post, hb>>
Up == /\ ~reach /\ reach' = TRUE /\ since' = FALSE /\ (Alone => Quiet) /\ Note([t |-> "env", op |-> "up"])
      /\ UNCHANGED <<op, pc, cid, res, late, mu, gen, up, c2s, s2c, closed, closeRet, stall, next, served, post, faults, hb>>
Stall == /\ ~stall /\ ~Alone /\ Env([t |-> "env", op |-> "stall"]) /\ stall' = TRUE
         /\ UNCHANGED <<op, pc, cid, res, late, mu, gen, up, c2s, s2c, closed, closeRet, reach, next, served, post, hb>>
Resume == /\ stall /\ stall' = FALSE /\ Note([t |-> "env", op |-> "resume"])
          /\ UNCHANGED <<since, op, pc, cid, res, late, mu, gen, up, c2s, s2c, closed, closeRet, reach, next, served, post, faults, hb>>

Finish == /\ ~EmitAll /\ next > MaxCalls /\ Quiet /\ PrintT("SCN " \o ToJson(hist)) /\ UNCHANGED vars

Prog(t) == Lock(t) \/ Send(t) \/ Recv(t) \/ Fail(t) \/ Timeout(t) \/ RLock(t) \/ RDial(t) \/ RInstall(t)
Calls == Ops \ {"close", "reconnect"}
Next == \/ \E t \in Pick({t \in Threads : May(t)}), o \in Pick({o \in Calls : next > 0}) : Begin(t, o)
        \/ \E t \in Threads : RBegin(t) \/ Close(t)
        \/ \E t \in All : Prog(t)
        \/ Serve \/ Beat \/ Alarm \/ Drop \/ Down \/ Up \/ Stall \/ Resume
        \/ Finish
Fair == /\ \A t \in All : /\ WF_vars(Send(t)) /\ WF_vars(Recv(t)) /\ WF_vars(Fail(t)) /\ WF_vars(Timeout(t))
                          /\ SF_vars(Lock(t)) /\ SF_vars(RLock(t)) /\ WF_vars(RDial(t)) /\ WF_vars(RInstall(t))
        /\ WF_vars(Serve) /\ WF_vars(Beat) /\ WF_vars(Alarm) /\ WF_vars(Up)
Spec == Init /\ [][Next]_vars /\ Fair

----------------------------------------------------------------------------
TypeOK == mu \in All \cup {Free} /\ gen \in Gens
(* C01, C04: an answer is the answer to the very call *)
RightReply == \A t \in All : pc[t] = "idle" /\ res[t] \notin {0, -1} /\ cid[t] # 0 => res[t] = cid[t]
(* C04: one at a time on the wire *)
Exclusive == Cardinality({t \in All : pc[t] \in {"send", "wait", "dial", "install"}}) <= 1
OnceEach == \A q \in served : q[2] = 1
OneLink == \A g \in Gens : up[g] => g = gen
(* C17: after Close nothing succeeds, nothing is served and no link is left *)
CloseFinal == /\ \A t \in Threads : late[t] /\ pc[t] = "idle" => res[t] \in {0, -1}
              /\ closeRet => \A g \in Gens : ~up[g]
              /\ ~post
(* C17: Reconnect works if the backend can be reached; judged for the sequential model *)
ReconnectWorks == Alone => \A t \in Threads : pc[t] = "idle" /\ op[t] = "reconnect" /\ cid[t] = next - 1 /\ since
                            /\ ~closed /\ reach /\ gen < MaxGen => res[t] = cid[t] /\ up[gen]
HealthyWorks == Alone /\ faults = 0 /\ ~closed /\ gen < MaxGen => \A t \in Threads : pc[t] = "idle" => res[t] # -1

(* C19: every call ends. C18: with auto-reconnect the object heals for good
   once the faults are over; without, a broken link ends in a closed object. *)
EveryCallEnds == \A t \in Threads : pc[t] # "idle" ~> pc[t] = "idle"
Heals == Heartbeat = "auto" => <>[](closed \/ up[gen] \/ gen = MaxGen)
Gives == Heartbeat = "close" => [](~up[gen] => <>(closed \/ up[gen]))
BeatsEnd == closeRet ~> [](pc["hb"] = "idle")

View == <<pc, mu, gen, up, [g \in Gens |-> <<Len(c2s[g]), Len(s2c[g])>>], closed, reach, stall, next, faults, hb, IF EmitAll THEN 0 ELSE Len(hist)>>
Emit == EmitAll /\ hist' # hist => PrintT("SCN " \o ToJson(hist'))
=============================================================================
