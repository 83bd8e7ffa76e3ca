----------------------------- MODULE ServerConn -----------------------------
(***************************************************************************)
(* The server side of the protocols: byte streams of several connections   *)
(* arrive in segments, requests are cut out of them, handed to the handler *)
(* and answered.                                                           *)
(*                                                                         *)
(* Its behaviours (what is sent, how it is cut into segments, in which     *)
(* order the segments of the connections arrive, how the clients leave)    *)
(* are the scenarios that are run against the real server.                 *)
(*                                                                         *)
(* A request consists of n parts; `cut` says behind which of them a        *)
(* segment ends.  Mut names a deliberate error of the design.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json

CONSTANTS
    NC,        \* connections
    MaxReq,    \* requests per connection
    MaxTotal,  \* requests of all connections
    Forms,     \* records [p, op, var, n, outs, nks]
    Cuts,      \* "all", "random" or "none"
    MaxBad,    \* malformed or failing requests
    Ends,      \* ways a client leaves
    Mode,      \* "check", "all": print every complete behaviour, "walk": random walks
    Mut

Conns == 1..NC
VARIABLES
    reqs,   \* per connection: the requests it sends
    proto, fin,
    next,   \* per connection: parts that have left the client, as a position <<request, part>>
    inq,    \* segments on their way
    buf,    \* parts the server has read and not yet used
    busy,   \* request at the handler, 0 if none
    deliv,  \* what the handler was given
    outb,   \* replies
    dead,   \* the server has given up the connection
    order, phase

vars == <<reqs, proto, fin, next, inq, buf, busy, deliv, outb, dead, order, phase>>

(* the order of the segments is only recorded *)
View == <<reqs, proto, fin, next, inq, buf, busy, deliv, outb, dead, phase>>

Init == /\ reqs = [c \in Conns |-> << >>] /\ proto = [c \in Conns |-> ""] /\ fin = [c \in Conns |-> ""]
        /\ next = [c \in Conns |-> 0] /\ inq = [c \in Conns |-> << >>] /\ buf = [c \in Conns |-> << >>]
        /\ busy = [c \in Conns |-> 0] /\ deliv = [c \in Conns |-> << >>] /\ outb = [c \in Conns |-> << >>]
        /\ dead = [c \in Conns |-> FALSE] /\ order = << >> /\ phase = "plan"

Pick(S) == IF Mode # "walk" \/ S = {} THEN S ELSE {RandomElement(S)}

Total == FoldSet(LAMBDA c, a : a + Len(reqs[c]), 0, Conns)
Fatal(r) == r.op = "bad" \/ r.out = "herr"
Bads == FoldSet(LAMBDA c, a : a + Len(SelectSeq(reqs[c], Fatal)), 0, Conns)

(* --- what the clients are going to send *)
CutSets(n) == CASE Cuts = "all" -> SUBSET (1..n)
              [] Cuts = "none" -> {{}, 1..n}
              [] OTHER -> LET d == RandomElement(1..4)
                          IN {{i \in 1..n : RandomElement(1..4) <= d - 1}}

Compose == \E c \in Pick({d \in Conns : Len(reqs[d]) < MaxReq}) :
    /\ phase = "plan" /\ Total < MaxTotal
    /\ \E f \in Pick({g \in Forms : (proto[c] = "" \/ g.p = proto[c]) /\ (g.op = "bad" => Bads < MaxBad)}) :
       \E o \in Pick({x \in f.outs : x = "herr" => Bads < MaxBad}), nk \in Pick(f.nks), cut \in CutSets(f.n) :
          /\ proto' = [proto EXCEPT ![c] = f.p]
          /\ reqs' = [reqs EXCEPT ![c] = Append(@, [op |-> f.op, var |-> f.var, out |-> o, nk |-> nk, n |-> f.n, cut |-> cut])]
    /\ UNCHANGED <<fin, next, inq, buf, busy, deliv, outb, dead, order, phase>>
Start == /\ phase = "plan" /\ Total > 0 /\ (Mode # "walk" \/ Total = MaxTotal \/ (\A c \in Conns : Len(reqs[c]) = MaxReq) \/ RandomElement(1..12) = 1)
         /\ \E f \in Pick([Conns -> Ends]) : fin' = f
         /\ phase' = "run"
         /\ UNCHANGED <<reqs, proto, next, inq, buf, busy, deliv, outb, dead, order>>

(* --- sending *)
Parts(c) == FlattenSeq([i \in DOMAIN reqs[c] |-> [j \in 1..reqs[c][i].n |-> <<c, i, j>>]])
(* a client that leaves early keeps the last part for itself *)
Sent(c) == IF fin[c] = "trunc" THEN SubSeq(Parts(c), 1, Len(Parts(c)) - 1) ELSE Parts(c)
EndsSeg(c, p) == LET q == Sent(c)[p] IN q[3] \in reqs[c][q[2]].cut \/ p = Len(Sent(c))
Push(c) ==
    /\ phase = "run" /\ next[c] < Len(Sent(c))
    /\ LET e == CHOOSE p \in next[c] + 1..Len(Sent(c)) : EndsSeg(c, p) /\ \A q \in next[c] + 1..p - 1 : ~EndsSeg(c, q)
       IN /\ inq' = [inq EXCEPT ![c] = Append(@, SubSeq(Sent(c), next[c] + 1, e))]
          /\ next' = [next EXCEPT ![c] = e]
    /\ order' = Append(order, c)
    /\ UNCHANGED <<reqs, proto, fin, buf, busy, deliv, outb, dead, phase>>

(* --- the server *)
Req(c, i) == reqs[c][i]
Need(q) == IF Mut = "early" /\ q.n > 1 THEN q.n - 1 ELSE q.n
(* the request at the front of the buffer, if it is complete *)
Ready(c) == IF buf[c] = << >> THEN 0
            ELSE LET i == buf[c][1][2]
                     q == Req(buf[c][1][1], i)
                 IN IF buf[c][1][1] <= NC /\ Len(buf[c]) >= Need(q) THEN i ELSE 0
Idle(c) == phase = "run" /\ busy[c] = 0 /\ ~dead[c]

Read(c) == /\ Idle(c) /\ Ready(c) = 0 /\ inq[c] # << >>
           /\ LET d == IF Mut = "shared" THEN 1 ELSE c
              IN buf' = [buf EXCEPT ![d] = @ \o Head(inq[c])]
           /\ inq' = [inq EXCEPT ![c] = Tail(@)]
           /\ UNCHANGED <<reqs, proto, fin, next, busy, deliv, outb, dead, order, phase>>
Parse(c) ==
    /\ Idle(c) /\ Ready(c) # 0
    /\ Mut = "lock" => \A d \in Conns : busy[d] = 0
    /\ LET i == Ready(c)
           q == Req(buf[c][1][1], i)
           n == Need(q)
       IN /\ buf' = [buf EXCEPT ![c] = IF Mut = "droprest" THEN << >> ELSE SubSeq(@, n + 1, Len(@))]
          /\ IF q.op = "bad" /\ Mut # "lenient"
             THEN /\ dead' = [d \in Conns |-> dead[d] \/ d = c \/ Mut = "poison"]
                  /\ UNCHANGED <<busy, deliv>>
             ELSE /\ busy' = [busy EXCEPT ![c] = i]
                  /\ deliv' = [deliv EXCEPT ![c] = Append(@, SubSeq(buf[c], 1, n))]
                  /\ UNCHANGED dead
    /\ UNCHANGED <<reqs, proto, fin, next, inq, outb, order, phase>>
(* A client that stays neither leaves nor takes its replies: the server has to
   wait for it, but only its own connection has to. *)
Stays(c) == fin[c] = "stay"
(* Nothing more can come; the rest of the stream is no request. *)
Leave(c) == /\ Idle(c) /\ ~Stays(c) /\ Ready(c) = 0 /\ inq[c] = << >> /\ next[c] = Len(Sent(c))
            /\ dead' = [dead EXCEPT ![c] = TRUE]
            /\ UNCHANGED <<reqs, proto, fin, next, inq, buf, busy, deliv, outb, order, phase>>
QuietMiss(q) == q.op = "get" /\ q.out = "miss" /\ (q.var = "getkq" \/ (q.var = "meta" /\ q.nk = 2))
Silent(q) == QuietMiss(q) \/ (Mut = "silent" /\ q.out = "err")
Answer(c) ==
    /\ busy[c] # 0 /\ phase = "run" /\ ~Stays(c)
    /\ LET q == Req(c, busy[c])
       IN /\ dead' = [dead EXCEPT ![c] = @ \/ q.out = "herr"]
          /\ outb' = [outb EXCEPT ![c] =
                        CASE q.out = "herr" \/ Silent(q) -> @
                        [] Mut = "twice" /\ q.out = "miss" -> @ \o <<busy[c], busy[c]>>
                        [] Mut = "reorder" /\ @ # << >> /\ q.out = "err" -> SubSeq(@, 1, Len(@) - 1) \o <<busy[c], Last(@)>>
                        [] OTHER -> Append(@, busy[c])]
    /\ busy' = [busy EXCEPT ![c] = 0]
    /\ UNCHANGED <<reqs, proto, fin, next, inq, buf, deliv, order, phase>>

Over == phase = "run" /\ \A c \in Conns : Stays(c) \/ (dead[c] /\ busy[c] = 0 /\ next[c] = Len(Sent(c)))
Ser(c) == [p |-> IF proto[c] = "" THEN "text" ELSE proto[c],
           reqs |-> [i \in DOMAIN reqs[c] |-> [op |-> reqs[c][i].op, var |-> reqs[c][i].var, out |-> reqs[c][i].out,
                                               nk |-> reqs[c][i].nk, cut |-> SetToSeq(reqs[c][i].cut)]],
           end |-> fin[c]]
Finish == /\ Mode # "check" /\ Over /\ phase' = "over"
          /\ PrintT("SCN " \o ToJson([conns |-> [c \in Conns |-> Ser(c)], order |-> order]))
          /\ UNCHANGED <<reqs, proto, fin, next, inq, buf, busy, deliv, outb, dead, order>>

Server(c) == Read(c) \/ Parse(c) \/ Leave(c) \/ Answer(c)
Next == Compose \/ Start \/ Finish \/ \E c \in Conns : Push(c) \/ Server(c)
Fair == /\ \A c \in Conns : WF_vars(Push(c)) /\ WF_vars(Server(c))
Spec == Init /\ [][Next]_vars /\ Fair

(* --- properties *)
FirstFatal(c) == IF \E i \in DOMAIN reqs[c] : Fatal(reqs[c][i])
                 THEN CHOOSE i \in DOMAIN reqs[c] : Fatal(reqs[c][i]) /\ \A j \in 1..i - 1 : ~Fatal(reqs[c][j])
                 ELSE Len(reqs[c]) + 1
Whole(c, i) == fin[c] # "trunc" \/ i < Len(reqs[c])
(* C13: in order, exactly once, with exactly its own parts *)
Intact == \A c \in Conns : \A i \in DOMAIN deliv[c] :
             i \in DOMAIN reqs[c] /\ deliv[c][i] = [j \in 1..reqs[c][i].n |-> <<c, i, j>>]
(* C14 *)
BadNever == \A c \in Conns : \A i \in DOMAIN deliv[c] : deliv[c][i] # << >> => Req(deliv[c][i][1][1], deliv[c][i][1][2]).op # "bad"
(* C15 *)
Expected(c) == SelectSeq([i \in DOMAIN deliv[c] |-> i],
                         LAMBDA i : i # busy[c] /\ reqs[c][i].out # "herr" /\ ~QuietMiss(reqs[c][i]))
OneReply == \A c \in Conns : outb[c] = Expected(c)
(* every request before the first one that ends the connection is served *)
Served(c) == Len(deliv[c]) >= Cardinality({i \in DOMAIN reqs[c] : i < FirstFatal(c) /\ Whole(c, i)})
AllServed == Over => \A c \in Conns : Stays(c) \/ Served(c)
Progress == [](phase = "run" => <>(\A c \in Conns : Stays(c) \/ (dead[c] /\ busy[c] = 0)))
=============================================================================
