-------------------------------- MODULE Ring --------------------------------
(***************************************************************************)
(* A consistent-hash ring over a small hash space: every server has some   *)
(* points, points of different servers may coincide.  A ring is built by   *)
(* sorting the points of the servers as they were listed (a sort need not  *)
(* be stable), a key is looked up by binary search, step by step.          *)
(* The properties: the owner depends on the set of servers only, and       *)
(* adding a server moves keys to that server only.                         *)
(* Mut: a deliberate mistake ("" for none).                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

CONSTANTS Names, H, NPts, Mut

Space == 0..(H - 1)
VARIABLES pts, set, ring, h, lo, hi, ph, owner

vars == <<pts, set, ring, h, lo, hi, ph, owner>>

Rank == CHOOSE f \in [Names -> 1..Cardinality(Names)] : \A a, b \in Names : a # b => f[a] # f[b]
Node(n, p) == [s |-> n, p |-> p]
Points(S, n) == IF Mut = "count" /\ Cardinality(S) > 2 THEN {CHOOSE p \in pts[n] : \A q \in pts[n] : p <= q} ELSE pts[n]
NodesOf(S) == UNION {{Node(n, p) : p \in Points(S, n)} : n \in S}

Before(a, b) == IF Mut = "notie" THEN a.p < b.p ELSE a.p < b.p \/ (a.p = b.p /\ Rank[a.s] < Rank[b.s])
(* every order a sort with this comparison may give *)
Sorted(S) == LET N == NodesOf(S)
             IN {q \in SetToSeqs(N) : \A i, j \in DOMAIN q : i < j => ~Before(q[j], q[i])}

Init == /\ pts \in [Names -> {P \in SUBSET Space : Cardinality(P) = NPts}]
        /\ set \in SUBSET Names \ {{}}
        /\ ring \in Sorted(set)
        /\ h \in Space
        /\ lo = 1 /\ hi = Len(ring) /\ ph = "search" /\ owner = ""

Less(x, y) == IF Mut = "signed" THEN (x + H \div 2) % H < (y + H \div 2) % H ELSE x < y
Mid == (lo + hi) \div 2
Search ==
    /\ ph = "search" /\ lo <= hi
    /\ UNCHANGED <<pts, set, ring, h, owner>>
    /\ IF Mut = "exact" /\ ring[Mid].p = h
       THEN ph' = "found" /\ UNCHANGED <<lo, hi>>      \* stops with hi where it happens to be
       ELSE /\ ph' = ph
            /\ IF Less(h, ring[Mid].p) THEN hi' = Mid - 1 /\ lo' = lo ELSE lo' = Mid + 1 /\ hi' = hi
Take == /\ ph = "found" \/ (ph = "search" /\ lo > hi)
        /\ owner' = ring[IF hi < 1 THEN 1 ELSE hi].s
        /\ ph' = "done"
        /\ UNCHANGED <<pts, set, ring, h, lo, hi>>
Next == Search \/ Take
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
(* The owner as a function of the set: the server of the greatest point not
   above the hash (of those the last by name), else that of the first point. *)
Owner(S, x) ==
    LET N == NodesOf(S)
        L == {n \in N : n.p <= x}
        Greatest(M) == CHOOSE a \in M : \A b \in M : b.p < a.p \/ (b.p = a.p /\ Rank[b.s] <= Rank[a.s])
        Least(M) == CHOOSE a \in M : \A b \in M : a.p < b.p \/ (b.p = a.p /\ Rank[a.s] <= Rank[b.s])
    IN IF L # {} THEN Greatest(L).s ELSE Least(N).s

Determined == ph = "done" => owner = Owner(set, h)
Member == ph = "done" => owner \in set
MinimalMoves == \A n \in Names \ set : LET o == Owner(set \cup {n}, h) IN o = Owner(set, h) \/ o = n
=============================================================================
