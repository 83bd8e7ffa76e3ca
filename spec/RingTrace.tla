----------------------------- MODULE RingTrace -----------------------------
(***************************************************************************)
(* Placement of keys in real rings and pools against the relations of      *)
(* Ring.tla.  An event says, for one set of servers (listed in some        *)
(* order), which server every key of the scenario was sent to.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, ref, bad
vars == <<tid, l, ref, bad>>
T == Traces[tid]
E == T.ev[l]

Init == tid \in 1..Len(Traces) /\ l = 1 /\ ref = << >> /\ bad = << >>

Owned(S, own) == \A i \in DOMAIN own : own[i] \in S
(* A: the smaller set, b the added server *)
Minimal(ownA, ownB, b) == \A i \in DOMAIN ownA : ownB[i] = ownA[i] \/ ownB[i] = b

(* Of many keys every server gets between half and twice a fair share. *)
Fair == \A i \in DOMAIN E.cnt : E.cnt[i] * E.n * 2 >= E.keys /\ E.cnt[i] * E.n <= 2 * E.keys
Sum[i \in 0..Len(E.cnt)] == IF i = 0 THEN 0 ELSE E.cnt[i] + Sum[i - 1]
ShareReasons ==
    IF E.r = "panic" THEN {"panic"}
    ELSE (IF Fair THEN {} ELSE {"share"}) \cup (IF Sum[Len(E.cnt)] = E.keys THEN {} ELSE {"owner"})

Reasons(S, own) ==
    (IF Owned(S, own) THEN {} ELSE IF \E i \in DOMAIN own : own[i] = -2 THEN {"panic"} ELSE {"owner"})
    \cup (IF S \in DOMAIN ref /\ ref[S] # own THEN {IF E.op \in {"pick", "conc"} THEN "order" ELSE "op"} ELSE {})
    \cup (IF \E A \in DOMAIN ref : \/ A \subseteq S /\ Cardinality(S \ A) = 1 /\ ~Minimal(ref[A], own, CHOOSE b \in S \ A : TRUE)
                                   \/ S \subseteq A /\ Cardinality(A \ S) = 1 /\ ~Minimal(own, ref[A], CHOOSE b \in A \ S : TRUE)
          THEN {"moves"} ELSE {})

Step == /\ l <= Len(T.ev)
        /\ l' = l + 1 /\ tid' = tid
        /\ IF E.e = "share" THEN ref' = ref /\ bad' = bad \o SetToSeq({[l |-> l, r |-> r] : r \in ShareReasons})
           ELSE LET S == ToSet(E.set)
           IN /\ bad' = bad \o SetToSeq({[l |-> l, r |-> r] : r \in Reasons(S, E.own)})
              /\ ref' = IF S \in DOMAIN ref THEN ref ELSE (S :> E.own) @@ ref
Done == l > Len(T.ev) /\ UNCHANGED vars
Next == Step \/ Done
Report == l > Len(T.ev) /\ bad # << >> => PrintT(<<"BAD", tid, T.id, ToJson(bad)>>)
=============================================================================
