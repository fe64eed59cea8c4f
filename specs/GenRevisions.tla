--------------------------- MODULE GenRevisions ---------------------------
(* Behaviour generator: prints every complete history of Revisions.        *)
(* Exhaustive mode uses Spec, random mode (tlc -simulate) uses SimSpec.    *)
EXTENDS Revisions, Json, Randomization
Emit == (Len(sections) = MaxRevs) =>
          PrintT("TRACE " \o ToJson([sections |-> sections, hist |-> hist]))

(* The IF keeps TLC from fixing the random choices once for the whole run. *)
SimNext == IF Len(sections) < MaxRevs
           THEN \E k \in {RandomElement(Kinds)}, root \in {RandomElement(Roots)}, info \in {RandomElement(Infos)},
                   m \in {RandomElement(1..MaxEdits)} :
                \E S \in {TLCEval(RandomSubset(IF m > NumObjs THEN NumObjs ELSE m, Objs))} :
                \E e \in {TLCEval([n \in Objs |-> IF n \in S THEN RandomElement(Allowed(k, n)) ELSE "-"])} :
                  AppendRev(k, e, root, info)
           ELSE UNCHANGED vars
SimSpec == Init /\ [][SimNext]_vars
=============================================================================
