---------------------------- MODULE GenPageTree ----------------------------
(* Page trees and edit histories, for replay.                              *)
EXTENDS PageTree, Json
VARIABLES log, tree
gvars == <<vars, log, tree>>
None0 == [kids |-> <<>>, rot |-> <<>>]
GInit == Init /\ log = <<>> /\ tree = None0

Snap == tree' = [kids |-> {<<n, kids[n]>> : n \in {m \in Inner \cup {Root} : InUse(m)}},
                 rot |-> {<<n, rot[n]>> : n \in {m \in Nodes : rot[m] # NoRot}}]
Grow == (\E n \in Inner \cup {Root}, r \in Rots : GrowLeaf(n, r) \/ GrowInner(n, r)) /\ UNCHANGED <<log, tree>>
GStart == Start /\ Snap /\ UNCHANGED log

Rec(a, i, x, S) == /\ UNCHANGED tree
                   /\ log' = Append(log, [a |-> a, i |-> i, x |-> x, s |-> S, list |-> list'])

Bad == {"rotate0", "rotateHi", "angle", "deleteHi", "deleteAll", "insertHi", "insertUsed"}
GEdit(IS, SS, AS, RS, BS) ==
         \/ \E i \in IS, a \in AS : Rotate(i, a) /\ Rec("rotate", i, a, {})
         \/ \E a \in AS : RotateAll(a) /\ Rec("rotateAll", 0, a, {})
         \/ \E S \in SS : Delete(S) /\ Rec("delete", 0, 0, S)
         \/ \E i \in IS, r \in RS : Insert(i, r) /\ Rec("insert", i, r, {})
         \/ \E b \in BS : Refused /\ Rec(b, 0, 0, {})
GNext == \/ Grow \/ GStart
         \/ GEdit(1..(Len(list) + 1), {S \in SUBSET (1..Len(list)) : Cardinality(S) <= 2}, {90, 180}, {0, 90}, {"rotateHi", "deleteAll"})
GSpec == GInit /\ [][GNext]_gvars

SGrow == LET n == RandomElement({m \in Inner \cup {Root} : InUse(m)})
             r == RandomElement(Rots \cup {NoRot})
         IN IF RandomElement(1..3) = 1 /\ ni < MaxInner THEN GrowInner(n, r) ELSE GrowLeaf(n, r)
SNext == IF phase = "grow"
         THEN IF nl = MaxLeaves \/ (nl > 1 /\ RandomElement(1..8) = 1) THEN GStart
              ELSE SGrow /\ UNCHANGED <<log, tree>>
         ELSE LET c == RandomElement(1..7) IN
              CASE c = 1 \/ c = 2 -> \E i \in {RandomElement(1..Len(list))}, a \in {RandomElement(Angles)} : Rotate(i, a) /\ Rec("rotate", i, a, {})
                [] c = 3 -> \E a \in {RandomElement(Angles)} : RotateAll(a) /\ Rec("rotateAll", 0, a, {})
                [] (c = 4 \/ c = 5) /\ Len(list) > 1 ->
                     \E S \in {{i \in 1..Len(list) : RandomElement(1..4) = 1} \cup {RandomElement(1..Len(list))}} :
                       IF Cardinality(S) < Len(list) THEN Delete(S) /\ Rec("delete", 0, 0, S)
                       ELSE Refused /\ Rec("deleteAll", 0, 0, {})
                [] c = 6 -> \E b \in {RandomElement(Bad)} : Refused /\ Rec(b, 0, 0, {})
                [] OTHER -> \E i \in {RandomElement(1..(Len(list) + 1))}, r \in {RandomElement({0, 90, 180, 270})} : Insert(i, r) /\ Rec("insert", i, r, {})
SSpec == GInit /\ [][SNext]_gvars
Emit == (phase = "edit" /\ edits = MaxEdits) => PrintT("TRACE " \o ToJson([tree |-> tree, log |-> log]))
=============================================================================
