---------------------------- MODULE GenPageFacts ----------------------------
(* Documents for replay: every small tree with few attributes, and random  *)
(* big ones.                                                                *)
EXTENDS PageFacts, Json

VARIABLE goal        \* how long a random run is
gvars == <<vars, goal>>

Trace == [nodes |-> [i \in 1..Cardinality(Nodes) |->
                       [id |-> i - 1, group |-> (i - 1) \in Groups, kids |-> IF (i - 1) \in Groups THEN kids[i - 1] ELSE <<>>,
                        own |-> own[i - 1], notes |-> IF (i - 1) \in PagesOf THEN notes[i - 1] ELSE <<>>]],
          res |-> res, read |-> Reading, used |-> AllUsed]

BInit == Init /\ goal = 0
BNext == Edit /\ UNCHANGED goal
BSpec == BInit /\ [][BNext]_gvars
BEmit == PagesOf # {} => PrintT("TRACE " \o ToJson(Trace))

Names == {"F1", "F2", "Im1", "Im2", "A B"}
Pick(S) == {RandomElement(S)}
RECURSIVE Entries(_, _)
Entries(k, names) ==
  IF k = 0 \/ names = {} THEN <<>>
  ELSE LET n == TLCEval(RandomElement(names))
           c == TLCEval(RandomElement({"font", "image", "form", "image"}))
           o == TLCEval(RandomElement(1..4))
       IN <<[cat |-> c, name |-> n, obj |-> o + 4 * (CASE c = "font" -> 0 [] c = "image" -> 1 [] OTHER -> 2)]>> \o Entries(k - 1, names \ {n})
SInit == Init /\ goal \in 6..(MaxNodes + MaxSets * 2)
SNext ==
  /\ TLCGet("level") <= goal
  /\ UNCHANGED goal
  /\ IF TLCGet("level") = 1 THEN
       /\ res' = [v \in Vals |-> Entries(TLCEval(RandomElement(0..(4 + 0 * goal))), Names)]
       /\ UNCHANGED <<kids, parent, own, notes, sets, walk>>
     ELSE \E c \in Pick(1..20) :
       IF PagesOf = {} \/ (c <= 5 /\ Cardinality(Nodes) <= MaxNodes) THEN
         \E p \in Pick(Groups), g \in Pick({TRUE, FALSE, FALSE}) : \E at \in Pick(1..(Len(kids[p]) + 1)) : Add(p, at, g)
       ELSE IF c <= 9 /\ \E n \in DOMAIN notes : Len(notes[n]) < MaxNotes THEN
         \E n \in Pick({m \in DOMAIN notes : Len(notes[m]) < MaxNotes}), k \in Pick(Kinds) : Note(n, k)
       ELSE \E n \in Pick(Nodes), a \in Pick(Attrs) : \E v \in Pick((Vals \cup {0}) \ {own[n][a]}) : Assign(n, a, v)
SSpec == SInit /\ [][SNext]_gvars
SEmit == (TLCGet("level") = goal + 1 /\ PagesOf # {}) => PrintT("TRACE " \o ToJson(Trace))
=============================================================================
