------------------------------ MODULE PageTree ------------------------------
(***************************************************************************)
(* Page edits on a page tree refine edits on a list of pages.              *)
(*                                                                         *)
(* Low level: a tree of Pages nodes with ordered kids, a stored /Count and *)
(* an optional own /Rotate at every node (inherited downwards).            *)
(* High level: a list of pages, each with the rotation in force.           *)
(* A document grows to some shape first ("grow"), then is edited.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS MaxLeaves,   \* pages of the initial document
          MaxInner,    \* Pages nodes besides the root
          MaxEdits,    \* edits applied to it
          Rots         \* own /Rotate values nodes start with; 1 (NoRot) is "none"

Root     == 100
Leaves   == 1..(MaxLeaves + MaxEdits)
Inner    == (Root + 1)..(Root + MaxInner)
Nodes    == Leaves \cup Inner \cup {Root}
NoRot    == 1
Angles   == {90, 180, 270}

VARIABLES kids,    \* Pages node -> Seq of nodes
          count,   \* Pages node -> stored /Count
          rot,     \* node -> own /Rotate, NoRot if none
          nl, ni,  \* leaves and inner nodes made so far
          phase, edits,
          list     \* the abstract document: Seq of [id, rot]

vars == <<kids, count, rot, nl, ni, phase, edits, list>>

RECURSIVE Flat(_, _, _, _)
(* leaves below node n in order, with the rotation in force; r is inherited *)
Flat(k, ro, n, r) ==
  LET own == IF ro[n] # NoRot THEN ro[n] ELSE r IN
  IF n < Root THEN <<[id |-> n, rot |-> own]>>
  ELSE LET RECURSIVE F(_)
           F(i) == IF i > Len(k[n]) THEN <<>> ELSE Flat(k, ro, k[n][i], own) \o F(i + 1)
       IN F(1)
Doc(k, ro) == Flat(k, ro, Root, 0)
Below(k, n) == Len(Flat(k, [x \in Nodes |-> 0], n, 0))

Init == /\ kids = [n \in Inner \cup {Root} |-> <<>>]
        /\ count = [n \in Inner \cup {Root} |-> 0]
        /\ \E r \in Rots : rot = [n \in Nodes |-> IF n = Root THEN r ELSE NoRot]
        /\ nl = 0 /\ ni = 0 /\ phase = "grow" /\ edits = 0 /\ list = <<>>

InUse(n) == n = Root \/ (n \in Inner /\ n <= Root + ni)

GrowLeaf(n, r) ==
  /\ phase = "grow" /\ nl < MaxLeaves /\ InUse(n)
  /\ nl' = nl + 1
  /\ kids' = [kids EXCEPT ![n] = Append(@, nl + 1)]
  /\ rot' = [rot EXCEPT ![nl + 1] = r]
  /\ UNCHANGED <<count, ni, phase, edits, list>>

GrowInner(n, r) ==     \* a Pages node is never left empty
  /\ phase = "grow" /\ nl < MaxLeaves /\ ni < MaxInner /\ InUse(n)
  /\ ni' = ni + 1 /\ nl' = nl + 1
  /\ kids' = [kids EXCEPT ![n] = Append(@, Root + ni + 1), ![Root + ni + 1] = <<nl + 1>>]
  /\ rot' = [rot EXCEPT ![Root + ni + 1] = r]
  /\ UNCHANGED <<count, phase, edits, list>>

Start == /\ phase = "grow" /\ nl > 0 /\ phase' = "edit"
         /\ count' = [n \in DOMAIN count |-> Below(kids, n)]
         /\ list' = Doc(kids, rot)
         /\ UNCHANGED <<kids, rot, nl, ni, edits>>

Edit == phase = "edit" /\ edits < MaxEdits /\ edits' = edits + 1 /\ phase' = phase

Turn(r, a) == (r + a) % 360

Rotate(i, a) ==
  /\ Edit /\ i \in 1..Len(list)
  /\ list' = [list EXCEPT ![i].rot = Turn(@, a)]
  /\ rot' = [rot EXCEPT ![list[i].id] = Turn(list[i].rot, a)]
  /\ UNCHANGED <<kids, count, nl, ni>>

RotateAll(a) ==
  /\ Edit
  /\ list' = [i \in DOMAIN list |-> [list[i] EXCEPT !.rot = Turn(@, a)]]
  /\ rot' = [n \in Nodes |-> IF \E i \in DOMAIN list : list[i].id = n
                             THEN Turn((CHOOSE x \in {list[i] : i \in DOMAIN list} : x.id = n).rot, a)
                             ELSE rot[n]]
  /\ UNCHANGED <<kids, count, nl, ni>>

Without(s, x) == SelectSeq(s, LAMBDA y : y # x)
ParentOf(k, x) == CHOOSE n \in DOMAIN k : \E i \in DOMAIN k[n] : k[n][i] = x

RECURSIVE Prune(_, _)
Prune(k, x) ==       \* take x out; a parent left empty goes too
  LET p  == ParentOf(k, x)
      k1 == [k EXCEPT ![p] = Without(@, x)]
  IN IF k1[p] = <<>> /\ p # Root THEN Prune(k1, p) ELSE k1
RECURSIVE PruneAll(_, _)
PruneAll(k, S) == IF S = {} THEN k
                  ELSE LET x == CHOOSE x \in S : \A y \in S : x <= y IN PruneAll(Prune(k, x), S \ {x})
Recount(k) == [n \in DOMAIN count |-> Below(k, n)]

DropAt(s, S) == LET RECURSIVE F(_)
                    F(i) == IF i > Len(s) THEN <<>>
                            ELSE (IF i \in S THEN <<>> ELSE <<s[i]>>) \o F(i + 1)
                IN F(1)

Delete(S) ==         \* S: positions
  /\ Edit /\ S # {} /\ S \subseteq 1..Len(list) /\ Cardinality(S) < Len(list)
  /\ kids' = PruneAll(kids, {list[i].id : i \in S})
  /\ count' = Recount(kids')
  /\ list' = DropAt(list, S)
  /\ UNCHANGED <<rot, nl, ni>>

InsertAt(s, i, x) == SubSeq(s, 1, i - 1) \o <<x>> \o SubSeq(s, i, Len(s))

(* A new page with its own rotation r becomes page i. In front of a page it *)
(* goes into that page's parent, at the end into the root.                  *)
Insert(i, r) ==
  /\ Edit /\ i \in 1..(Len(list) + 1) /\ nl < MaxLeaves + MaxEdits
  /\ nl' = nl + 1
  /\ LET new == nl + 1
         p   == IF i <= Len(list) THEN ParentOf(kids, list[i].id) ELSE Root
         at  == IF i <= Len(list) THEN CHOOSE j \in DOMAIN kids[p] : kids[p][j] = list[i].id
                ELSE Len(kids[p]) + 1
     IN /\ kids' = [kids EXCEPT ![p] = InsertAt(@, at, new)]
        /\ rot' = [rot EXCEPT ![new] = r]
        /\ list' = InsertAt(list, i, [id |-> new, rot |-> r])
  /\ count' = Recount(kids')
  /\ UNCHANGED <<ni>>

(* An edit that names no page, or would leave none, changes nothing.       *)
Refused == Edit /\ UNCHANGED <<kids, count, rot, nl, ni, list>>

Next == \/ \E n \in Inner \cup {Root}, r \in Rots : GrowLeaf(n, r) \/ GrowInner(n, r)
        \/ Start
        \/ \E i \in 1..(MaxLeaves + MaxEdits), a \in Angles : Rotate(i, a)
        \/ \E a \in Angles : RotateAll(a)
        \/ \E S \in SUBSET (1..Len(list)) : Delete(S)
        \/ \E i \in 1..(MaxLeaves + MaxEdits + 1), r \in {0, 90} : Insert(i, r)
        \/ Refused
        \/ (phase = "edit" /\ edits = MaxEdits /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Refines == phase = "edit" => Doc(kids, rot) = list
CountOK == phase = "edit" => \A n \in DOMAIN count : count[n] = Below(kids, n)
Reachable(k) == LET RECURSIVE R(_)
                    R(n) == {n} \cup (IF n < Root THEN {} ELSE UNION {R(k[n][i]) : i \in DOMAIN k[n]})
                IN R(Root)
TreeOK == \A n \in Reachable(kids) : n >= Root /\ n # Root => kids[n] # <<>>
OnceEach == \A i, j \in DOMAIN list : i # j => list[i].id # list[j].id
NeverEmpty == phase = "edit" => Len(list) > 0
=============================================================================
