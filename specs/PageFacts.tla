------------------------------ MODULE PageFacts ------------------------------
(* What documents say of their pages: a tree of page groups and pages, each *)
(* with attributes of its own, some of which hold for everything below; the *)
(* notes on pages; and the resources that pages use, over the document.     *)
(* A reader walks the tree once and carries along what holds; what it finds *)
(* must be what the nearest node with an own value says.                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Inh,        \* attributes that hold for all below
          Own,        \* attributes that hold for a page only
          Vals,       \* their values, 0 is none
          Tables,     \* what resource values may hold: value -> <<[cat, name, obj]>>
          Kinds,      \* kinds of notes
          Silent,     \* those that are none: missing, null, not dictionaries
          MaxNodes, MaxSets, MaxNotes

Attrs == Inh \cup Own
Root == 0
NoVals == [a \in Attrs |-> 0]

VARIABLES kids,       \* group -> its kids in order
          parent,     \* node -> its group
          own,        \* node -> attribute -> value
          notes,      \* page -> kinds of its notes
          sets,       \* attributes set so far
          res,        \* resource value -> what it holds
          walk        \* the reader
vars == <<kids, parent, own, notes, sets, res, walk>>

SmallTables == {(1 :> <<[cat |-> "image", name |-> "Im1", obj |-> 1], [cat |-> "font", name |-> "F1", obj |-> 2]>>)
             @@ (2 :> <<[cat |-> "font", name |-> "F1", obj |-> 3], [cat |-> "image", name |-> "Im1", obj |-> 1], [cat |-> "image", name |-> "Im2", obj |-> 4]>>)}

Idle == [st |-> "idle", stack |-> <<>>, out |-> <<>>]

Init ==
  /\ kids = (Root :> <<>>)
  /\ parent = <<>>
  /\ own = (Root :> NoVals)
  /\ notes = <<>>
  /\ sets = 0
  /\ res \in Tables
  /\ walk = Idle

Nodes == DOMAIN own
Groups == DOMAIN kids
PagesOf == Nodes \ Groups

InsertAt(s, at, x) == SubSeq(s, 1, at - 1) \o <<x>> \o SubSeq(s, at, Len(s))

Add(p, at, group) ==
  LET n == Cardinality(Nodes) IN
  /\ walk.st # "run" /\ n <= MaxNodes
  /\ kids' = IF group THEN n :> <<>> @@ [kids EXCEPT ![p] = InsertAt(@, at, n)] ELSE [kids EXCEPT ![p] = InsertAt(@, at, n)]
  /\ parent' = n :> p @@ parent
  /\ own' = n :> NoVals @@ own
  /\ notes' = IF group THEN notes ELSE n :> <<>> @@ notes
  /\ walk' = Idle
  /\ UNCHANGED <<sets, res>>

Assign(n, a, v) ==
  /\ walk.st # "run" /\ sets < MaxSets /\ own[n][a] # v
  /\ own' = [own EXCEPT ![n][a] = v]
  /\ sets' = sets + 1
  /\ walk' = Idle
  /\ UNCHANGED <<kids, parent, notes, res>>

Note(n, k) ==
  /\ walk.st # "run" /\ Len(notes[n]) < MaxNotes
  /\ notes' = [notes EXCEPT ![n] = Append(@, k)]
  /\ walk' = Idle
  /\ UNCHANGED <<kids, parent, own, sets, res>>

Edit ==
  \/ \E p \in Groups, g \in BOOLEAN : \E at \in 1..(Len(kids[p]) + 1) : Add(p, at, g)
  \/ \E n \in Nodes, a \in Attrs, v \in Vals \cup {0} : Assign(n, a, v)
  \/ \E n \in DOMAIN notes, k \in Kinds : Note(n, k)

----------------------------------------------------------------------------
(* the reader *)
Over(env, o) == [a \in Inh |-> IF o[a] # 0 THEN o[a] ELSE env[a]]
Says(k) == k \notin Silent
Facts(n, env) == [id |-> n, has |-> [a \in Attrs |-> IF a \in Inh THEN Over(env, own[n])[a] ELSE own[n][a]],
                  notes |-> SelectSeq(notes[n], Says)]

Start ==
  /\ walk.st = "idle"
  /\ walk' = [st |-> "run", stack |-> <<[n |-> Root, i |-> 1, env |-> Over(NoVals, own[Root])]>>, out |-> <<>>]
  /\ UNCHANGED <<kids, parent, own, notes, sets, res>>

Step ==
  /\ walk.st = "run" /\ walk.stack # <<>>
  /\ LET d == Len(walk.stack)
         top == walk.stack[d]
     IN IF top.i > Len(kids[top.n]) THEN walk' = [walk EXCEPT !.stack = SubSeq(@, 1, d - 1)]
        ELSE LET k == kids[top.n][top.i]
                 on == [walk.stack EXCEPT ![d].i = @ + 1]
             IN IF k \in Groups THEN walk' = [walk EXCEPT !.stack = Append(on, [n |-> k, i |-> 1, env |-> Over(top.env, own[k])])]
                ELSE walk' = [walk EXCEPT !.stack = on, !.out = Append(@, Facts(k, top.env))]
  /\ UNCHANGED <<kids, parent, own, notes, sets, res>>

Finish ==
  /\ walk.st = "run" /\ walk.stack = <<>>
  /\ walk' = [walk EXCEPT !.st = "done"]
  /\ UNCHANGED <<kids, parent, own, notes, sets, res>>

Next == Edit \/ Start \/ Step \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Step \/ Finish)

----------------------------------------------------------------------------
(* what is so, whoever reads it *)
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>>
           ELSE (IF Head(s) \in Groups THEN Flat(kids[Head(s)]) ELSE <<Head(s)>>) \o Flat(Tail(s))
PageOrder == Flat(kids[Root])

RECURSIVE Nearest(_, _)
Nearest(n, a) == IF own[n][a] # 0 \/ n = Root THEN own[n][a] ELSE Nearest(parent[n], a)

Has(n, a) == IF a \in Inh THEN Nearest(n, a) ELSE own[n][a]
Reading == [i \in 1..Len(PageOrder) |->
              [id |-> PageOrder[i], has |-> [a \in Attrs |-> Has(PageOrder[i], a)], notes |-> SelectSeq(notes[PageOrder[i]], Says)]]

(* the resources of a kind over all pages, each once, where it first comes *)
ResOf(n) == IF Has(n, "Resources") = 0 THEN <<>> ELSE res[Has(n, "Resources")]
RECURSIVE Uses(_)
Uses(s) == IF s = <<>> THEN <<>> ELSE ResOf(Head(s)) \o Uses(Tail(s))
RECURSIVE Once(_, _)
Once(s, seen) == IF s = <<>> THEN <<>>
                 ELSE IF Head(s) \in seen THEN Once(Tail(s), seen) ELSE <<Head(s)>> \o Once(Tail(s), seen \cup {Head(s)})
AllUsed == Once(Uses(PageOrder), {})

Walked == walk.st = "done" => walk.out = Reading
SoFar == walk.st = "run" => walk.out = SubSeq(Reading, 1, Len(walk.out))
Carried == \A d \in 1..Len(walk.stack) : \A a \in Inh : walk.stack[d].env[a] = Nearest(walk.stack[d].n, a)
UsedOnce == /\ \A i, j \in 1..Len(AllUsed) : AllUsed[i] = AllUsed[j] => i = j
            /\ {AllUsed[i] : i \in 1..Len(AllUsed)} = UNION {{ResOf(n)[i] : i \in 1..Len(ResOf(n))} : n \in PagesOf}
(* setting an attribute matters to the pages below that do not say otherwise *)
RECURSIVE Below(_, _, _)
Below(n, g, a) == n = g \/ (n # Root /\ own[n][a] = 0 /\ Below(parent[n], g, a))
Local == [][\A n \in Nodes, a \in Attrs :
              (Nodes' = Nodes /\ own'[n][a] # own[n][a]) =>
                \A p \in PagesOf : (Has(p, a))' # Has(p, a) => IF a \in Inh THEN Below(p, n, a) ELSE p = n]_vars
Ends == walk.st = "run" ~> walk.st = "done"
=============================================================================
