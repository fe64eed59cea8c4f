------------------------------ MODULE Outlines ------------------------------
(***************************************************************************)
(* Document outlines (ISO 32000-1 12.3.3).  What a user has is an ordered  *)
(* tree of items, open or closed.  What a document has is a heap of linked *)
(* dictionaries: First, Last, Next, Prev, Parent and Count, which editors  *)
(* keep up to date by local changes.  The machine edits both; invariant    *)
(* Linked says that the heap always represents the tree.                   *)
(*                                                                         *)
(* Read is the extraction: a walk over First and Next that never visits an *)
(* item twice.  On a sound heap it gives the tree (Faithful); on a heap    *)
(* with damaged links it still ends, with every item at most once (Finite).*)
(*                                                                         *)
(* The same machine saves documents: an application sets the bookmarks it  *)
(* has, its catalog and its root in any order and writes the file when it  *)
(* likes; each file holds the newest of each (Saved).                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS MaxItems, MaxEdits, MaxDamage, MaxSaves

Root == 0
None == -1

VARIABLES kids,     \* the tree: item -> sequence of children
          open,     \* item -> open?
          heap,     \* item -> [up, first, last, prev, next, count]
          damage,   \* links overwritten
          edits,    \* number of edits
          app,      \* [cat, marks, root]: what the application has given the writer
          files     \* what it has written
vars == <<kids, open, heap, damage, edits, app, files>>

Items == DOMAIN kids \ {Root}
Blank == [up |-> None, first |-> None, last |-> None, prev |-> None, next |-> None, count |-> 0]
NoMarks == <<>>

Init == /\ kids = (Root :> <<>>) /\ open = (Root :> TRUE)
        /\ heap = (Root :> Blank) /\ damage = <<>> /\ edits = 0
        /\ app = [cat |-> 0, marks |-> NoMarks, root |-> FALSE] /\ files = <<>>

-----------------------------------------------------------------------------
(* The meaning of the tree *)
RECURSIVE Up(_, _)
ParentOf(n) == CHOOSE p \in DOMAIN kids : \E i \in DOMAIN kids[p] : kids[p][i] = n
Up(a, n) == n # Root /\ LET p == ParentOf(n) IN p = a \/ Up(a, p)
RECURSIVE Visible(_), SumVis(_, _)
SumVis(s, i) == IF i > Len(s) THEN 0
                ELSE 1 + (IF open[s[i]] THEN Visible(s[i]) ELSE 0) + SumVis(s, i + 1)
Visible(n) == SumVis(kids[n], 1)       \* items shown below n when n is open
RECURSIVE Forest(_), ForestSeq(_)
Forest(n) == [id |-> n, kids |-> ForestSeq(kids[n])]
ForestSeq(s) == [i \in DOMAIN s |-> Forest(s[i])]

Linked ==
  damage = <<>> =>
  \A p \in DOMAIN kids :
    LET s == kids[p] IN
    /\ heap[p].first = (IF s = <<>> THEN None ELSE s[1])
    /\ heap[p].last = (IF s = <<>> THEN None ELSE s[Len(s)])
    /\ heap[p].count = (IF open[p] THEN Visible(p) ELSE -Visible(p))
    /\ \A i \in DOMAIN s :
         /\ heap[s[i]].up = p
         /\ heap[s[i]].prev = (IF i = 1 THEN None ELSE s[i - 1])
         /\ heap[s[i]].next = (IF i = Len(s) THEN None ELSE s[i + 1])

-----------------------------------------------------------------------------
(* Extraction *)
RECURSIVE Walk(_, _, _)
Walk(h, n, seen) ==           \* the item n, its descendants and its later siblings
  IF n = None \/ n \in seen THEN [out |-> <<>>, seen |-> seen]
  ELSE LET below == Walk(h, h[n].first, seen \cup {n})
           after == Walk(h, h[n].next, below.seen)
       IN [out |-> <<[id |-> n, kids |-> below.out]>> \o after.out, seen |-> after.seen]
Read(h) == Walk(h, h[Root].first, {}).out
Faithful == damage = <<>> => Read(heap) = ForestSeq(kids[Root])
RECURSIVE Times(_, _)
Times(x, s) == IF s = <<>> THEN 0
               ELSE (IF Head(s).id = x THEN 1 ELSE 0) + Times(x, Head(s).kids) + Times(x, Tail(s))
Finite == \A x \in DOMAIN heap : Times(x, Read(heap)) <= 1

-----------------------------------------------------------------------------
(* Edits *)
RECURSIVE Adjust(_, _, _, _)
Adjust(h, op, n, by) ==       \* by more visible items below n
  IF n = None THEN h
  ELSE IF op[n] THEN Adjust([h EXCEPT ![n].count = @ + by], op, h[n].up, by)
  ELSE [h EXCEPT ![n].count = @ - by]

Edit == damage = <<>> /\ edits < MaxEdits /\ edits' = edits + 1 /\ UNCHANGED <<damage, app, files>>
LinkIn(h, x, p, before, after) ==
  LET h1 == (x :> [Blank EXCEPT !.up = p, !.prev = before, !.next = after]) @@ h
      h2 == IF before = None THEN [h1 EXCEPT ![p].first = x] ELSE [h1 EXCEPT ![before].next = x]
  IN IF after = None THEN [h2 EXCEPT ![p].last = x] ELSE [h2 EXCEPT ![after].prev = x]
Insert(p, at) ==               \* a new item becomes the at-th child of p
  LET x == Cardinality(DOMAIN heap)
      s == kids[p] IN
  /\ Edit /\ x <= MaxItems
  /\ kids' = (x :> <<>>) @@ [kids EXCEPT ![p] = SubSeq(s, 1, at - 1) \o <<x>> \o SubSeq(s, at, Len(s))]
  /\ open' = (x :> TRUE) @@ open
  /\ heap' = Adjust(LinkIn(heap, x, p, IF at = 1 THEN None ELSE s[at - 1], IF at > Len(s) THEN None ELSE s[at]), open, p, 1)
Toggle(n) ==                   \* an item with children opens or closes
  /\ Edit /\ n # Root /\ kids[n] # <<>>
  /\ open' = [open EXCEPT ![n] = ~@]
  /\ LET v == Visible(n) IN
     heap' = Adjust([heap EXCEPT ![n].count = -@], open, heap[n].up, IF open[n] THEN -v ELSE v)
  /\ UNCHANGED kids
Shown(n) == 1 + (IF open[n] THEN Visible(n) ELSE 0)
Move(n, p) ==                  \* a subtree becomes the last child of p
  /\ Edit /\ n # Root /\ p # n /\ ~Up(n, p)
  /\ LET from == heap[n].up
         b == heap[n].prev
         a == heap[n].next
         c == IF p = from /\ heap[p].last = n THEN b ELSE heap[p].last
         h1 == IF b = None THEN [heap EXCEPT ![from].first = a] ELSE [heap EXCEPT ![b].next = a]
         h2 == IF a = None THEN [h1 EXCEPT ![from].last = b] ELSE [h1 EXCEPT ![a].prev = b]
         h3 == Adjust(h2, open, from, -Shown(n))
         h4 == [h3 EXCEPT ![n].up = p, ![n].prev = c, ![n].next = None, ![p].last = n]
         h5 == IF c = None THEN [h4 EXCEPT ![p].first = n] ELSE [h4 EXCEPT ![c].next = n]
     IN heap' = Adjust(h5, open, p, Shown(n))
  /\ kids' = LET k == [kids EXCEPT ![heap[n].up] = SelectSeq(@, LAMBDA y : y # n)]
             IN [k EXCEPT ![p] = Append(@, n)]
  /\ UNCHANGED open
Drop(n) ==                     \* a leaf goes (its number is not used again)
  /\ Edit /\ n # Root /\ kids[n] = <<>>
  /\ LET from == heap[n].up
         b == heap[n].prev
         a == heap[n].next
         h1 == IF b = None THEN [heap EXCEPT ![from].first = a] ELSE [heap EXCEPT ![b].next = a]
         h2 == IF a = None THEN [h1 EXCEPT ![from].last = b] ELSE [h1 EXCEPT ![a].prev = b]
     IN heap' = [Adjust(h2, open, from, -1) EXCEPT ![n] = Blank]
  /\ kids' = [x \in DOMAIN kids \ {n} |-> SelectSeq(kids[x], LAMBDA y : y # n)]
  /\ open' = [x \in DOMAIN kids \ {n} |-> open[x]]

Damage(n, f, to) ==
  /\ Len(damage) < MaxDamage /\ heap[n][f] # to
  /\ heap' = [heap EXCEPT ![n][f] = to]
  /\ damage' = Append(damage, <<n, f, to>>)
  /\ UNCHANGED <<kids, open, edits, app, files>>

-----------------------------------------------------------------------------
(* Saving *)
App(a) == app' = a /\ UNCHANGED <<kids, open, heap, damage, edits, files>>
SetMarks == damage = <<>> /\ kids[Root] # <<>> /\ App([app EXCEPT !.marks = ForestSeq(kids[Root])])
SetCatalog == App([app EXCEPT !.cat = @ + 1])
SetRoot == ~app.root /\ App([app EXCEPT !.root = TRUE])
Save == /\ app.root /\ app.cat > 0 /\ Len(files) < MaxSaves
        /\ files' = Append(files, [cat |-> app.cat, marks |-> app.marks])
        /\ UNCHANGED <<kids, open, heap, damage, edits, app>>
Saved == \A i \in DOMAIN files :
           /\ files[i].cat > 0
           /\ i < Len(files) => files[i].cat <= files[i + 1].cat
           /\ i < Len(files) /\ files[i].marks # NoMarks => files[i + 1].marks # NoMarks

Next == \/ \E p \in DOMAIN kids : \E at \in 1..(Len(kids[p]) + 1) : Insert(p, at)
        \/ \E n \in Items : Toggle(n) \/ Drop(n) \/ \E p \in DOMAIN kids : Move(n, p)
        \/ \E n \in DOMAIN heap, f \in {"first", "last", "prev", "next", "up"}, to \in DOMAIN heap : Damage(n, f, to)
        \/ MaxSaves > 0 /\ (SetMarks \/ (app.cat < MaxSaves /\ SetCatalog) \/ SetRoot \/ Save)
Spec == Init /\ [][Next]_vars
=============================================================================
