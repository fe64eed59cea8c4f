------------------------------ MODULE Compare ------------------------------
(***************************************************************************)
(* Comparing documents. A document has pages with elements (texts, shapes, *)
(* images, notes) at places, data about itself, bookmarks and form values. *)
(* Two documents say the same under given options if, page by page and     *)
(* kind by kind, they have equally many elements of every class, and the   *)
(* same everything else (Same). A comparer matches elements of one class,  *)
(* in any order, then may pair what is left over as changes; the rest is   *)
(* removed or added. Whatever it does, its old side is what the first has  *)
(* more of, and its new side what the second has more of (Exact), so the   *)
(* report is empty just if both say the same (Complete), applying it to    *)
(* the first gives the second (Patch), and it can be told backwards.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Kinds, NW, NP, NS, NJ, Cases,  \* elements: words, places, looks, jitter, letter cases
          MaxPages, MaxEls, MaxEdits, MaxMarks, NMeta, NFields, NVals, Options

VARIABLES a, b,      \* the documents
          o,         \* options of the comparison
          pc,        \* "make", "edit", "match", "pair", "done"
          left, right, pairs, \* unmatched elements <<page, index>>; pairs of them
          edits
vars == <<a, b, o, pc, left, right, pairs, edits>>

El(k, w, v, c, s, at, st, j) == [k |-> k, w |-> w, v |-> v, c |-> c, s |-> s, at |-> at, st |-> st, j |-> j]
Els(k) ==
  CASE k = "text"  -> {El(k, w, v, c, s, at, st, j) : w \in 1..NW, v \in 1..2, c \in Cases, s \in Cases, at \in 1..NP, st \in 1..NS, j \in 0..NJ}
    [] k = "shape" -> {El(k, w, v, 0, 0, at, st, j) : w \in 1..NW, v \in 1..2, at \in 1..NP, st \in 1..NS, j \in 0..NJ}
    [] k = "image" -> {El(k, w, v, 0, 0, at, 0, j) : w \in 1..NW, v \in 1..2, at \in 1..NP, j \in 0..NJ}
    [] k = "note"  -> {El(k, w, v, 0, 0, at, st, 0) : w \in 1..NW, v \in 1..2, at \in 1..NP, st \in 1..NS}
Els0 == UNION {Els(k) : k \in Kinds}
Page0 == [size |-> 1, rot |-> 0, els |-> <<>>]
Doc0 == [pages |-> <<Page0>>, meta |-> [i \in 1..NMeta |-> 0], marks |-> <<>>, fields |-> [i \in 1..NFields |-> 0]]

-----------------------------------------------------------------------------
\* What counts, under options
Tol(k, oo) == IF k = "text" THEN oo.ttol ELSE IF k = "note" THEN 1 ELSE oo.gtol
Class(e, oo) == [e EXCEPT !.c = IF oo.case THEN 0 ELSE e.c, !.s = IF oo.space THEN 0 ELSE e.s,
                          !.j = IF Tol(e.k, oo) > 0 THEN 0 ELSE e.j,
                          !.st = IF e.k = "text" /\ oo.gran # "element" THEN 0 ELSE e.st]
RECURSIVE Num(_, _, _)
Num(els, c, oo) == IF els = <<>> THEN 0 ELSE Num(Tail(els), c, oo) + (IF Class(Head(els), oo) = c THEN 1 ELSE 0)
Classes(els, oo) == {Class(els[i], oo) : i \in DOMAIN els}
\* what x has more of than y
More(x, y, oo) == {<<c, n>> \in {<<c, Num(x, c, oo) - Num(y, c, oo)>> : c \in Classes(x, oo)} : n > 0}
Min2(m, n) == IF m < n THEN m ELSE n
Common(x, y) == 1..Min2(Len(x.pages), Len(y.pages))
\* kinds of data about the document: 1 title, 2 producer, 3 date, 4 encryption, others
Seen(i, oo) == oo.meta = "all" \/ (oo.meta = "default" /\ i \notin {2, 3})
\* how a document is encrypted does not count, only whether
Says(d, i) == IF i = 4 THEN Min2(d.meta[i], 1) ELSE d.meta[i]
MetaDiff(x, y, oo) == {i \in 1..NMeta : Seen(i, oo) /\ Says(x, i) # Says(y, i)}
SamePages(x, y, oo) ==
  /\ Len(x.pages) = Len(y.pages)
  /\ \A p \in DOMAIN x.pages :
       /\ x.pages[p].size = y.pages[p].size /\ x.pages[p].rot = y.pages[p].rot
       /\ \A c \in Classes(x.pages[p].els, oo) \cup Classes(y.pages[p].els, oo) : Num(x.pages[p].els, c, oo) = Num(y.pages[p].els, c, oo)
Same(x, y, oo) == SamePages(x, y, oo) /\ MetaDiff(x, y, oo) = {} /\ x.marks = y.marks /\ x.fields = y.fields

-----------------------------------------------------------------------------
\* Making and editing documents; pages of d become ps
With(d, ps) == [d EXCEPT !.pages = ps]
InsertAt(seq, i, x) == SubSeq(seq, 1, i - 1) \o <<x>> \o SubSeq(seq, i, Len(seq))
RemoveAt(seq, i) == SubSeq(seq, 1, i - 1) \o SubSeq(seq, i + 1, Len(seq))
Put(d, p, i, e) == [d EXCEPT !.pages[p].els = InsertAt(@, i, e)]
Drop(d, p, i) == [d EXCEPT !.pages[p].els = RemoveAt(@, i)]
Alter(d, p, i, e) == [d EXCEPT !.pages[p].els[i] = e]
Swap(d, p, i, j) == [d EXCEPT !.pages[p].els[i] = d.pages[p].els[j], !.pages[p].els[j] = d.pages[p].els[i]]
PutPage(d, p, x) == With(d, InsertAt(d.pages, p, x))
DropPage(d, p) == With(d, RemoveAt(d.pages, p))
Mark(t, to, deep) == [t |-> t, to |-> to, deep |-> deep]
MarksOK(ms) == \A i \in DOMAIN ms : ms[i].deep <= (IF i = 1 THEN 0 ELSE ms[i - 1].deep + 1)
\* results of one edit
Results(d) ==
  {Put(d, p, i, e) : p \in {q \in DOMAIN d.pages : Len(d.pages[q].els) < MaxEls}, i \in {1}, e \in Els0}
  \cup UNION {{Drop(d, p, i) : i \in DOMAIN d.pages[p].els} : p \in DOMAIN d.pages}
  \cup UNION {{Swap(d, p, i, j) : i, j \in DOMAIN d.pages[p].els} : p \in DOMAIN d.pages}
  \cup UNION {{Alter(d, p, i, [d.pages[p].els[i] EXCEPT !.at = at]) : i \in DOMAIN d.pages[p].els, at \in 1..NP} : p \in DOMAIN d.pages}
  \cup {[d EXCEPT !.pages[p].size = s] : p \in DOMAIN d.pages, s \in 1..2}
  \cup {[d EXCEPT !.pages[p].rot = s] : p \in DOMAIN d.pages, s \in 0..1}
  \cup (IF Len(d.pages) < MaxPages THEN {PutPage(d, p, Page0) : p \in 1..Len(d.pages) + 1} ELSE {})
  \cup (IF Len(d.pages) > 1 THEN {DropPage(d, p) : p \in DOMAIN d.pages} ELSE {})
  \cup {[d EXCEPT !.meta[i] = v] : i \in 1..NMeta, v \in 0..NVals}
  \cup {[d EXCEPT !.fields[i] = v] : i \in 1..NFields, v \in 0..NVals}
  \cup (IF Len(d.marks) < MaxMarks THEN {[d EXCEPT !.marks = Append(@, Mark(t, 0, 0))] : t \in 1..2} ELSE {})

NoOpts == [case |-> FALSE, space |-> FALSE, ttol |-> 1, gtol |-> 1, gran |-> "element", meta |-> "all", sens |-> "normal", moves |-> FALSE]
MoveOpts == {[NoOpts EXCEPT !.moves = TRUE, !.ttol = 2, !.gtol = 2]}
FewOpts == {NoOpts, [NoOpts EXCEPT !.ttol = 0], [NoOpts EXCEPT !.case = TRUE, !.gtol = 0, !.gran = "word", !.meta = "default"]}
SomeOpts == {NoOpts, [NoOpts EXCEPT !.case = TRUE], [NoOpts EXCEPT !.space = TRUE], [NoOpts EXCEPT !.ttol = 0], [NoOpts EXCEPT !.gtol = 0],
             [NoOpts EXCEPT !.gran = "word"], [NoOpts EXCEPT !.meta = "default"], [NoOpts EXCEPT !.case = TRUE, !.space = TRUE, !.gran = "char", !.meta = "none"]}
Init == /\ a = Doc0 /\ b = Doc0 /\ o = NoOpts /\ pc = "make" /\ left = {} /\ right = {} /\ pairs = {} /\ edits = 0
Make == /\ pc = "make" /\ edits < MaxEdits /\ a' \in Results(a) /\ edits' = edits + 1
        /\ UNCHANGED <<b, o, pc, left, right, pairs>>
Fork == /\ pc = "make" /\ b' = a /\ pc' = "edit" /\ edits' = 0 /\ UNCHANGED <<a, o, left, right, pairs>>
Edit == /\ pc = "edit" /\ edits < MaxEdits /\ b' \in Results(b) /\ edits' = edits + 1
        /\ UNCHANGED <<a, o, pc, left, right, pairs>>
Indices(d, ps) == UNION {{<<p, i>> : i \in DOMAIN d.pages[p].els} : p \in ps}
Start(oo) == /\ pc = "edit" /\ o' = oo /\ pc' = "match"
             /\ left' = Indices(a, Common(a, b)) /\ right' = Indices(b, Common(a, b)) /\ pairs' = {}
             /\ UNCHANGED <<a, b, edits>>
A(l) == a.pages[l[1]].els[l[2]]
B(r) == b.pages[r[1]].els[r[2]]
Matching == {<<l, r>> \in left \X right : l[1] = r[1] /\ Class(A(l), o) = Class(B(r), o)}
Match == /\ pc = "match" /\ IF Matching = {} THEN pc' = "pair" /\ UNCHANGED <<left, right>>
                            ELSE \E m \in Matching : left' = left \ {m[1]} /\ right' = right \ {m[2]} /\ UNCHANGED pc
         /\ UNCHANGED <<a, b, o, pairs, edits>>
\* a change: something at the same place, or the same thing elsewhere
Related(x, y) == x.k = y.k /\ x.k \in {"text", "image"} /\ (x.at = y.at \/ <<x.w, x.v, x.c, x.s>> = <<y.w, y.v, y.c, y.s>>)
Pair == /\ pc = "pair"
        /\ \E l \in left, r \in right :
             /\ l[1] = r[1] /\ Related(A(l), B(r))
             /\ pairs' = pairs \cup {<<l, r>>} /\ left' = left \ {l} /\ right' = right \ {r}
        /\ UNCHANGED <<a, b, o, pc, edits>>
Finish == pc = "pair" /\ pc' = "done" /\ UNCHANGED <<a, b, o, left, right, pairs, edits>>
Next == Make \/ Fork \/ Edit \/ (\E oo \in Options : Start(oo)) \/ Match \/ Pair \/ Finish
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
OldSide(p, c) == Cardinality({l \in left : l[1] = p /\ Class(A(l), o) = c}) + Cardinality({m \in pairs : m[1][1] = p /\ Class(A(m[1]), o) = c})
NewSide(p, c) == Cardinality({r \in right : r[1] = p /\ Class(B(r), o) = c}) + Cardinality({m \in pairs : m[2][1] = p /\ Class(B(m[2]), o) = c})
Pos(n) == IF n > 0 THEN n ELSE 0
AllClasses(p) == Classes(a.pages[p].els, o) \cup Classes(b.pages[p].els, o)
Exact == pc = "done" => \A p \in Common(a, b) : \A c \in AllClasses(p) :
           LET na == Num(a.pages[p].els, c, o) nb == Num(b.pages[p].els, c, o) IN
             OldSide(p, c) = Pos(na - nb) /\ NewSide(p, c) = Pos(nb - na)
Patch == pc = "done" => \A p \in Common(a, b) : \A c \in AllClasses(p) :
           Num(a.pages[p].els, c, o) - OldSide(p, c) + NewSide(p, c) = Num(b.pages[p].els, c, o)
Silent == left = {} /\ right = {} /\ pairs = {} /\ Len(a.pages) = Len(b.pages)
          /\ \A p \in Common(a, b) : a.pages[p].size = b.pages[p].size /\ a.pages[p].rot = b.pages[p].rot
Complete == pc = "done" => (Silent <=> SamePages(a, b, o))
Equivalence == /\ Same(a, a, o) /\ (Same(a, b, o) <=> Same(b, a, o))
               /\ a = b => Same(a, b, o)
\* a report told backwards is one of the documents the other way round
Mirror == pc = "done" => \A p \in Common(a, b) : \A c \in AllClasses(p) :
            /\ More(a.pages[p].els, b.pages[p].els, o) = {x \in {<<k, OldSide(p, k)>> : k \in AllClasses(p)} : x[2] > 0}
            /\ More(b.pages[p].els, a.pages[p].els, o) = {x \in {<<k, NewSide(p, k)>> : k \in AllClasses(p)} : x[2] > 0}
\* laxer options never find more
Laxer(x, y) == /\ (x.case => y.case) /\ (x.space => y.space) /\ x.ttol <= y.ttol /\ x.gtol <= y.gtol
               /\ (y.gran = "element" => x.gran = "element")
               /\ <<x.meta, y.meta>> \notin {<<"default", "all">>, <<"none", "all">>, <<"none", "default">>}
Monotone == pc = "edit" => \A x, y \in Options : Laxer(x, y) /\ Same(a, b, x) => Same(a, b, y)
=============================================================================
