------------------------------- MODULE Robust -------------------------------
(***************************************************************************)
(* Reading documents that are not sound.  A document is a graph of pieces  *)
(* (catalog, page tree, pages, their contents, resources and annotations,  *)
(* outline, forms, ...) joined by references.  Damage redirects references *)
(* anywhere, also backwards, drops them, or turns a piece into something   *)
(* else.  A reading asks for one view of the document (its pages, the text *)
(* of a page, its bookmarks, ...) and walks the graph for it.              *)
(*                                                                         *)
(*   Ends       every reading ends, whatever the references do             *)
(*   Bounded    with at most one step per reference and one per piece      *)
(*   Once       and takes every piece at most once                         *)
(*   Contained  a view that reads no damaged piece is as it was            *)
(*   Again      the same document always gives the same answer             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Pages,       \* number of pages
          MaxDamage,   \* number of damages
          MaxReads     \* readings per behaviour

Gone == "gone"         \* where a reference to nothing leads
P == 1..Pages
Of(kind, i) == kind \o ToString(i)

Nodes == {"catalog", "tree", "outline", "item", "names", "form", "field", "xfa", "info", "xmp"}
         \cup UNION {{Of("page", i), Of("content", i), Of("res", i), Of("image", i), Of("annots", i)} : i \in P}
KindOf(n) == IF n \notin Nodes THEN "none"
             ELSE IF \E i \in P : n = Of("page", i) THEN "page"
             ELSE IF \E i \in P : n = Of("content", i) THEN "content"
             ELSE IF \E i \in P : n = Of("res", i) THEN "res"
             ELSE IF \E i \in P : n = Of("image", i) THEN "image"
             ELSE IF \E i \in P : n = Of("annots", i) THEN "annots"
             ELSE n
PageSeq == [i \in P |-> Of("page", i)]
SoundLinks(n) ==
  CASE n = "catalog" -> <<"tree", "outline", "names", "form", "xmp">>
    [] n = "tree" -> PageSeq
    [] n = "outline" -> <<"item">>
    [] n = "item" -> <<"names", Of("page", 1), "item">>      \* items refer to each other
    [] n = "names" -> PageSeq
    [] n = "form" -> <<"field", "xfa">>
    [] n = "field" -> <<Of("page", 1), "field">>
    [] OTHER ->
       IF KindOf(n) = "page"
       THEN LET i == CHOOSE j \in P : n = Of("page", j)
            IN <<"tree", Of("content", i), Of("res", i), Of("annots", i)>>
       ELSE IF KindOf(n) = "res"
       THEN LET i == CHOOSE j \in P : n = Of("res", j) IN <<Of("image", i)>>
       ELSE IF KindOf(n) = "annots"
       THEN LET i == CHOOSE j \in P : n = Of("annots", j) IN <<Of("page", i), "field", "names">>
       ELSE <<>>
Sound == [n \in Nodes |-> [kind |-> KindOf(n), links |-> SoundLinks(n)]]

-----------------------------------------------------------------------------
(* Views: what a reading takes and, for what belongs to a page, which      *)
(* page.  "trailer" stands for where every reading starts.                 *)
DocViews == {"pages", "bookmarks", "fields", "packets", "metadata"}
PageViews == {Of(k, i) : k \in {"text", "drawing", "resources", "notes"}, i \in P}
Views == DocViews \cup PageViews
PageOf(v) == IF v \in DocViews THEN 0 ELSE CHOOSE i \in P : \E k \in {"text", "drawing", "resources", "notes"} : v = Of(k, i)
Start(v) == IF v = "metadata" THEN <<"info", "catalog">> ELSE <<"catalog">>
TreeKinds == {"catalog", "tree", "page"}
Takes(v) ==            \* kinds taken in the document stage
  CASE v = "bookmarks" -> TreeKinds \cup {"outline", "item", "names"}
    [] v = "fields" -> {"catalog", "form", "field"}
    [] v = "packets" -> {"catalog", "form", "xfa"}
    [] v = "metadata" -> TreeKinds \cup {"info"}
    [] OTHER -> TreeKinds
PageTakes(v) ==        \* kinds taken below a page
  IF \E i \in P : v = Of("notes", i) THEN {"annots", "field", "names"}
  ELSE IF \E i \in P : v = Of("resources", i) THEN {"res", "image"}
  ELSE {"content", "res", "image"}
\* A page's links are followed only once the page has been chosen.
Follows(kind, stage) == IF kind = "page" THEN stage = 2 ELSE TRUE

VARIABLES store,    \* the document
          hits,     \* the pieces damaged
          job,      \* the reading under way
          said,     \* view -> answers since the last damage
          reads
vars == <<store, hits, job, said, reads>>

Idle == [view |-> "none", stage |-> 0, todo |-> <<>>, seen |-> {}, out |-> <<>>, work |-> 0]
Init == /\ store = Sound /\ hits = {} /\ job = Idle
        /\ said = [v \in Views |-> <<>>] /\ reads = 0

(* One step of a reading: take the next piece if it is of a kind the view  *)
(* takes and has not been taken, and go on to what it refers to.           *)
Wants(v, stage, first, n, d) ==
  /\ n \in Nodes
  /\ IF stage = 1 THEN d[n].kind \in Takes(v)
     ELSE d[n].kind \in PageTakes(v) \/ n = first
Look(d, j) ==
  LET n == Head(j.todo)
      rest == Tail(j.todo)
      first == IF j.out = <<>> THEN n ELSE j.out[1]
  IN IF n \in j.seen \/ ~Wants(j.view, j.stage, first, n, d)
     THEN [j EXCEPT !.todo = rest, !.work = @ + 1]
     ELSE [j EXCEPT !.todo = (IF Follows(d[n].kind, j.stage) THEN d[n].links ELSE <<>>) \o rest,
                    !.seen = @ \cup {n}, !.out = Append(@, n), !.work = @ + 1]
PagesIn(d, out) == SelectSeq(out, LAMBDA n : d[n].kind = "page")
\* After the pages are known, a page's view goes on with that page.
Turn(d, j) ==
  LET ps == PagesIn(d, j.out) i == PageOf(j.view)
  IN [j EXCEPT !.stage = 2, !.seen = {}, !.out = <<>>,
               !.todo = IF i <= Len(ps) THEN <<ps[i]>> ELSE <<>>]
Over(j) == j.todo = <<>> /\ (j.stage = 2 \/ PageOf(j.view) = 0)

(* The whole reading at once *)
RECURSIVE Whole(_, _)
Whole(d, j) == IF j.todo # <<>> THEN Whole(d, Look(d, j))
               ELSE IF Over(j) THEN j ELSE Whole(d, Turn(d, j))
Open(v) == [Idle EXCEPT !.view = v, !.stage = 1, !.todo = Start(v)]
RECURSIVE Trail(_, _)
Trail(d, j) ==         \* every piece a reading looks at
  IF j.todo # <<>> THEN {Head(j.todo)} \cup Trail(d, Look(d, j))
  ELSE IF Over(j) THEN {} ELSE Trail(d, Turn(d, j))
\* what a piece not wanted would have been matters only for its kind
Taken(d, j) == LET t == Trail(d, j) IN t \cap Nodes
Reads == [v \in Views |-> Taken(Sound, Open(v))]
Clean == [v \in Views |-> Whole(Sound, Open(v)).out]

\* (readings change nothing, so a second one is of interest only for the same view)
Read(v) == /\ job = Idle /\ reads < MaxReads /\ (reads = 0 \/ said[v] # <<>>)
           /\ job' = Open(v) /\ reads' = reads + 1
           /\ UNCHANGED <<store, hits, said>>
Step == /\ job # Idle
        /\ IF job.todo # <<>> THEN job' = Look(store, job) /\ UNCHANGED said
           ELSE IF Over(job)
           THEN /\ said' = [said EXCEPT ![job.view] = Append(@, job.out)]
                /\ job' = Idle
           ELSE job' = Turn(store, job) /\ UNCHANGED said
        /\ UNCHANGED <<store, hits, reads>>

Forget == said' = [v \in Views |-> <<>>]
Redirect(n, i, m) ==
  /\ store' = [store EXCEPT ![n].links[i] = m]
  /\ hits' = hits \cup {n}
Spoil(n, k) == /\ store' = [store EXCEPT ![n].kind = k] /\ hits' = hits \cup {n}
Damage == /\ job = Idle /\ reads = 0 /\ Cardinality(hits) < MaxDamage
          /\ \/ \E n \in Nodes : \E i \in DOMAIN store[n].links : \E m \in Nodes \cup {Gone} :
                  m # store[n].links[i] /\ Redirect(n, i, m)
             \/ \E n \in Nodes \ hits : \E k \in {"junk", "tree", "page", "item", "field"} \ {store[n].kind} : Spoil(n, k)
          /\ Forget /\ UNCHANGED <<job, reads>>
Next == Damage \/ Step \/ \E v \in Views : Read(v)
Spec == Init /\ [][Next]_vars /\ WF_vars(Step)

-----------------------------------------------------------------------------
Ends == (job # Idle) ~> (job = Idle)
RECURSIVE Refs(_, _)
Refs(d, s) == IF s = {} THEN 0 ELSE LET n == CHOOSE x \in s : TRUE IN Len(d[n].links) + Refs(d, s \ {n})
Bounded == job.work <= 2 * (2 + Refs(store, Nodes))
Once == \A i, j \in DOMAIN job.out : i # j => job.out[i] # job.out[j]
Contained == \A v \in Views : said[v] # <<>> /\ Reads[v] \cap hits = {} => said[v][1] = Clean[v]
Again == \A v \in Views : \A i \in DOMAIN said[v] : said[v][i] = said[v][1]
\* the damage of each piece is contained in the views that read it
Calm(h) == {v \in Views : Reads[v] \cap h = {}}
Reached == \A v \in Views : Clean[v] # <<>>    \* (the views are not empty)
=============================================================================
