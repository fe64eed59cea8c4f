------------------------------ MODULE PageCopy ------------------------------
(***************************************************************************)
(* Extraction, splitting and merging as copying of page-rooted subgraphs.  *)
(*                                                                         *)
(* A document is a list of pages over a graph of objects.  Copying numbers *)
(* the selected pages first and then follows references one at a time      *)
(* (the worklist of the implementation); references to pages that are not  *)
(* selected and to the document's frame (page tree, catalog) become null.  *)
(* The abstract meaning of a document is its list of page identities, each *)
(* with what can be reached from it; histories of copies must preserve it. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Srcs,       \* original documents
          NumPages,   \* pages 1..NumPages of each
          NumObjs,    \* objects NumPages+1..NumPages+NumObjs of each
          Fan,        \* references per object at most
          MaxOut,     \* pages of a result
          MaxDocs     \* documents in a history, originals included

Pages   == 1..NumPages
Frame   == 0                                 \* page tree and catalog
Objs    == 1..(NumPages + NumObjs)
Null    == -1

VARIABLES docs,     \* Seq of [pages: Seq of num, refs: num -> Seq of nums, src: num -> <<source, original>>]
          job       \* the copy under way
vars == <<docs, job>>
Idle == [on |-> FALSE]

FewRefs == UNION {[1..k -> {Frame} \cup Objs] : k \in 0..Fan}
Orig(s, g) == [pages |-> [i \in Pages |-> i], refs |-> g, src |-> [o \in Objs |-> <<s, o>>]]

Init == /\ \E g \in [Srcs -> [Objs -> FewRefs]] :
             docs = [i \in 1..Cardinality(Srcs) |-> Orig(i, g[i])]
        /\ job = Idle

(* sel: Seq of <<document index, page position>> *)
Request(sel) ==
  /\ ~job.on /\ Len(docs) < MaxDocs /\ Len(sel) > 0
  /\ \A i \in DOMAIN sel : sel[i][2] \in DOMAIN docs[sel[i][1]].pages
  /\ LET old(i) == <<sel[i][1], docs[sel[i][1]].pages[sel[i][2]]>>
         firsts == {i \in DOMAIN sel : \A j \in 1..(i - 1) : old(j) # old(i)}
     IN job' = [on |-> TRUE, sel |-> sel, at |-> 1, next |-> Len(sel) + 1,
                map |-> [x \in {old(i) : i \in firsts} |-> CHOOSE i \in firsts : old(i) = x],
                todo |-> [i \in DOMAIN sel |-> <<i, old(i)>>],
                refs |-> <<>>, src |-> <<>>]
  /\ UNCHANGED docs

IsOther(d, o) == o # Frame /\ ~\E i \in DOMAIN docs[d].pages : docs[d].pages[i] = o
(* Copy one object: its references are renamed in order, new ones numbered *)
RECURSIVE Rename(_, _, _, _, _, _)
Rename(d, rs, i, out, map, next) ==
  IF i > Len(rs) THEN [out |-> out, map |-> map, next |-> next]
  ELSE LET x == <<d, rs[i]>> IN
       IF rs[i] = Null THEN Rename(d, rs, i + 1, Append(out, Null), map, next)
       ELSE IF x \in DOMAIN map THEN Rename(d, rs, i + 1, Append(out, map[x]), map, next)
       ELSE IF ~IsOther(d, rs[i]) THEN Rename(d, rs, i + 1, Append(out, Null), map, next)
       ELSE Rename(d, rs, i + 1, Append(out, next), map @@ (x :> next), next + 1)

Step ==
  /\ job.on /\ job.at <= Len(job.todo)
  /\ LET t   == job.todo[job.at]
         d   == t[2][1]
         r   == Rename(d, docs[d].refs[t[2][2]], 1, <<>>, job.map, job.next)
         new == {x \in DOMAIN r.map : x \notin DOMAIN job.map}
         newSeq == [k \in 1..Cardinality(new) |-> LET n == job.next + k - 1 IN <<n, CHOOSE x \in new : r.map[x] = n>>]
     IN job' = [job EXCEPT !.at = @ + 1, !.next = r.next, !.map = r.map, !.todo = @ \o newSeq,
                           !.refs = @ @@ (t[1] :> r.out), !.src = @ @@ (t[1] :> docs[d].src[t[2][2]])]
  /\ UNCHANGED docs

Finish ==
  /\ job.on /\ job.at > Len(job.todo)
  /\ docs' = Append(docs, [pages |-> [i \in DOMAIN job.sel |-> i], refs |-> job.refs, src |-> job.src])
  /\ job' = Idle

Sels == UNION {[1..k -> (1..Len(docs)) \X (1..MaxOut)] : k \in 1..MaxOut}
Next == (\E s \in Sels : Request(s)) \/ Step \/ Finish \/ (~job.on /\ Len(docs) = MaxDocs /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* The abstract documents: page identities in order *)
Ident(D) == [i \in DOMAIN D.pages |-> D.src[D.pages[i]]]

Copied == 1..Len(docs)
(* every reference resolves, or is null, or (originals) points to the frame *)
Closed == \A k \in Copied : \A o \in DOMAIN docs[k].refs :
            \A i \in DOMAIN docs[k].refs[o] :
               docs[k].refs[o][i] \in DOMAIN docs[k].refs \cup {Null} \cup (IF k <= Cardinality(Srcs) THEN {Frame} ELSE {})
(* an object has as many references as its original, and each is the copy
   of what the original referred to, or null where that was not taken *)
Faithful ==
  \A k \in Copied : \A o \in DOMAIN docs[k].refs :
    LET D == docs[k]
        s == D.src[o][1]
        rs == docs[s].refs[D.src[o][2]]
    IN /\ Len(D.refs[o]) = Len(rs)
       /\ \A i \in DOMAIN rs :
            IF D.refs[o][i] \in {Null, Frame}
            THEN rs[i] = Frame \/ rs[i] \in Pages          \* only those are ever dropped
            ELSE D.src[D.refs[o][i]] = <<s, rs[i]>>
(* a page that was taken along is still linked to (copies of originals; in
   later generations the link may have been dropped before) *)
LinksKept ==
  \A k \in Copied : k = Cardinality(Srcs) + 1 => \A o \in DOMAIN docs[k].refs :
    LET D == docs[k]
        s == D.src[o][1]
        rs == docs[s].refs[D.src[o][2]]
    IN \A i \in DOMAIN rs : (rs[i] \in Pages /\ \E p \in DOMAIN D.pages : D.src[D.pages[p]] = <<s, rs[i]>>)
              => D.refs[o][i] # Null
Inv == Closed /\ Faithful /\ LinksKept
(* the history refines concatenation and selection of lists of pages *)
Result == [][job.on /\ ~job'.on =>
              Ident(docs'[Len(docs')]) =
                [i \in DOMAIN job.sel |-> docs[job.sel[i][1]].src[docs[job.sel[i][1]].pages[job.sel[i][2]]]]]_vars
=============================================================================
