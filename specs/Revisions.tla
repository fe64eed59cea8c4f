----------------------------- MODULE Revisions -----------------------------
(***************************************************************************)
(* A PDF file as a sequence of revisions (ISO 32000-1, 7.5.6, 7.5.8).      *)
(*                                                                         *)
(* Low level: every revision appends one cross-reference section, a table  *)
(* or a cross-reference stream, whose entries say of an object number that *)
(* it is defined directly ("n"), packed in an object stream ("z", only in  *)
(* cross-reference streams), freed ("f") or not mentioned ("-").  A hybrid *)
(* section is a table whose trailer names a stream holding the packed ones.*)
(* High level: a document is a map from object numbers to the version that *)
(* counts.  The invariant Refinement says that looking an object up newest *)
(* section first yields exactly that map, for the whole file and for every *)
(* earlier revision on its own.                                            *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Kinds,        \* kinds of section: "table", "xstm", "hybrid"
          NumObjs,      \* user object numbers 1..NumObjs
          MaxRevs,      \* revisions in a complete history
          MaxEdits,     \* objects touched by one revision (bounds branching)
          Roots,        \* catalogs the trailer may name
          Infos         \* whether the trailer may name an information dictionary

Objs  == 1..NumObjs

VARIABLES sections,     \* Seq of [kind, ent : Objs -> entry type, gen, root, info]
          view,         \* Objs -> revision that defined the current version, 0 = none
          gen,          \* Objs -> generation the next definition carries
          hist          \* Seq of views, one per revision (what a reader must see)

vars == <<sections, view, gen, hist>>

Init == /\ sections = <<>>
        /\ view = [n \in Objs |-> 0]
        /\ gen  = [n \in Objs |-> 0]
        /\ hist = <<>>

(* What a revision of kind k may do to object n.                           *)
Allowed(k, n) == {"-"} \cup {"n"}
                 \cup (IF k # "table" /\ gen[n] = 0 THEN {"z"} ELSE {})
                 \cup (IF view[n] # 0 THEN {"f"} ELSE {})

Edits(k) == { e \in [Objs -> {"-", "n", "z", "f"}] :
                /\ \A n \in Objs : e[n] \in Allowed(k, n)
                /\ Cardinality({n \in Objs : e[n] # "-"}) <= MaxEdits }

(* root: which of two catalogs the trailer names; info: whether it has one *)
AppendRev(k, e, root, info) ==
  /\ Len(sections) < MaxRevs
  /\ sections' = Append(sections, [kind |-> k, ent |-> e, gen |-> gen,
                                    root |-> root, info |-> info])
  /\ view' = [n \in Objs |-> CASE e[n] \in {"n", "z"} -> Len(sections) + 1
                               [] e[n] = "f"          -> 0
                               [] OTHER               -> view[n]]
  /\ gen' = [n \in Objs |-> IF e[n] = "f" THEN gen[n] + 1 ELSE gen[n]]
  /\ hist' = Append(hist, view')

Done == Len(sections) = MaxRevs /\ UNCHANGED vars

Next == Done \/ \E k \in Kinds, root \in Roots, info \in Infos :
                  \E e \in Edits(k) : AppendRev(k, e, root, info)

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* The reader: newest section first, following /Prev.                      *)
RECURSIVE Lookup(_, _)
Lookup(k, n) ==      \* in the file cut after revision k
  IF k = 0 THEN [t |-> "-", rev |-> 0]
  ELSE IF sections[k].ent[n] # "-"
       THEN [t |-> sections[k].ent[n], rev |-> k]
       ELSE Lookup(k - 1, n)

Resolve(k, n) == LET x == Lookup(k, n) IN
                 IF x.t \in {"n", "z"} THEN x.rev ELSE 0

Refinement == \A k \in 1..Len(sections) : \A n \in Objs : Resolve(k, n) = hist[k][n]

(* A freed object is gone until a later revision defines it again, and the *)
(* new definition carries a higher generation.                             *)
FreedIsGone == \A n \in Objs :
   (Len(sections) > 0 /\ sections[Len(sections)].ent[n] = "f") => view[n] = 0

GenCountsFrees == \A n \in Objs :
   gen[n] = Cardinality({k \in 1..Len(sections) : sections[k].ent[n] = "f"})

PackedIsGenZero == \A k \in 1..Len(sections) : \A n \in Objs :
   sections[k].ent[n] = "z" => sections[k].gen[n] = 0 /\ sections[k].kind # "table"

(* Appending never changes what an earlier revision says.                  *)
HistoryStable == [][ \A k \in 1..Len(hist) : hist'[k] = hist[k] ]_vars

TypeOK == /\ view \in [Objs -> 0..MaxRevs]
          /\ Len(hist) = Len(sections)
=============================================================================
