----------------------------- MODULE FormBuild -----------------------------
(***************************************************************************)
(* Building a form: fields are added and given attributes in any order,    *)
(* the form is built, actions and appearances are added to the fields that *)
(* were built, pages come whenever they come, and the document is written. *)
(*                                                                         *)
(* A field is what its kind makes it and what was last said about it       *)
(* (LastSaid); a step changes only the field it is about (Frame); what is  *)
(* written has the fields in the order in which they were added (Kept).    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS MaxFields, MaxOps, NumVals, NumActions, MaxPages

Kinds == {"text", "check", "radio", "choice", "button"}
Attrs == {"v", "dv", "req", "ro", "max"}
Events == {"U", "D", "E", "X"}
None == 0

VARIABLES field,   \* sequence of [kind, at, act, aa, ap]
          built,   \* number of the field built last, or 0
          pages, log, done
vars == <<field, built, pages, log, done>>

Plain == [v |-> None, dv |-> None, req |-> None, ro |-> None, max |-> None]
New(k) == [kind |-> k, at |-> Plain, act |-> None, aa |-> [e \in Events |-> None], ap |-> None]
Op(a, i, x, n) == [a |-> a, i |-> i, x |-> x, n |-> n]
Did(o) == log' = Append(log, o)
Fields == DOMAIN field

Init == field = <<>> /\ built = 0 /\ pages = 0 /\ log = <<>> /\ done = FALSE
Go == ~done /\ Len(log) < MaxOps
Add(k) == /\ Go /\ built = 0 /\ Len(field) < MaxFields
          /\ field' = Append(field, New(k)) /\ Did(Op("add", Len(field) + 1, k, 0)) /\ UNCHANGED <<built, pages, done>>
\* flags are set (1) or cleared (0); other attributes get a value
Values(k, a) == CASE a \in {"req", "ro"} -> {0, 1}
                  [] a = "max" -> IF k = "text" THEN 1..NumVals ELSE {}
                  [] k = "button" -> {}
                  [] OTHER -> 1..NumVals
Set(i, a, n) == /\ Go /\ built = 0 /\ i \in Fields /\ n \in Values(field[i].kind, a)
                /\ field' = [field EXCEPT ![i].at[a] = n] /\ Did(Op("set", i, a, n)) /\ UNCHANGED <<built, pages, done>>
Page == /\ Go /\ pages < MaxPages /\ pages' = pages + 1 /\ Did(Op("page", 0, "", 0)) /\ UNCHANGED <<field, built, done>>
Build == /\ Go /\ built = 0 /\ field # <<>> /\ built' = Len(field) /\ Did(Op("build", 0, "", 0)) /\ UNCHANGED <<field, pages, done>>
Act(i, n) == /\ Go /\ built > 0 /\ i \in Fields
             /\ field' = [field EXCEPT ![i].act = n] /\ Did(Op("act", i, "", n)) /\ UNCHANGED <<built, pages, done>>
Mouse(i, e, n) == /\ Go /\ built > 0 /\ i \in Fields
                  /\ field' = [field EXCEPT ![i].aa[e] = n] /\ Did(Op("mouse", i, e, n)) /\ UNCHANGED <<built, pages, done>>
Appear(i, n) == /\ Go /\ built > 0 /\ i \in Fields
                /\ field' = [field EXCEPT ![i].ap = n] /\ Did(Op("appear", i, "", n)) /\ UNCHANGED <<built, pages, done>>
Write == /\ ~done /\ built > 0 /\ pages > 0 /\ done' = TRUE /\ UNCHANGED <<field, built, pages, log>>
Next == \/ \E k \in Kinds : Add(k)
        \/ \E i \in Fields, a \in Attrs : \E n \in Values(field[i].kind, a) : Set(i, a, n)
        \/ Page \/ Build \/ Write
        \/ \E i \in Fields, n \in 1..NumActions : Act(i, n) \/ Appear(i, n) \/ \E e \in Events : Mouse(i, e, n)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Said(a, i, x) == {j \in DOMAIN log : log[j].a = a /\ log[j].i = i /\ log[j].x = x}
LastOf(js) == IF js = {} THEN None ELSE log[CHOOSE j \in js : \A k \in js : k <= j].n
LastSaid == \A i \in Fields :
  /\ \A a \in Attrs : field[i].at[a] = LastOf(Said("set", i, a))
  /\ field[i].act = LastOf(Said("act", i, ""))
  /\ \A e \in Events : field[i].aa[e] = LastOf(Said("mouse", i, e))
  /\ field[i].ap = LastOf(Said("appear", i, ""))
Adds == SelectSeq(log, LAMBDA o : o.a = "add")
Kept == Len(field) = Len(Adds) /\ \A i \in Fields : Adds[i].x = field[i].kind /\ Adds[i].i = i
Frame == [][\A i \in Fields : field'[i] # field[i] => log' # log /\ log'[Len(log')].i = i]_vars
=============================================================================
