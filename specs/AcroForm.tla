------------------------------ MODULE AcroForm ------------------------------
(***************************************************************************)
(* Interactive forms (ISO 32000-1 12.7).  A form is a forest of fields     *)
(* with partial names; type, flags, value, default and maximum length are  *)
(* inherited (Eff).  A terminal field is known by its qualified name.  A   *)
(* button's widgets show one of their states or are off.                   *)
(*                                                                         *)
(* Fill gives values to any set of names at once, one of which may be      *)
(* unknown; Revise is another program giving a value in a revision of its  *)
(* own; Flatten takes the form away.                                       *)
(*                                                                         *)
(* LastWins: a field's value is the one given last, or the one it had.     *)
(* Frame:    a step changes no field it does not name.                     *)
(* InStep:   the widgets of a button that was given a value show it.       *)
(* Named:    a qualified name means one field.                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS MaxNodes, MaxSteps, NumNames, NumVals, NumStates

Root == 0
Unknown == -1
Yes == 99                 \* the state a button without widgets is given
Off == 0
NoV == [k |-> "none"]
Inherited == {"FT", "Ff", "V", "DV", "Max"}
Absent == <<>>

VARIABLES node,     \* number -> [up, nm, term, at (own attributes), wid (states of its widgets)]
          shown,    \* number -> what each widget shows
          log,      \* what has been done: [a, m]
          start,    \* number -> value when the form was made
          closed    \* no more fields are added
vars == <<node, shown, log, start, closed>>

Nodes == DOMAIN node \ {Root}
Terms == {n \in Nodes : node[n].term}
Groups == DOMAIN node \ Terms
Own(n, a) == node[n].at[a]
RECURSIVE Eff(_, _)
Eff(n, a) == IF n = Root THEN Absent ELSE IF Own(n, a) # Absent THEN Own(n, a) ELSE Eff(node[n].up, a)
Value(n) == IF Eff(n, "V") = Absent THEN NoV ELSE Eff(n, "V")[1]
FT(n) == IF Eff(n, "FT") = Absent THEN "" ELSE Eff(n, "FT")[1]
RECURSIVE Name(_)
Name(n) == IF n = Root THEN <<>> ELSE Append(Name(node[n].up), node[n].nm)
Flags(n) == IF Eff(n, "Ff") = Absent THEN {} ELSE Eff(n, "Ff")[1]
Type(n) == CASE FT(n) = "Tx" -> "text"
             [] FT(n) = "Ch" -> "select"
             [] FT(n) = "Btn" -> IF "push" \in Flags(n) THEN "button" ELSE IF "radio" \in Flags(n) THEN "radio" ELSE "checkbox"
             [] OTHER -> "unknown"

Texts == {[k |-> "t", i |-> i] : i \in 1..NumVals}
Lists == {[k |-> "l", s |-> s] : s \in {<<1>>, <<NumVals, 1>>}}
States == {[k |-> "s", i |-> i] : i \in Off..NumStates}
Bools == {[k |-> "b", on |-> b] : b \in BOOLEAN}
Held(ft, ff) == CASE ft = "Tx" -> Texts [] ft = "Ch" -> Texts \cup (IF "multi" \in ff THEN Lists ELSE {}) [] ft = "Btn" -> States [] OTHER -> {}
Asked(n) == Held(FT(n), Flags(n)) \cup (IF Type(n) = "checkbox" THEN Bools ELSE {})
FlagSets(ft) == CASE ft = "Tx" -> {{}, {"ro"}, {"req"}, {"multiline"}}
                  [] ft = "Ch" -> {{}, {"multi"}, {"combo"}}
                  [] ft = "Btn" -> {{}, {"radio"}, {"radio", "req"}, {"push"}}
                  [] OTHER -> {{}}

Init == /\ node = (Root :> [up |-> Root, nm |-> 0, term |-> FALSE, at |-> [a \in Inherited |-> Absent], wid |-> <<>>])
        /\ shown = (Root :> <<>>) /\ log = <<>> /\ start = (Root :> NoV) /\ closed = FALSE

\* a new field below p; own says what it does not inherit
MayAdd(p, nm, term, at, wid) ==
  LET ft == IF at.FT # Absent THEN at.FT[1] ELSE FT(p)
      ff == IF at.Ff # Absent THEN at.Ff[1] ELSE Flags(p)
      v == IF at.V # Absent THEN at.V ELSE Eff(p, "V")
      dv == IF at.DV # Absent THEN at.DV ELSE Eff(p, "DV") IN
  /\ ~closed /\ Cardinality(Nodes) < MaxNodes /\ p \in Groups
  /\ \A m \in Nodes : node[m].up = p => node[m].nm # nm
  /\ term => ft # ""
  /\ at.Ff # Absent => ft # ""
  /\ ff \in FlagSets(ft)
  /\ v # Absent => v[1] \in Held(ft, ff) /\ "push" \notin ff
  /\ dv # Absent => dv[1] \in Held(ft, ff) /\ "push" \notin ff
  /\ at.Max # Absent => ft = "Tx"
  /\ wid # <<>> => term /\ ft = "Btn"
Add(p, nm, term, at, wid) ==
  LET n == Cardinality(DOMAIN node)
      v == IF at.V # Absent THEN at.V ELSE Eff(p, "V") IN
  /\ MayAdd(p, nm, term, at, wid)
  /\ node' = (n :> [up |-> p, nm |-> nm, term |-> term, at |-> at, wid |-> wid]) @@ node
  /\ start' = (n :> IF v = Absent THEN NoV ELSE v[1]) @@ start
  /\ shown' = (n :> [i \in DOMAIN wid |-> IF v # Absent /\ v[1] = [k |-> "s", i |-> wid[i]] THEN wid[i] ELSE Off]) @@ shown
  /\ UNCHANGED <<log, closed>>
\* every group has a field below it
Whole == Terms # {} /\ \A g \in Groups \ {Root} : \E m \in Nodes : node[m].up = g
Close == ~closed /\ Whole /\ closed' = TRUE /\ UNCHANGED <<node, shown, log, start>>

OnState(n) == IF node[n].wid = <<>> THEN Yes ELSE node[n].wid[1]
Meaning(n, q) == IF q.k # "b" THEN q ELSE [k |-> "s", i |-> IF q.on THEN OnState(n) ELSE Off]
Flat == \E i \in DOMAIN log : log[i].a = "flatten"
Fillable == {n \in Terms : Type(n) # "button"}
Give(a, m) ==           \* m: fields, or Unknown, with what is asked for each
  /\ closed /\ ~Flat /\ Len(log) < MaxSteps
  /\ node' = [n \in DOMAIN node |-> IF n \in DOMAIN m THEN [node[n] EXCEPT !.at.V = <<Meaning(n, m[n])>>] ELSE node[n]]
  /\ shown' = [n \in DOMAIN node |->
       IF n \in DOMAIN m THEN [i \in DOMAIN node[n].wid |-> IF Meaning(n, m[n]) = [k |-> "s", i |-> node[n].wid[i]] THEN node[n].wid[i] ELSE Off]
       ELSE shown[n]]
  /\ log' = Append(log, [a |-> a, m |-> m])
  /\ UNCHANGED <<start, closed>>
Fill(m) == Give("fill", m)
Revise(n, v) == Give("revise", n :> v)
Flatten == /\ closed /\ ~Flat /\ Len(log) < MaxSteps
           /\ log' = Append(log, [a |-> "flatten", m |-> <<>>])
           /\ UNCHANGED <<node, shown, start, closed>>

At(ft, ff, v, dv, mx) == [FT |-> ft, Ff |-> ff, V |-> v, DV |-> dv, Max |-> mx]
Txt(i) == <<[k |-> "t", i |-> i]>>
Btn(i) == <<[k |-> "s", i |-> i]>>
AnyAt == {At(<<>>, <<>>, <<>>, <<>>, <<>>), At(<<"Tx">>, <<>>, Txt(1), <<>>, <<>>), At(<<"Tx">>, <<{"ro"}>>, <<>>, Txt(1), <<40>>),
          At(<<"Btn">>, <<>>, Btn(1), <<>>, <<>>), At(<<"Btn">>, <<{"radio"}>>, <<>>, Btn(1), <<>>), At(<<"Btn">>, <<{"push"}>>, <<>>, <<>>, <<>>),
          At(<<"Ch">>, <<{"multi"}>>, <<[k |-> "l", s |-> <<NumVals, 1>>]>>, <<>>, <<>>), At(<<>>, <<>>, Txt(NumVals), <<>>, <<>>)}
Requests(n) == IF n = Unknown THEN {[k |-> "t", i |-> 1]} ELSE Asked(n)
Next == \/ \E p \in Groups, nm \in 1..NumNames, term \in BOOLEAN, at \in AnyAt, wid \in {<<>>, <<NumStates, 1>>} : Add(p, nm, term, at, wid)
        \/ Close
        \/ \E a, b \in Fillable \cup {Unknown} : \E x \in Requests(a), y \in Requests(b) : Fill((a :> x) @@ (b :> y))
        \/ \E n \in Fillable : \E x \in Held(FT(n), Flags(n)) : Revise(n, x)
        \/ Flatten
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Given(n) == {i \in DOMAIN log : n \in DOMAIN log[i].m}
Last(n) == CHOOSE i \in Given(n) : \A j \in Given(n) : j <= i
LastWins == \A n \in Terms : Value(n) = IF Given(n) = {} THEN start[n] ELSE Meaning(n, log[Last(n)].m[n])
InStep == \A n \in Terms : \A i \in DOMAIN node[n].wid :
            shown[n][i] = IF Value(n) = [k |-> "s", i |-> node[n].wid[i]] THEN node[n].wid[i] ELSE Off
Named == \A a, b \in Terms : Name(a) = Name(b) => a = b
Sound == \A n \in Terms : Value(n) = NoV \/ Value(n) \in Held(FT(n), Flags(n)) \cup {[k |-> "s", i |-> Yes]}
Frame == [][\A n \in Terms : (Len(log') > Len(log) /\ n \notin DOMAIN log'[Len(log')].m) => Value(n)' = Value(n) /\ shown[n]' = shown[n]]_vars
=============================================================================
