------------------------------ MODULE Warnings ------------------------------
(***************************************************************************)
(* A collector of warnings.                                                *)
(*                                                                         *)
(* High level: the warnings added while enabled since the last clear, in   *)
(* order.  Low level: a backing array with a length, as an implementation  *)
(* keeps it, and the lists handed out by queries, which must stay what     *)
(* they were when they were handed out whatever happens to the collector   *)
(* afterwards.                                                             *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Levels, WCodes, MaxOps

VARIABLES added,    \* all warnings ever created: [lvl, code, n]
          list,     \* abstract content of the collector (indices into added)
          on,       \* enabled?
          array, len, \* the implementation's array and its length
          given,    \* lists handed out: [want: indices, at: what it was]
          ops
vars == <<added, list, on, array, len, given, ops>>

Init == added = <<>> /\ list = <<>> /\ on \in BOOLEAN /\ array = <<>> /\ len = 0 /\ given = <<>> /\ ops = 0
Step == ops < MaxOps /\ ops' = ops + 1
Add(l, c) == /\ Step
             /\ added' = Append(added, [lvl |-> l, code |-> c])
             /\ IF on THEN /\ list' = Append(list, Len(added'))
                           /\ array' = Append(SubSeq(array, 1, len), Len(added')) /\ len' = len + 1
                ELSE UNCHANGED <<list, array, len>>
             /\ UNCHANGED <<on, given>>
Clear == Step /\ list' = <<>> /\ array' = <<>> /\ len' = 0 /\ UNCHANGED <<added, on, given>>
Enable(b) == Step /\ on' = b /\ UNCHANGED <<added, list, array, len, given>>
Sel(s, P(_)) == SelectSeq(s, P)
Hand(s) == Step /\ given' = Append(given, s) /\ UNCHANGED <<added, list, on, array, len>>
All == Hand(list)
ByLevel(l) == Hand(SelectSeq(list, LAMBDA i : added[i].lvl = l))
ByCode(c)  == Hand(SelectSeq(list, LAMBDA i : added[i].code = c))
Count == Step /\ UNCHANGED <<added, list, on, array, len, given>>
Next == \/ \E l \in Levels, c \in WCodes : Add(l, c)
        \/ Clear \/ All \/ Count
        \/ \E b \in BOOLEAN : Enable(b)
        \/ \E l \in Levels : ByLevel(l)
        \/ \E c \in WCodes : ByCode(c)
Spec == Init /\ [][Next]_vars

Refines == list = SubSeq(array, 1, len)
Ordered == \A i, j \in 1..Len(list) : i < j => list[i] < list[j]
GivenStay == [][\A i \in 1..Len(given) : given'[i] = given[i]]_vars
SilentWhenOff == [][~on => list' \in {list, <<>>}]_vars
=============================================================================
