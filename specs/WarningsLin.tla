---------------------------- MODULE WarningsLin ----------------------------
(***************************************************************************)
(* Trace validation: histories of calls made by several goroutines on one  *)
(* real collector, each with the moments it was called and it returned and *)
(* what it answered.  A history is fine if its calls can be put in one     *)
(* order that respects those moments and in which every answer is the one  *)
(* the collector of module Warnings gives (linearizability).               *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
Traces == JsonDeserialize("recorded.json")
VARIABLE tid
Init == tid \in 1..Len(Traces)
Next == UNCHANGED tid
Spec == Init /\ [][Next]_tid
Sel(s, P(_)) == SelectSeq(s, P)
(* answer and next state of call c on state s = [on, list]; list holds <<id, lvl, code>> *)
Ids(l) == [i \in 1..Len(l) |-> l[i][1]]
Answer(c, s) ==
  CASE c.a = "all"   -> Ids(s.list)
    [] c.a = "count" -> <<Len(s.list)>>
    [] c.a = "has"   -> <<IF s.list = <<>> THEN 0 ELSE 1>>
    [] c.a = "isOn"  -> <<IF s.on THEN 1 ELSE 0>>
    [] c.a = "level" -> Ids(SelectSeq(s.list, LAMBDA w : w[2] = c.l))
    [] c.a = "code"  -> Ids(SelectSeq(s.list, LAMBDA w : w[3] = c.c))
    [] OTHER -> <<>>
After(c, s) ==
  CASE c.a = "add" /\ s.on -> [s EXCEPT !.list = Append(@, <<c.id, c.l, c.c>>)]
    [] c.a = "clear" -> [s EXCEPT !.list = <<>>]
    [] c.a = "on"  -> [s EXCEPT !.on = TRUE]
    [] c.a = "off" -> [s EXCEPT !.on = FALSE]
    [] OTHER -> s
RECURSIVE Lin(_, _, _)
Lin(cs, todo, s) ==
  \/ todo = {}
  \/ \E i \in todo :
       /\ \A j \in todo : j # i => cs[j].ret > cs[i].call   \* nothing left had to come before it
       /\ cs[i].res = Answer(cs[i], s)
       /\ Lin(cs, todo \ {i}, After(cs[i], s))
(* Histories in which g goroutines each added `per` warnings and nobody     *)
(* cleared: whatever the interleaving, the final list is a merge of theirs. *)
Merged(final, g, per) ==
  /\ Len(final) = g * per
  /\ \A k \in 1..g : SelectSeq(final, LAMBDA x : x \div 1000 = k) = [j \in 1..per |-> 1000 * k + j]
ObsOK == LET t == Traces[tid] cs == t.calls IN
         IF t.g > 0 THEN Merged(t.final, t.g, t.per)
         ELSE Lin(cs, 1..Len(cs), [on |-> TRUE, list |-> <<>>])
=============================================================================
