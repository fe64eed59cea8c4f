----------------------------- MODULE GenCompare -----------------------------
(* Documents, edits and comparisons for replay.                             *)
EXTENDS Compare, Json
CONSTANTS MaxRounds
VARIABLES goal, log
gvars == <<vars, goal, log>>

Rows(x, y, oo) == [p \in Common(x, y) |-> More(x.pages[p].els, y.pages[p].els, oo)]
Told(x, y, oo) ==
  [o |-> oo, a |-> x, b |-> y, same |-> Same(x, y, oo), samepages |-> SamePages(x, y, oo),
   meta |-> MetaDiff(x, y, oo), marks |-> x.marks # y.marks,
   fields |-> {i \in 1..NFields : x.fields[i] # y.fields[i]},
   less |-> Rows(x, y, oo), more |-> Rows(y, x, oo)]
Emit == Len(log) = MaxRounds => PrintT("TRACE " \o ToJson([log |-> log]))

\* breadth first: one edit (two for the first document), every option
BInit == Init /\ goal = 0 /\ log = <<>>
BSpec == BInit /\ [][/\ UNCHANGED goal
                     /\ \/ (Make \/ Fork \/ Edit) /\ UNCHANGED log
                        \/ \E oo \in Options : /\ Start(oo) /\ log = <<>> /\ log' = <<Told(a, b, oo)>>]_gvars

Pick(S) == {RandomElement(S)}
Rnd(n) == RandomElement(1..n)
\* one random edit
One(d, kind) ==
  LET p == TLCEval(RandomElement(DOMAIN d.pages))
      els == d.pages[p].els
      k == TLCEval(RandomElement(Kinds))
      e == TLCEval(RandomElement(Els(k)))
      i == TLCEval(IF els = <<>> THEN 0 ELSE RandomElement(DOMAIN els))
      j == TLCEval(IF els = <<>> THEN 0 ELSE RandomElement(DOMAIN els))
  IN CASE kind = "put" /\ Len(els) < MaxEls -> Put(d, p, RandomElement(1..Len(els) + 1), e)
       [] kind = "again" /\ i # 0 /\ Len(els) < MaxEls -> Put(d, p, RandomElement(1..Len(els) + 1), els[i])
       [] kind = "drop" /\ i # 0 -> Drop(d, p, i)
       [] kind = "swap" /\ i # 0 -> Swap(d, p, i, j)
       [] kind = "place" /\ i # 0 -> Alter(d, p, i, [els[i] EXCEPT !.at = RandomElement(1..NP)])
       [] kind = "step" /\ i # 0 -> Alter(d, p, i, [els[i] EXCEPT !.at = IF @ = NP \/ (@ > 1 /\ RandomElement(BOOLEAN)) THEN @ - 1 ELSE @ + 1])
       [] kind = "nudge" /\ i # 0 /\ els[i].k # "note" -> Alter(d, p, i, [els[i] EXCEPT !.j = RandomElement(0..NJ)])
       [] kind = "word" /\ i # 0 -> Alter(d, p, i, [els[i] EXCEPT !.w = RandomElement(1..NW)])
       [] kind = "variant" /\ i # 0 -> Alter(d, p, i, [els[i] EXCEPT !.v = RandomElement(1..2)])
       [] kind = "look" /\ i # 0 /\ els[i].k # "image" -> Alter(d, p, i, [els[i] EXCEPT !.st = RandomElement(1..NS)])
       [] kind = "case" /\ i # 0 /\ els[i].k = "text" -> Alter(d, p, i, [els[i] EXCEPT !.c = RandomElement(Cases)])
       [] kind = "space" /\ i # 0 /\ els[i].k = "text" -> Alter(d, p, i, [els[i] EXCEPT !.s = RandomElement(Cases)])
       [] kind = "size" -> [d EXCEPT !.pages[p].size = RandomElement(1..2)]
       [] kind = "rot" -> [d EXCEPT !.pages[p].rot = RandomElement(0..3)]
       [] kind = "putpage" /\ Len(d.pages) < MaxPages -> PutPage(d, RandomElement(1..Len(d.pages) + 1), [d.pages[p] EXCEPT !.els = SubSeq(@, 1, Min2(Len(@), Rnd(3) - 1))])
       [] kind = "droppage" /\ Len(d.pages) > 1 -> DropPage(d, p)
       [] kind = "meta" -> [d EXCEPT !.meta[RandomElement(1..NMeta)] = RandomElement(0..NVals)]
       [] kind = "field" -> [d EXCEPT !.fields[RandomElement(1..NFields)] = RandomElement(0..NVals)]
       [] kind = "mark" /\ Len(d.marks) < MaxMarks -> LET ms == TLCEval(InsertAt(d.marks, RandomElement(1..Len(d.marks) + 1), Mark(Rnd(3), RandomElement(0..3), RandomElement(0..2)))) IN IF MarksOK(ms) THEN [d EXCEPT !.marks = ms] ELSE d
       [] kind = "unmark" /\ d.marks # <<>> -> LET ms == TLCEval(RemoveAt(d.marks, RandomElement(DOMAIN d.marks))) IN IF MarksOK(ms) THEN [d EXCEPT !.marks = ms] ELSE d
       [] kind = "remark" /\ d.marks # <<>> -> [d EXCEPT !.marks[RandomElement(DOMAIN d.marks)].to = RandomElement(0..3)]
       [] OTHER -> d
All == {"put", "step", "again", "drop", "swap", "place", "nudge", "word", "variant", "look", "case", "space", "size", "rot", "putpage", "droppage", "meta", "field", "mark", "unmark", "remark"}
\* what the edits of a trace are about: anything, or where things are, or what they are
Some(f) == CASE f = "where" -> {"step", "place", "nudge", "swap"}
             [] f = "what" -> {"word", "variant", "look", "case", "space"}
             [] f = "data" -> {"meta", "field", "mark", "unmark", "remark"}
             [] f = "marks" -> {"mark", "unmark", "remark"}
             [] OTHER -> All
Building == {"put", "again", "putpage", "meta", "field", "mark"}
\* (an argument, so that TLC does not take it for a constant and draw only once)
Opt(x) ==
  [case |-> RandomElement(IF x < 0 THEN {} ELSE BOOLEAN), space |-> RandomElement(BOOLEAN), ttol |-> RandomElement(0..2), gtol |-> RandomElement(0..2),
   gran |-> RandomElement({"element", "word", "char"}), meta |-> RandomElement({"all", "default", "none"}),
   sens |-> RandomElement({"normal", "strict", "relaxed", "threshold"}), moves |-> RandomElement(BOOLEAN)]
GInit == Init /\ log = <<>> /\ goal \in {[mk |-> m, n |-> k, f |-> f] : m \in {2, 6, 12, 25}, k \in {0, 1, 2, 5}, f \in {"any", "any2", "where", "what", "data", "marks"}}
\* texts whose look alone changes are not judged by word or character
Plain(d) == \A p \in DOMAIN d.pages : \A i \in DOMAIN d.pages[p].els : d.pages[p].els[i].k = "text" => d.pages[p].els[i].st = 1
SNext ==
  /\ UNCHANGED <<left, right, pairs, pc>>
  /\ UNCHANGED goal
  /\ IF edits < goal.mk THEN
       \E kind \in Pick(IF goal.f = "marks" THEN {"mark", "remark"} ELSE IF edits % 4 = 3 \/ goal.f = "data" THEN Building ELSE {"put"}) :
         a' = One(a, kind) /\ b' = a' /\ edits' = edits + 1 /\ UNCHANGED <<o, log>>
     ELSE IF edits < goal.mk + goal.n + Len(log) THEN
       \E kind \in Pick(Some(goal.f)) : b' = One(b, kind) /\ edits' = edits + 1 /\ UNCHANGED <<a, o, log>>
     ELSE IF Len(log) < MaxRounds THEN
       \E oo \in {TLCEval(Opt(edits))} :
         LET oo2 == IF Plain(a) /\ Plain(b) THEN oo ELSE [oo EXCEPT !.gran = "element"] IN
         /\ o' = oo2 /\ log' = Append(log, Told(a, b, oo2))
         /\ edits' = goal.mk
         /\ IF Rnd(3) = 1 THEN a' = b /\ UNCHANGED b ELSE UNCHANGED <<a, b>>
     ELSE FALSE
SSpec == GInit /\ [][SNext]_gvars
=============================================================================
