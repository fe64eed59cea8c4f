---------------------------- MODULE GenOutlines ----------------------------
(* Outlines for replay: trees with their linked form, damaged heaps, and   *)
(* sessions of edits and saves.                                            *)
EXTENDS Outlines, Json

VARIABLES mode       \* what a random run does, and how long it is
gvars == <<vars, mode>>

Trace == [tree |-> ForestSeq(kids[Root]), open |-> {n \in DOMAIN open : open[n]},
          heap |-> {<<n, heap[n].up, heap[n].first, heap[n].last, heap[n].prev, heap[n].next, heap[n].count>> : n \in DOMAIN heap},
          damage |-> damage, read |-> Read(heap), files |-> files, log |-> mode.log]

(* every tree and every single damaged link *)
BInit == Init /\ mode = [n |-> 0, log |-> <<>>]
BNext == Next /\ UNCHANGED mode
BSpec == BInit /\ [][BNext]_gvars
BEmit == kids[Root] # <<>> => PrintT("TRACE " \o ToJson(Trace))

(* long random runs *)
Pick(S) == {RandomElement(S)}
SInit == Init /\ mode \in [n: 1..(MaxEdits + MaxDamage + 8), k: {"wide", "deep", "any", "app", "app"}, log: {<<>>}]
Pos(p) == Len(kids[p]) + 1
SNext ==
  /\ TLCGet("level") <= mode.n
  /\ IF edits < MaxEdits /\ damage = <<>> THEN
       \E c \in Pick(1..20) :
         IF Items = {} \/ (c <= 12 /\ Cardinality(DOMAIN heap) <= MaxItems) THEN
           CASE mode.k = "wide" -> \E p \in Pick(IF Items = {} \/ c < 9 THEN {Root} ELSE DOMAIN kids) : \E at \in Pick(1..Pos(p)) : Insert(p, at)
             [] mode.k = "deep" -> LET p == CHOOSE q \in DOMAIN kids : kids[q] = <<>> /\ \A o \in DOMAIN kids : kids[o] = <<>> => o <= q
                                   IN Insert(p, 1)
             [] OTHER -> \E p \in Pick(DOMAIN kids) : \E at \in Pick(1..Pos(p)) : Insert(p, at)
         ELSE IF mode.k = "app" /\ c <= 18 THEN
           IF c <= 14 /\ kids[Root] # <<>> THEN SetMarks
           ELSE IF c = 15 /\ app.cat < 4 THEN SetCatalog
           ELSE IF c = 16 /\ ~app.root THEN SetRoot
           ELSE IF app.root /\ app.cat > 0 /\ Len(files) < MaxSaves THEN Save
           ELSE IF ~app.root THEN SetRoot ELSE SetCatalog
         ELSE LET ts == {n \in Items : kids[n] # <<>>}
                  ls == {n \in Items : kids[n] = <<>>}
              IN IF c <= 15 /\ ts # {} THEN \E n \in Pick(ts) : Toggle(n)
                 ELSE IF c <= 18 THEN \E n \in Pick(Items) : \E p \in Pick({q \in DOMAIN kids : q # n /\ ~Up(n, q)}) : Move(n, p)
                 ELSE \E n \in Pick(ls) : Drop(n)
     ELSE \E n \in Pick(DOMAIN heap), f \in Pick({"first", "next", "first", "next", "last", "prev", "up"}) :
            \E to \in Pick({x \in DOMAIN heap : heap[n][f] # x}) : Damage(n, f, to)
  /\ mode' = [mode EXCEPT !.log =
       IF files' # files THEN Append(@, [a |-> "save"])
       ELSE IF app'.cat # app.cat THEN Append(@, [a |-> "cat"])
       ELSE IF app'.root # app.root THEN Append(@, [a |-> "root"])
       ELSE IF app'.marks # app.marks THEN Append(@, [a |-> "marks", m |-> app'.marks])
       ELSE @]
SSpec == SInit /\ [][SNext]_gvars
Ended == TLCGet("level") = mode.n + 1 \/ Len(damage) = MaxDamage
SEmit == Ended /\ (kids[Root] # <<>> \/ files # <<>>) => PrintT("TRACE " \o ToJson(Trace))
=============================================================================
