------------------------------- MODULE GenXFA -------------------------------
(* XFA forms and what happens to them, for replay.                          *)
EXTENDS XFA, Json
VARIABLES log, goal
gvars == <<vars, log, goal>>

Now == [tree |-> tree', list |-> list']
Start == [a |-> "start", fd |-> {}, ns |-> {}, from |-> 0, tree |-> tree', list |-> list']
Did(a, fd, ns, from) == [a |-> a, fd |-> {<<i, fd[i]>> : i \in DOMAIN fd}, ns |-> ns, from |-> from, tree |-> tree', list |-> list']
None == [i \in {} |-> 0]
Emit == steps = MaxOps => PrintT("TRACE " \o ToJson([aside |-> IF old = <<>> THEN aside ELSE old[1].aside, log |-> log]))
GInit == Init /\ log = <<>>

\* breadth first
BInit == GInit /\ goal = 0
BNext ==
  /\ UNCHANGED goal
  /\ \/ /\ UNCHANGED log
        /\ \/ \E k \in {"group", "field"}, up \in 0..MaxNodes, v \in NoVal..MaxVal : (k = "group" => v = 0) /\ list = <<>> /\ aside = <<>> /\ AddNode(k, up, v)
           \/ \E n \in 1..MaxNodes, v \in {1}, f \in BOOLEAN : list = <<>> /\ AddAside(n, v, f)
           \/ \E n \in KnownSet \cup Other : AddPacket(n)
     \/ Close /\ log' = <<Start>>
     \/ \E fd \in Fills : Fill(fd) /\ log' = Append(log, Did("fill", fd, {}, 0))
     \/ \E ns \in SUBSET KnownSet : \/ Rebuild(ns, Plain(tree), <<>>) /\ log' = Append(log, Did("rebuild", None, ns, 0))
                                    \/ BuildSome(ns) /\ log' = Append(log, Did("build", None, ns, 0))
BSpec == BInit /\ [][BNext]_gvars

\* at random
Pick(x) == {RandomElement(x)}
Coin(k) == RandomElement(1..k) = 1
SInit == GInit /\ goal \in [n : {1, 3, 8, 20, MaxNodes}, p : {1, 3, 9}, s : 0..MaxAside, deep : BOOLEAN]
Some(D, k) == LET m == {x \in D : RandomElement(1..k) = 1} IN TLCEval([i \in TLCEval(m) |-> RandomElement(0..MaxVal)])
Ups == LET u == {i \in (IF tree = <<>> THEN {0} ELSE Above(tree, Len(tree))) : i = 0 \/ tree[i].kind = "group"} IN
       IF goal.deep /\ u # {0} THEN {CHOOSE i \in u : \A j \in u : j <= i} ELSE u
Enough == Cardinality(Names) >= goal.p
SNext ==
  /\ UNCHANGED goal
  /\ IF ~closed THEN
       IF Len(tree) < goal.n THEN \E up \in Pick(Ups), k \in Pick({"field", "field", "group"}), v \in Pick(NoVal..MaxVal) :
            AddNode(IF Coin(3) THEN "group" ELSE "field", up, v) /\ UNCHANGED log
       ELSE IF Len(aside) < goal.s THEN \E n \in Pick(1..goal.n), v \in Pick(NoVal..MaxVal), f \in Pick(BOOLEAN) : AddAside(n, v, f) /\ UNCHANGED log
       ELSE IF ~Enough \/ (Coin(8) /\ ~("postamble" \in Names)) THEN
            \E n \in Pick((KnownSet \cup Other) \ (Names \cup (IF Enough THEN {} ELSE {"postamble"}))) : AddPacket(n) /\ UNCHANGED log
       ELSE Close /\ log' = <<Start>>
     ELSE
       \E c \in Pick(1..8), k \in Pick(1..4), ns \in {TLCEval({n \in KnownSet : Coin(3)})} :
         IF c <= 5 /\ HasData /\ Fields # {} THEN \E fd \in {Some(Fields, k)} : Fill(fd) /\ log' = Append(log, Did("fill", fd, {}, 0))
         ELSE IF c = 8 /\ ns \cap Names # {} THEN BuildSome(ns \cap Names) /\ log' = Append(log, Did("build", None, ns \cap Names, 0))
         ELSE IF old # <<>> /\ Coin(2) THEN \E i \in Pick(DOMAIN old) : Rebuild(ns, old[i].tree, old[i].aside) /\ log' = Append(log, Did("rebuild", None, ns, i))
         ELSE Rebuild(ns, Plain(tree), <<>>) /\ log' = Append(log, Did("rebuild", None, ns, 0))
SSpec == SInit /\ [][SNext]_gvars
=============================================================================
