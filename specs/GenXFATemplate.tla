--------------------------- MODULE GenXFATemplate ---------------------------
(* Templates for replay: every small one, and random big ones.              *)
EXTENDS XFATemplate, Json

VARIABLE goal
gvars == <<vars, goal>>

Trace == [kind |-> "template", tree |-> tree, told |-> val]
BInit == Init /\ goal = 0
BNext == Next /\ UNCHANGED goal
BSpec == BInit /\ [][BNext]_gvars
BEmit == open = <<1>> => PrintT("TRACE " \o ToJson(Trace))

Pick(S) == {RandomElement(S)}
RandomCheck(u) ==
  LET k == TLCEval({x \in {"pattern", "custom_script", "error_message", "min_length", "max_length", "min_value", "max_value"} : RandomElement(1..(3 + 0 * u)) = 1})
  IN [x \in k |-> IF x \in {"min_length", "max_length"} THEN RandomElement({"i:0", "i:3", "i:40"})
                  ELSE IF x \in {"min_value", "max_value"} THEN RandomElement({"n:0", "n:-9", "n:6", "n:402"})
                  ELSE RandomElement(Texts(u))]
RandomList(n, u) == TLCEval([k \in 1..n |-> "s:" \o RandomElement(Classes) \o ":" \o ToString(100 * u + k)])
(* names of different fields differ *)
Names(u) == {"s:" \o c \o ":" \o ToString(u) : c \in Classes \ {"bool"}} \cup {""}
SInit == Init /\ goal \in 6..(MaxNodes + MaxUses)
SNext ==
  /\ TLCGet("level") <= goal
  /\ UNCHANGED goal
  /\ \E c \in Pick(1..20), v \in Pick(Texts(uses)) :
     IF ~InField THEN
       IF Len(tree) = 1 /\ c <= 6 /\ Titles \ DOMAIN tree[1].at # {} THEN \E x \in Pick(Titles \ DOMAIN tree[1].at) : Title(x, v)
       ELSE IF c <= 5 /\ Len(open) < 5 THEN \E b \in Pick(Boxes) : Box(b)
       ELSE IF c <= 6 THEN Draw(v)
       ELSE IF c <= 8 /\ open # <<1>> THEN Close
       ELSE \E nm \in Pick(Names(uses)) : Field(nm)
     ELSE IF Fresh /\ c <= 13 /\ DOMAIN AttrValues \ DOMAIN Here.at # {} THEN
       \E x \in Pick(DOMAIN AttrValues \ DOMAIN Here.at) : \E w \in Pick(AttrValues[x] \ {""}) : Attr(x, w)
     ELSE IF c <= 9 /\ \E s \in DOMAIN Sayings : ENABLED Say(s, v) THEN \E s \in Pick({s2 \in DOMAIN Sayings : ENABLED Say(s2, v)}) : Say(s, v)
     ELSE IF c <= 10 /\ In(tree, Top, "ui") = {} THEN \E w \in Pick(DOMAIN WidgetOf) : Widget(w)
     ELSE IF c <= 12 /\ In(tree, Top, "items") = {} THEN
       \E n \in Pick(1..4), s \in Pick({TRUE, FALSE}) : \E l \in {RandomList(n + 0 * uses, uses)}, m \in {RandomList(n + 0 * uses, uses + 50)} : Items(l, IF s THEN m ELSE <<>>)
     ELSE IF c <= 14 /\ In(tree, Top, "validate") = {} THEN \E k \in {RandomCheck(uses)} : Check(k)
     ELSE IF c <= 17 /\ "name" \in DOMAIN Here.at THEN
       \E e \in Pick({"event", "event", "calculate"}), a \in Pick(DOMAIN RuleOf), w \in Pick({v, v, ""}) :
          IF e = "calculate" /\ In(tree, Top, "calculate") = {} THEN Rule("calculate", "", v) ELSE Rule("event", a, w)
     ELSE Close
SSpec == SInit /\ [][SNext]_gvars
SEmit == TLCGet("level") = goal + 1 => PrintT("TRACE " \o ToJson(Trace))
=============================================================================
