--------------------------- MODULE GenXFASettings ---------------------------
(* Packets for replay: every small one, and random big ones.                *)
EXTENDS XFASettings, Json

VARIABLE goal
gvars == <<vars, goal>>

Trace == [kind |-> tree[1].el, tree |-> tree, told |-> val]
BInit == Init /\ goal = 0
BNext == Next /\ UNCHANGED goal
BSpec == BInit /\ [][BNext]_gvars
BEmit == open = <<1>> => PrintT("TRACE " \o ToJson(Trace))

Pick(S) == {RandomElement(S)}
Free2 == CASE tree[1].el = "config" -> {"log", "suppressBanner", "pdfVersion", "level", "item-1", "a.b", "_x", "temp", "locale", "linearize"}
           [] tree[1].el = "connectionSet" -> {"uri", "wsdl", "operation", "soapAction", "user", "password", "dsn", "query", "timeout", "root", "Proxy"}
           [] OTHER -> {"fill", "align", "visible", "opacity", "para", "z-index", "caption"}
SInit == Init /\ goal \in 4..(MaxNodes * 2)
Can(e) == Schema[e].many \/ Count(e) = 0
SNext ==
  /\ TLCGet("level") <= goal
  /\ UNCHANGED goal
  /\ \E c \in Pick(1..20) :
     LET kids == IF Here.el \in Els THEN {e \in KidsOf(Here.el) : ~Schema[e].text /\ Can(e)} ELSE {}
         as == IF Here.el \in Els /\ Fresh THEN {a \in Schema[Here.el].attrs : a.x \notin DOMAIN Here.attrs} ELSE {}
         keeps == IF Here.el = "group" THEN TRUE ELSE Schema[Here.el].free # ""
     IN IF as # {} /\ c <= 12 THEN \E a \in Pick(as) : \E v \in Pick(Values(a.t, uses)) : Attr(a, v)
        ELSE IF c <= 15 /\ kids # {} THEN \E e \in Pick(kids) : Open(e)
        ELSE IF c <= 17 /\ Here.el = "calendar" THEN \E v \in Pick(Values("s", uses)) : Line("holiday", v)
        ELSE IF c <= 17 /\ keeps THEN
             \E x \in Pick({y \in Free2 : ~\E i \in 1..Len(tree) : tree[i].el = "free" /\ tree[i].x = y /\ KeeperIn(tree, i) = KeeperIn(tree, Top)} \cup {"last" \o ToString(uses)}) :
             \E v \in Pick(IF Schema[tree[KeeperIn(tree, Top)].el].free = "typed" THEN Typed(uses) ELSE Values("s", uses)) : Free(x, v)
        ELSE IF c = 18 /\ (IF Here.el = "group" THEN TRUE ELSE Schema[Here.el].free = "up") THEN \E x \in Pick({"agent", "area", "psMap"}) : Wrap(x)
        ELSE IF c = 19 /\ tree[1].el = "localeSet" THEN \E v \in Pick(Values("s", uses)) : Free("other", v)
        ELSE IF open # <<1>> THEN Close
        ELSE IF kids # {} THEN \E e \in Pick(kids) : Open(e)
        ELSE UNCHANGED vars
SSpec == SInit /\ [][SNext]_gvars
SEmit == TLCGet("level") = goal + 1 => PrintT("TRACE " \o ToJson(Trace))
=============================================================================
