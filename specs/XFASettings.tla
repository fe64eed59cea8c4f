---------------------------- MODULE XFASettings ----------------------------
(* The settings packets of an XFA form: config, localeSet, connectionSet    *)
(* and stylesheet.                                                          *)
(*                                                                          *)
(* A packet is a tree of elements. What each format knows is a schema: its  *)
(* elements, where they stand, the attributes they have and of which type,  *)
(* and whether elements the format does not name are kept as properties.    *)
(* The state is a packet that is being written, element by element, and the *)
(* facts a reader has learnt from it so far.                                *)
(*                                                                          *)
(*   Told(tree)     the facts of a packet, from its whole tree              *)
(*   Written(f)     the packet with the facts f                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS
  Kinds,      \* formats modelled
  MaxNodes,   \* elements of a packet
  MaxUses,    \* attributes and texts of a packet
  Classes     \* kinds of text

A(x, j, t) == [x |-> x, j |-> j, t |-> t]
(* an element: where it stands, its name, the name of what it tells, whether *)
(* there can be many of it, whether its text is told, its attributes, and    *)
(* what keeps elements the format does not name: "" is nothing, "up" is      *)
(* what the element around it keeps them in                                  *)
E(up, x, j, many, text, attrs, free) ==
  [up |-> up, x |-> x, j |-> j, many |-> many, text |-> text, attrs |-> attrs, free |-> free]
One(up, x, attrs, free) == E(up, x, <<x>>, FALSE, FALSE, attrs, free)
Style(x, attrs) == E("style", x, <<"properties", x>>, FALSE, FALSE, attrs, "")
Sides == {A("top", "top", "n"), A("right", "right", "n"), A("bottom", "bottom", "n"), A("left", "left", "n")}
Script == {A("contentType", "content_type", "s"), A("runAt", "run_at", "s")}

Schema ==
     "config" :> E("", "config", <<>>, FALSE, FALSE, {}, "own")
  @@ "present" :> One("config", "present", {A("renderPolicy", "render_policy", "s"), A("effectiveOutputPolicy", "effective_output_policy", "s")}, "up")
  @@ "present.pdf" :> One("present", "pdf", {A("version", "version", "s"), A("compression", "compression", "s"), A("linearized", "linearized", "b"),
        A("encryption", "encryption", "s"), A("embedFonts", "embed_fonts", "b"), A("tagged", "tagged", "b"), A("accessibility", "accessibility", "b")}, "up")
  @@ "present.xdp" :> One("present", "xdp", {A("version", "version", "s")}, "up")
  @@ "present.print" :> One("present", "print", {A("printerName", "printer_name", "s"), A("printerCap", "printer_cap", "s")}, "up")
  @@ "present.interactive" :> One("present", "interactive", {A("currentPage", "current_page", "i"), A("zoom", "zoom", "s"), A("viewMode", "view_mode", "s")}, "up")
  @@ "present.script" :> One("present", "script", Script, "up")
  @@ "validate" :> One("config", "validate", {A("scriptTest", "script_test", "s"), A("nullTest", "null_test", "s"), A("formatTest", "format_test", "s")}, "up")
  @@ "submit" :> One("config", "submit", {A("format", "format", "s"), A("target", "target", "s"), A("method", "method", "s"), A("embedPDF", "embed_pdf", "b"),
        A("xdpContent", "xdp_content", "s"), A("textEncoding", "text_encoding", "s"), A("embedXFA", "properties/embedXFA", "s"), A("retry", "properties/retry", "s")}, "up")
  @@ "destination" :> One("config", "destination", {A("type", "type", "s"), A("target", "target", "s")}, "up")
  @@ "acrobat" :> One("config", "acrobat", {A("autoSave", "auto_save", "b"), A("autoSaveTime", "auto_save_time", "i"), A("formType", "form_type", "s"), A("version", "version", "s")}, "up")
  @@ "common" :> One("config", "common", {A("dataPrefix", "data_prefix", "s"), A("timeStamp", "time_stamp", "s")}, "up")
  @@ "output" :> One("config", "output", {A("format", "format", "s"), A("destination", "destination", "s")}, "up")
  @@ "script" :> One("config", "script", Script, "up")
  @@ "trace" :> One("config", "trace", {A("enabled", "enabled", "b"), A("level", "level", "s")}, "up")

  @@ "localeSet" :> E("", "localeSet", <<>>, FALSE, FALSE, {A("default", "default", "s")}, "")
  @@ "locale" :> E("localeSet", "locale", <<"locales">>, TRUE, FALSE, {A("code", "code", "s"), A("name", "name", "s")}, "")
  @@ "calendar" :> One("locale", "calendar", {A("symbols", "symbols", "s"), A("firstDay", "first_day", "s"), A("weekend", "weekend", "s")}, "")
  @@ "holiday" :> E("calendar", "holiday", <<"holidays">>, TRUE, TRUE, {}, "")
  @@ "currency" :> One("locale", "currency", {A("symbol", "symbol", "s"), A("name", "name", "s"), A("precision", "precision", "i")}, "")
  @@ "datePattern" :> E("locale", "datePattern", <<"date_pattern">>, FALSE, FALSE, {A("format", "format", "s"), A("symbol", "symbol", "s")}, "")
  @@ "timePattern" :> E("locale", "timePattern", <<"time_pattern">>, FALSE, FALSE, {A("format", "format", "s"), A("symbol", "symbol", "s")}, "")
  @@ "numberPattern" :> E("locale", "numberPattern", <<"number_pattern">>, FALSE, FALSE, {A("format", "format", "s"), A("symbol", "symbol", "s"),
        A("grouping", "grouping", "s"), A("decimal", "decimal", "s"), A("precision", "precision", "i")}, "")
  @@ "text" :> One("locale", "text", {A("direction", "direction", "s"), A("encoding", "encoding", "s")}, "")

  @@ "connectionSet" :> E("", "connectionSet", <<>>, FALSE, FALSE, {}, "")
  @@ "connection" :> E("connectionSet", "connection", <<"connections">>, TRUE, FALSE, {A("name", "name", "s"), A("type", "type", "s")}, "own")
  @@ "dataDescription" :> E("connection", "dataDescription", <<"data_description">>, FALSE, FALSE,
        {A("ref", "ref", "s"), A("schema", "schema", "s"), A("namespace", "namespace", "s")}, "own")

  @@ "stylesheet" :> E("", "stylesheet", <<>>, FALSE, FALSE, {}, "")
  @@ "style" :> E("stylesheet", "style", <<"styles">>, TRUE, FALSE, {A("name", "name", "s"), A("type", "type", "s")}, "typed")
  @@ "font" :> Style("font", {A("family", "family", "s"), A("size", "size", "n"), A("weight", "weight", "s"), A("style", "style", "s"),
        A("color", "color", "s"), A("decoration", "decoration", "s")})
  @@ "border" :> Style("border", {A("width", "width", "n"), A("style", "style", "s"), A("color", "color", "s"), A("radius", "radius", "n")})
  @@ "margin" :> Style("margin", Sides)
  @@ "padding" :> Style("padding", Sides)
  @@ "position" :> Style("position", {A("x", "x", "n"), A("y", "y", "n")})
  @@ "size" :> Style("size", {A("width", "width", "n"), A("height", "height", "n")})

Els == DOMAIN Schema
Roots == {"config", "localeSet", "connectionSet", "stylesheet"}
KidsOf(e) == {x \in Els : Schema[x].up = e}

(* Names of elements the formats do not have: properties, where something   *)
(* keeps them.                                                              *)
FreeNames == {"timeout", "user", "uri", "fill"}
(* Elements around others that tell nothing themselves.                     *)
GroupNames == {"agent"}

(* Values: a text of some kind with a number to tell it from others, whole  *)
(* numbers, numbers in quarters, and truth values.                          *)
Texts(c, u) == "s:" \o c \o ":" \o ToString(u)
Values(t, u) ==
  CASE t = "s" -> {Texts(c, u) : c \in Classes}
    [] t = "i" -> {"i:0", "i:3", "i:-2"}
    [] t = "n" -> {"n:0", "n:6", "n:48", "n:-9"}
    [] OTHER -> {"b:0", "b:1"}
(* Values that tell the same as saying nothing                               *)
Nil == {"i:0", "n:0", "b:0"}
(* What a property that is kept by type can be: text that reads as a number  *)
(* is that number                                                           *)
Typed(u) == {Texts("word", u), Texts("odd", u), Texts("marks", u), "n:0", "n:6", "n:-9", "b:0", "b:1"}

VARIABLES
  tree,    \* elements of the packet, in the order of the document
  open,    \* those that are open, innermost last
  val,     \* facts told so far
  uses     \* attributes and texts so far
vars == <<tree, open, val, uses>>

Node(up, el, x, attrs, text) == [up |-> up, el |-> el, x |-> x, attrs |-> attrs, text |-> text]
Top == open[Len(open)]

----------------------------------------------------------------------------
(* What a whole tree tells                                                   *)
RECURSIVE PathIn(_, _)
PathIn(tr, i) ==
  IF tr[i].up = 0 THEN <<>>
  ELSE LET s == Schema[tr[i].el]
           p == PathIn(tr, tr[i].up)
       IN p \o s.j \o (IF s.many THEN <<ToString(Cardinality({k \in 1..i : tr[k].up = tr[i].up /\ tr[k].el = tr[i].el}))>> ELSE <<>>)
(* the element that keeps what the format does not name, or 0                *)
RECURSIVE KeeperIn(_, _)
KeeperIn(tr, i) ==
  IF tr[i].el \in {"free", "group"} THEN KeeperIn(tr, tr[i].up)
  ELSE IF Schema[tr[i].el].free = "up" THEN KeeperIn(tr, tr[i].up)
  ELSE IF Schema[tr[i].el].free = "" THEN 0 ELSE i

ToldBy(tr, i) ==
  LET n == tr[i] IN
  IF n.el = "group" THEN {}
  ELSE IF n.el = "free" THEN
    LET k == KeeperIn(tr, i) IN
    IF k = 0 \/ n.text = "" THEN {} ELSE {<<PathIn(tr, k) \o <<"properties", n.x>>, n.text>>}
  ELSE LET p == PathIn(tr, i) s == Schema[n.el] IN
    (IF s.text THEN (IF n.text = "" THEN {} ELSE {<<p, n.text>>})
     ELSE IF n.up = 0 THEN {} ELSE {<<p, "{}">>})
    \cup {<<p \o <<a.j>>, n.attrs[a.x]>> : a \in {b \in s.attrs : b.x \in DOMAIN n.attrs /\ n.attrs[b.x] \notin Nil}}
Told(tr) == UNION {ToldBy(tr, i) : i \in 1..Len(tr)}

----------------------------------------------------------------------------
(* The packet with given facts: elements in the order of their names         *)
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SeqOf(S \ {x})
Has(f, p) == \E q \in f : Len(q[1]) >= Len(p) /\ SubSeq(q[1], 1, Len(p)) = p
Val(f, p) == (CHOOSE q \in f : q[1] = p)[2]

RECURSIVE W(_, _, _, _, _)
RECURSIVE WKids(_, _, _, _, _)
RECURSIVE WMany(_, _, _, _, _, _)
RECURSIVE WFree(_, _, _, _)
(* appends element e with path p under node up to the tree tr                *)
W(f, tr, up, e, p) ==
  LET s == Schema[e]
      as == {a \in s.attrs : \E q \in f : q[1] = p \o <<a.j>>}
      n == Node(up, e, s.x, [x \in {a.x : a \in as} |-> Val(f, p \o <<(CHOOSE a \in as : a.x = x).j>>)],
                IF s.text /\ Has(f, p) THEN Val(f, p) ELSE "")
      t1 == Append(tr, n)
      me == Len(t1)
      t2 == WKids(f, t1, me, SeqOf(KidsOf(e)), p)
      named == {q[1][Len(p) + 2] : q \in {r \in f : Len(r[1]) = Len(p) + 2 /\ SubSeq(r[1], 1, Len(p)) = p /\ r[1][Len(p) + 1] = "properties" /\ r[2] # "{}"}}
  IN IF s.free \in {"own", "typed"} THEN WFree(f, t2, me, <<p, SeqOf(named)>>) ELSE t2
WKids(f, tr, up, es, p) ==
  IF es = <<>> THEN tr
  ELSE LET e == Head(es)
           s == Schema[e]
           q == p \o s.j
           t == IF s.many THEN WMany(f, tr, up, e, q, 1) ELSE IF Has(f, q) THEN W(f, tr, up, e, q) ELSE tr
       IN WKids(f, t, up, Tail(es), p)
WMany(f, tr, up, e, q, k) ==
  IF ~Has(f, q \o <<ToString(k)>>) THEN tr ELSE WMany(f, W(f, tr, up, e, q \o <<ToString(k)>>), up, e, q, k + 1)
WFree(f, tr, up, pn) ==
  IF pn[2] = <<>> THEN tr
  ELSE LET x == Head(pn[2]) IN
       WFree(f, Append(tr, Node(up, "free", x, <<>>, Val(f, pn[1] \o <<"properties", x>>))), up, <<pn[1], Tail(pn[2])>>)
Written(root, f) == W(f, <<>>, 0, root, <<>>)

----------------------------------------------------------------------------
(* Writing a packet                                                          *)
Here == tree[Top]
Fresh == Top = Len(tree) /\ Here.text = ""       \* nothing inside it yet

Init ==
  \E k \in Kinds :
    /\ tree = <<Node(0, k, Schema[k].x, <<>>, "")>>
    /\ open = <<1>> /\ val = {} /\ uses = 0

(* where the open element is told *)
PathNow == PathIn(tree, Top)
Count(e) == Cardinality({k \in 1..Len(tree) : tree[k].up = Top /\ tree[k].el = e})

Open(e) ==
  /\ Len(tree) < MaxNodes
  /\ Here.el \in Els /\ e \in KidsOf(Here.el) /\ ~Schema[e].text
  /\ Schema[e].many \/ Count(e) = 0
  /\ tree' = Append(tree, Node(Top, e, Schema[e].x, <<>>, ""))
  /\ open' = Append(open, Len(tree'))
  /\ val' = val \cup {<<PathNow \o Schema[e].j \o (IF Schema[e].many THEN <<ToString(Count(e) + 1)>> ELSE <<>>), "{}">>}
  /\ UNCHANGED uses

(* an element the format does not name, around others *)
Wrap(x) ==
  /\ Len(tree) < MaxNodes
  /\ IF Here.el = "group" THEN TRUE ELSE Schema[Here.el].free = "up"
  /\ tree' = Append(tree, Node(Top, "group", x, <<>>, ""))
  /\ open' = Append(open, Len(tree'))
  /\ UNCHANGED <<val, uses>>

Attr(a, v) ==
  /\ uses < MaxUses
  /\ Here.el \in Els /\ Fresh
  /\ a \in Schema[Here.el].attrs /\ a.x \notin DOMAIN Here.attrs
  /\ v \in Values(a.t, uses)
  /\ tree' = [tree EXCEPT ![Top].attrs = [x \in (DOMAIN @) \cup {a.x} |-> IF x = a.x THEN v ELSE @[x]]]
  /\ val' = IF v \in Nil THEN val ELSE val \cup {<<PathNow \o <<a.j>>, v>>}
  /\ uses' = uses + 1
  /\ UNCHANGED open

(* an element with text: one of the format, or one it does not name *)
Line(e, v) ==
  /\ Len(tree) < MaxNodes /\ uses < MaxUses
  /\ Here.el \in Els /\ e \in KidsOf(Here.el) /\ Schema[e].text
  /\ v \in Values("s", uses)
  /\ tree' = Append(tree, Node(Top, e, Schema[e].x, <<>>, v))
  /\ val' = val \cup {<<PathNow \o Schema[e].j \o <<ToString(Count(e) + 1)>>, v>>}
  /\ uses' = uses + 1
  /\ UNCHANGED open

Free(x, v) ==
  /\ Len(tree) < MaxNodes /\ uses < MaxUses
  /\ LET k == IF (IF Here.el = "group" THEN TRUE ELSE Schema[Here.el].free # "") THEN KeeperIn(tree, Top) ELSE 0 IN
     /\ v \in IF k # 0 /\ Schema[tree[k].el].free = "typed" THEN Typed(uses) ELSE Values("s", uses)
     /\ ~\E i \in 1..Len(tree) : tree[i].el = "free" /\ tree[i].x = x /\ KeeperIn(tree, i) = k
     /\ val' = IF k = 0 THEN val ELSE val \cup {<<PathIn(tree, k) \o <<"properties", x>>, v>>}
  /\ tree' = Append(tree, Node(Top, "free", x, <<>>, v))
  /\ uses' = uses + 1
  /\ UNCHANGED open

Close == open # <<1>> /\ open' = SubSeq(open, 1, Len(open) - 1) /\ UNCHANGED <<tree, val, uses>>

Next ==
  \/ \E e \in Els : Open(e)
  \/ \E x \in GroupNames : Wrap(x)
  \/ \E e \in Els : \E a \in Schema[e].attrs : Here.el = e /\ \E v \in Values(a.t, uses) : Attr(a, v)
  \/ \E v \in Values("s", uses) : Line("holiday", v)
  \/ \E x \in FreeNames : \E v \in Values("s", uses) \cup Typed(uses) : Free(x, v)
  \/ Close
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
(* What is learnt element by element is what the whole packet tells          *)
Learnt == val = Told(tree)
(* Every fact is told once                                                   *)
OneValue == \A p, q \in val : p[1] = q[1] => p = q
(* A packet written from what was told tells the same                        *)
Survives == Told(Written(tree[1].el, val)) = val
=============================================================================
