---------------------------- MODULE XFATemplate ----------------------------
(* The template packet of an XFA form: the questions of the form, in boxes  *)
(* inside boxes, and the rules that belong to them.                         *)
(*                                                                          *)
(* A template is written element by element; what a reader has learnt so far *)
(* is a set of facts about the form. Things can be said in more than one    *)
(* way: a label as a label or a caption, the kind of answer by an attribute *)
(* or by the widget that takes it, what is chosen from by values alone or by *)
(* texts with values of their own.                                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS MaxNodes, MaxUses, MaxFields, Classes

Texts(u) == {"s:" \o c \o ":" \o ToString(u) : c \in Classes}
Layout == {"n:6", "n:0", "n:-9", "m:12"}           \* numbers, and a length with its unit

TypeOf ==
     "text" :> "text" @@ "textField" :> "text" @@ "textArea" :> "textarea" @@ "textEdit" :> "textarea"
  @@ "radio" :> "radio" @@ "radioButton" :> "radio" @@ "checkbox" :> "checkbox" @@ "checkButton" :> "checkbox"
  @@ "select" :> "select" @@ "choice" :> "select" @@ "dropdown" :> "select" @@ "listBox" :> "select" @@ "choiceList" :> "select"
  @@ "numeric" :> "number" @@ "decimal" :> "number" @@ "integer" :> "number" @@ "float" :> "number"
  @@ "date" :> "date" @@ "dateField" :> "date" @@ "email" :> "email" @@ "emailField" :> "email"
  @@ "button" :> "button" @@ "signature" :> "signature" @@ "signatureField" :> "signature" @@ "other" :> "text"
(* how a kind of answer is written *)
Spelled == [t \in {TypeOf[x] : x \in DOMAIN TypeOf} |->
  CASE t = "textarea" -> "textEdit" [] t = "radio" -> "radioButton" [] t = "checkbox" -> "checkButton"
    [] t = "select" -> "choiceList" [] t = "number" -> "numeric" [] OTHER -> t]
WidgetOf ==
     "textEdit" :> "text" @@ "multiLine" :> "textarea" @@ "numericEdit" :> "number" @@ "dateTimeEdit" :> "date"
  @@ "choiceList" :> "select" @@ "checkButton" :> "checkbox" @@ "button" :> "button" @@ "signature" :> "signature" @@ "passwordEdit" :> "text"
RuleOf ==
     "initialize" :> "set_value" @@ "enter" :> "set_value" @@ "change" :> "calculate" @@ "exit" :> "calculate"
  @@ "validate" :> "validate" @@ "click" :> "calculate"
ActivityOf == "set_value" :> "enter" @@ "calculate" :> "change" @@ "validate" :> "validate"

Access == {"", "readOnly", "hidden", "open", "both"}
ReadOnly(a) == a \in {"readOnly", "both"}
Hidden(a) == a \in {"hidden", "both"}

Boxes == {"subform", "exclGroup", "area"}
(* what can be said of a field once, in one of several ways *)
Sayings == [label |-> "label", caption |-> "label", desc |-> "description", description |-> "description",
            value |-> "default", valuetext |-> "default"]
Titles == {"title", "description", "version"}
Bounds == {"min_length", "max_length", "min_value", "max_value"}

VARIABLES
  tree,    \* elements, in the order of the document
  open,    \* those that are open
  val,     \* facts told so far
  uses
vars == <<tree, open, val, uses>>

(* an element: attributes and texts by name, and lists of texts *)
Node(up, el, at, list, saves) == [up |-> up, el |-> el, at |-> at, list |-> list, saves |-> saves]
None == [x \in {} |-> ""]
Get(f, x) == IF x \in DOMAIN f THEN f[x] ELSE ""
With(f, x, v) == IF v = "" THEN f ELSE [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Fact(p, v) == IF v \in {"", "n:zero"} THEN {} ELSE {<<p, v>>}
Q(k) == <<"questions", ToString(k)>>
R(k) == <<"rules", ToString(k)>>
Bool(b) == IF b THEN "b:1" ELSE ""

----------------------------------------------------------------------------
(* What a whole template tells                                               *)
FieldsOf(tr) == {i \in 1..Len(tr) : tr[i].el = "field"}
RulesOf(tr) == {i \in 1..Len(tr) : tr[i].el \in {"event", "calculate"}}
Nth(S, i) == Cardinality({k \in S : k <= i})
In(tr, i, el) == {k \in 1..Len(tr) : tr[k].up = i /\ tr[k].el = el}

TypeIn(tr, i) ==
  IF Get(tr[i].at, "type") # "" THEN TypeOf[tr[i].at["type"]]
  ELSE IF In(tr, i, "ui") # {} THEN WidgetOf[tr[CHOOSE k \in In(tr, i, "ui") : TRUE].at["widget"]] ELSE "text"

OptionFacts(q, n) ==
  UNION {LET p == q \o <<"options", ToString(k)>> IN
         {<<p, "{}">>, <<p \o <<"label">>, n.list[k]>>, <<p \o <<"value">>, IF n.saves = <<>> THEN n.list[k] ELSE n.saves[k]>>} : k \in 1..Len(n.list)}
CheckFacts(q, at) ==
  {<<q \o <<"validation">>, "{}">>} \cup UNION {Fact(q \o <<"validation", x>>, Get(at, x)) : x \in Bounds \cup {"pattern", "custom_script", "error_message"}}
RuleFacts(tr, i) ==
  LET r == R(Nth(RulesOf(tr), i)) n == tr[i]
      script == Get(n.at, "script")
  IN {<<r, "{}">>, <<r \o <<"type">>, IF n.el = "calculate" THEN "t:calculate" ELSE "t:" \o RuleOf[n.at["activity"]]>>}
     \cup Fact(r \o <<"source">>, Get(tr[n.up].at, "name"))
     \cup (IF script = "" THEN {} ELSE {<<r \o <<"actions", "1">>, "{}">>, <<r \o <<"actions", "1", "script">>, script>>})
FieldFacts(tr, i) ==
  LET q == Q(Nth(FieldsOf(tr), i)) n == tr[i] a == Get(n.at, "access") IN
  {<<q, "{}">>, <<q \o <<"type">>, "t:" \o TypeIn(tr, i)>>, <<q \o <<"page_number">>, IF Get(n.at, "page") = "" THEN "i:1" ELSE n.at["page"]>>}
  \cup Fact(q \o <<"name">>, Get(n.at, "name"))
  \cup Fact(q \o <<"required">>, Get(n.at, "required"))
  \cup Fact(q \o <<"read_only">>, Bool(ReadOnly(a))) \cup Fact(q \o <<"hidden">>, Bool(Hidden(a)))
  \cup UNION {Fact(q \o <<"properties", x>>, Get(n.at, x)) : x \in {"x", "y", "w", "h"}}
  \cup UNION {Fact(q \o <<Sayings[s]>>, tr[k].at["text"]) : <<s, k>> \in {<<s2, k2>> \in (DOMAIN Sayings) \X (1..Len(tr)) : tr[k2].up = i /\ tr[k2].el = s2}}
  \cup UNION {OptionFacts(q, tr[k]) : k \in In(tr, i, "items")}
  \cup UNION {CheckFacts(q, tr[k].at) : k \in In(tr, i, "validate")}
Told(tr) ==
  UNION {Fact(<<"metadata", x>>, Get(tr[1].at, x)) : x \in Titles}
  \cup UNION {FieldFacts(tr, i) : i \in FieldsOf(tr)}
  \cup UNION {RuleFacts(tr, i) : i \in RulesOf(tr)}

----------------------------------------------------------------------------
(* The template with given facts                                             *)
At(f, p) == IF \E x \in f : x[1] = p THEN (CHOOSE x \in f : x[1] = p)[2] ELSE ""
RECURSIVE Size(_, _, _)
Size(f, p, k) == IF At(f, p \o <<ToString(k + 1)>>) = "" THEN k ELSE Size(f, p, k + 1)
RECURSIVE Attrs(_, _, _)
Attrs(f, p, xs) == IF xs = <<>> THEN None ELSE With(Attrs(f, p, Tail(xs)), Head(xs), At(f, p \o <<Head(xs)>>))
T1(v) == CHOOSE t \in DOMAIN Spelled : "t:" \o t = v
A1(v) == CHOOSE t \in DOMAIN ActivityOf : "t:" \o t = v
RECURSIVE WRules(_, _, _, _)
WRules(f, tr, me, k) ==
  IF At(f, R(k)) = "" THEN tr
  ELSE IF At(f, R(k) \o <<"source">>) # Get(tr[me].at, "name") THEN WRules(f, tr, me, k + 1)
  ELSE WRules(f, Append(tr, Node(me, "event", With([activity |-> ActivityOf[A1(At(f, R(k) \o <<"type">>))]], "script", At(f, R(k) \o <<"actions", "1", "script">>)), <<>>, <<>>)), me, k + 1)
WOne(f, tr, k) ==
  LET q == Q(k)
      ro == At(f, q \o <<"read_only">>) # "" hi == At(f, q \o <<"hidden">>) # ""
      at0 == Attrs(f, q, <<"name", "required">>)
      at1 == With(With(With(at0, "type", Spelled[T1(At(f, q \o <<"type">>))]), "page", At(f, q \o <<"page_number">>)),
                  "access", IF ro /\ hi THEN "both" ELSE IF ro THEN "readOnly" ELSE IF hi THEN "hidden" ELSE "")
      at2 == With(With(With(With(at1, "x", At(f, q \o <<"properties", "x">>)), "y", At(f, q \o <<"properties", "y">>)),
                       "w", At(f, q \o <<"properties", "w">>)), "h", At(f, q \o <<"properties", "h">>))
      t1 == Append(tr, Node(1, "field", at2, <<>>, <<>>))
      me == Len(t1)
      Say(t, el, p) == IF At(f, q \o <<p>>) = "" THEN t ELSE Append(t, Node(me, el, [text |-> At(f, q \o <<p>>)], <<>>, <<>>))
      t2 == Say(Say(Say(t1, "label", "label"), "desc", "description"), "value", "default")
      m == Size(f, q \o <<"options">>, 0)
      t3 == IF m = 0 THEN t2
            ELSE Append(t2, Node(me, "items", None, [o \in 1..m |-> At(f, q \o <<"options", ToString(o), "label">>)],
                                                    [o \in 1..m |-> At(f, q \o <<"options", ToString(o), "value">>)]))
      t4 == IF At(f, q \o <<"validation">>) = "" THEN t3
            ELSE Append(t3, Node(me, "validate", Attrs(f, q \o <<"validation">>, <<"pattern", "custom_script", "error_message", "min_length", "max_length", "min_value", "max_value">>), <<>>, <<>>))
  IN WRules(f, t4, me, 1)
RECURSIVE WAll(_, _, _)
WAll(f, tr, k) == IF At(f, Q(k)) = "" THEN tr ELSE WAll(f, WOne(f, tr, k), k + 1)
Written(f) == WAll(f, <<Node(0, "template", Attrs(f, <<"metadata">>, <<"title", "description", "version">>), <<>>, <<>>)>>, 1)

----------------------------------------------------------------------------
(* Writing a template                                                        *)
Top == open[Len(open)]
Here == tree[Top]
Fresh == Top = Len(tree)
NF == Cardinality(FieldsOf(tree))
Now == Q(NF)                       \* the field that is open, if one is
InField == Here.el = "field"
Replace(p, v) == {x \in val : x[1] # p} \cup Fact(p, v)
Room == Len(tree) < MaxNodes

Init == tree = <<Node(0, "template", None, <<>>, <<>>)>> /\ open = <<1>> /\ val = {} /\ uses = 0

Title(x, v) ==
  /\ uses < MaxUses /\ Len(tree) = 1 /\ x \in Titles /\ x \notin DOMAIN tree[1].at
  /\ tree' = [tree EXCEPT ![1].at = With(@, x, v)]
  /\ val' = val \cup {<<<<"metadata", x>>, v>>} /\ uses' = uses + 1 /\ UNCHANGED open

Push(n, adds) == tree' = Append(tree, n) /\ open' = Append(open, Len(tree) + 1) /\ val' = val \cup adds
Put(n, new) == tree' = Append(tree, n) /\ val' = new /\ UNCHANGED open

Box(b) == ~InField /\ Room /\ Push(Node(Top, b, None, <<>>, <<>>), {}) /\ UNCHANGED uses
(* something to look at that has a caption and a value but asks nothing *)
Draw(v) == ~InField /\ Room /\ uses < MaxUses /\ Put(Node(Top, "draw", [text |-> v], <<>>, <<>>), val) /\ uses' = uses + 1
Field(nm) ==
  /\ ~InField /\ Room /\ NF < MaxFields
  /\ LET q == Q(NF + 1) IN
     Push(Node(Top, "field", With(None, "name", nm), <<>>, <<>>),
          {<<q, "{}">>, <<q \o <<"type">>, "t:text">>, <<q \o <<"page_number">>, "i:1">>} \cup Fact(q \o <<"name">>, nm))
  /\ uses' = uses + 1
Attr(x, v) ==
  /\ InField /\ Fresh /\ uses < MaxUses /\ x \notin DOMAIN Here.at
  /\ tree' = [tree EXCEPT ![Top].at = With(@, x, v)]
  /\ val' = CASE x = "type" -> Replace(Now \o <<"type">>, "t:" \o TypeOf[v])
              [] x = "page" -> Replace(Now \o <<"page_number">>, v)
              [] x = "required" -> Replace(Now \o <<"required">>, v)
              [] x = "access" -> val \cup Fact(Now \o <<"read_only">>, Bool(ReadOnly(v))) \cup Fact(Now \o <<"hidden">>, Bool(Hidden(v)))
              [] OTHER -> Replace(Now \o <<"properties", x>>, v)
  /\ uses' = uses + 1 /\ UNCHANGED open
Say(s, v) ==
  /\ InField /\ Room /\ uses < MaxUses
  /\ ~\E k \in 1..Len(tree) : tree[k].up = Top /\ tree[k].el \in DOMAIN Sayings /\ Sayings[tree[k].el] = Sayings[s]
  /\ Put(Node(Top, s, [text |-> v], <<>>, <<>>), Replace(Now \o <<Sayings[s]>>, v)) /\ uses' = uses + 1
Widget(w) ==
  /\ InField /\ Room /\ In(tree, Top, "ui") = {}
  /\ Put(Node(Top, "ui", [widget |-> w], <<>>, <<>>), IF "type" \in DOMAIN Here.at THEN val ELSE Replace(Now \o <<"type">>, "t:" \o WidgetOf[w]))
  /\ UNCHANGED uses
Items(list, saves) ==
  /\ InField /\ Room /\ In(tree, Top, "items") = {}
  /\ LET n == Node(Top, "items", None, list, saves) IN Put(n, val \cup OptionFacts(Now, n))
  /\ uses' = uses + 1
Check(at) ==
  /\ InField /\ Room /\ In(tree, Top, "validate") = {}
  /\ Put(Node(Top, "validate", at, <<>>, <<>>), val \cup CheckFacts(Now, at)) /\ uses' = uses + 1
(* rules need a field with a name *)
Rule(el, act, v) ==
  /\ InField /\ Room /\ uses < MaxUses /\ "name" \in DOMAIN Here.at
  /\ el = "calculate" => In(tree, Top, "calculate") = {} /\ v # ""
  /\ LET at == With(IF el = "event" THEN [activity |-> act] ELSE None, "script", v)
         r == R(Cardinality(RulesOf(tree)) + 1)
     IN Put(Node(Top, el, at, <<>>, <<>>),
            val \cup {<<r, "{}">>, <<r \o <<"type">>, IF el = "event" THEN "t:" \o RuleOf[act] ELSE "t:calculate">>, <<r \o <<"source">>, Here.at["name"]>>}
                \cup (IF v = "" THEN {} ELSE {<<r \o <<"actions", "1">>, "{}">>, <<r \o <<"actions", "1", "script">>, v>>}))
  /\ uses' = uses + 1
Close == open # <<1>> /\ open' = SubSeq(open, 1, Len(open) - 1) /\ UNCHANGED <<tree, val, uses>>

AttrValues == [type |-> DOMAIN TypeOf, page |-> {"i:1", "i:3"}, required |-> {"b:1", ""}, access |-> Access \ {""},
               x |-> Layout, y |-> Layout, w |-> Layout, h |-> Layout]
Checks(u) ==
  {None, [pattern |-> "s:word:" \o ToString(u)], [custom_script |-> "s:marks:" \o ToString(u)], [error_message |-> "s:space:" \o ToString(u)],
   [min_length |-> "i:0", max_length |-> "i:3"], [min_value |-> "n:-9", max_value |-> "n:6"],
   [pattern |-> "s:marks:" \o ToString(u), error_message |-> "s:word:" \o ToString(u), max_length |-> "i:3"]}
Lists(u) == {<<"s:word:" \o ToString(u)>>, <<"s:word:" \o ToString(u), "s:marks:" \o ToString(u)>>}
Next ==
  \/ \E x \in Titles, v \in Texts(uses) : Title(x, v)
  \/ \E b \in Boxes : Box(b)
  \/ \E v \in Texts(uses) : Draw(v) \/ Field(v)
  \/ Field("")
  \/ \E x \in DOMAIN AttrValues : \E v \in AttrValues[x] \ {""} : Attr(x, v)
  \/ \E s \in DOMAIN Sayings, v \in Texts(uses) : Say(s, v)
  \/ \E w \in DOMAIN WidgetOf : Widget(w)
  \/ \E l \in Lists(uses) : Items(l, <<>>) \/ Items(l, [k \in 1..Len(l) |-> "s:number:" \o ToString(uses + k)])
  \/ \E c \in Checks(uses) : Check(c)
  \/ \E a \in DOMAIN RuleOf, v \in Texts(uses) \cup {""} : Rule("event", a, v)
  \/ \E v \in Texts(uses) : Rule("calculate", "", v)
  \/ Close
Spec == Init /\ [][Next]_vars

Learnt == val = Told(tree)
OneValue == \A p, q \in val : p[1] = q[1] => p = q
Survives == Told(Written(val)) = val
=============================================================================
