-------------------------------- MODULE XFA --------------------------------
(***************************************************************************)
(* XFA forms. A document keeps a list of named packets; one, the datasets, *)
(* holds a tree of groups and fields with values, other sections beside    *)
(* the data, and notes (comments, other markup) anywhere. Filling gives    *)
(* fields of the data new values and leaves everything else as it is;      *)
(* rebuilding replaces packets, and adds those the form does not have;     *)
(* building makes a new document of the packets with known names.          *)
(* Filling is done on text: a scanner goes over tokens with a stack of     *)
(* open elements and writes new tokens as it goes; it must write just the  *)
(* tokens of the filled tree (Spliced).                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS MaxNodes, MaxVal, MaxAside, \* size of data, values, number of fields beside the data
          Known, Other,               \* names of packets: sequence in the order a new document has; others
          MaxOps

VARIABLES tree,    \* nodes of the data, in order: [kind, up, val]; a field's name is its index
          aside,   \* fields beside the data: [name, val, first]: name and value, before or after
          list,    \* packets of the document: [n |-> name, c |-> content]; content of datasets is tree and aside
          old,     \* what tree and aside were before each step
          new,     \* identities given to contents
          steps,
          closed,  \* the document is made
          toks, out, stack, todo, orig \* the scanner
dvars == <<tree, aside, list, old, new, steps, closed>>
vars == <<dvars, toks, out, stack, todo, orig>>

NoVal == -1 \* a field without a value element; 0 is an empty one
KnownSet == {Known[i] : i \in DOMAIN Known}
Nodes == DOMAIN tree
Fields == {i \in Nodes : tree[i].kind = "field"}
Groups == {i \in Nodes : tree[i].kind = "group"}
Names == {list[i].n : i \in DOMAIN list}
HasData == "datasets" \in Names
Says(v) == IF v = NoVal THEN 0 ELSE v

Node(k, up, v) == [kind |-> k, up |-> up, val |-> v]
Packet(n, c) == [n |-> n, c |-> c]

-----------------------------------------------------------------------------
\* Making a document
Init == /\ tree = <<>> /\ aside = <<>> /\ list = <<>> /\ old = <<>> /\ new = 0 /\ steps = 0 /\ closed = FALSE
        /\ toks = <<>> /\ out = <<>> /\ stack = <<>> /\ todo = {} /\ orig = <<>>
\* the last open groups are those above the last node; a new node goes below one of them, or one is in a closed one
Idle == toks = <<>> /\ stack = <<>>
RECURSIVE Above(_, _)
Above(t, i) == IF i = 0 THEN {0} ELSE {i} \cup Above(t, t[i].up)
AddNode(k, up, v) == /\ ~closed /\ Len(tree) < MaxNodes
                     /\ up \in (IF tree = <<>> THEN {0} ELSE Above(tree, Len(tree)))
                     /\ up # 0 => tree[up].kind = "group"
                     /\ tree' = Append(tree, Node(k, up, v))
                     /\ UNCHANGED <<aside, list, old, new, steps, closed, toks, out, stack, todo, orig>>
AddAside(n, v, f) == /\ ~closed /\ Len(aside) < MaxAside
                     /\ aside' = Append(aside, [name |-> n, val |-> v, first |-> f])
                     /\ UNCHANGED <<tree, list, old, new, steps, closed, toks, out, stack, todo, orig>>
AddPacket(n) == /\ ~closed /\ n \notin Names
                /\ n = "postamble" \/ "postamble" \notin Names
                /\ new' = new + 1 /\ list' = Append(list, Packet(n, IF n = "datasets" THEN 0 ELSE new + 1))
                /\ UNCHANGED <<tree, aside, old, steps, closed, toks, out, stack, todo, orig>>
Close == ~closed /\ list # <<>> /\ closed' = TRUE /\ UNCHANGED <<tree, aside, list, old, new, steps, toks, out, stack, todo, orig>>

-----------------------------------------------------------------------------
\* What happens to it
Filled(t, fd) == [i \in DOMAIN t |-> IF i \in DOMAIN fd THEN [t[i] EXCEPT !.val = fd[i]] ELSE t[i]]
Go == closed /\ Idle /\ steps < MaxOps /\ steps' = steps + 1 /\ old' = Append(old, [tree |-> tree, aside |-> aside])
Doc(t, s, l) == tree' = t /\ aside' = s /\ list' = l
Still == UNCHANGED <<toks, out, stack, todo, orig>>
IsFill(fd) == DOMAIN fd \subseteq Fields
Fill(fd) == Go /\ HasData /\ IsFill(fd) /\ Doc(Filled(tree, fd), aside, list) /\ UNCHANGED <<new, closed>> /\ Still

Has(l, n) == \E i \in DOMAIN l : l[i].n = n
\* new packets come before the end of the form
Ends(l) == l # <<>> /\ l[Len(l)].n = "postamble"
Put(l, p) == IF Has(l, p.n) THEN [i \in DOMAIN l |-> IF l[i].n = p.n THEN p ELSE l[i]]
             ELSE IF Ends(l) THEN Append(SubSeq(l, 1, Len(l) - 1), p) \o <<l[Len(l)]>> ELSE Append(l, p)
RECURSIVE PutAll(_, _)
PutAll(l, ps) == IF ps = {} THEN l ELSE LET p == CHOOSE p \in ps : TRUE IN PutAll(Put(l, p), ps \ {p})
\* the data told to another tool and back: no fields beside it, no missing values
Plain(t) == [i \in DOMAIN t |-> IF t[i].kind = "field" THEN [t[i] EXCEPT !.val = Says(@)] ELSE t[i]]
\* packets get new contents; the datasets' come from data (a tree and what is beside)
Rebuild(ns, t, s) ==
  /\ Go /\ ns \subseteq KnownSet
  /\ new' = new + Len(Known)
  /\ Doc(IF "datasets" \in ns THEN t ELSE tree, IF "datasets" \in ns THEN s ELSE aside,
         PutAll(list, {Packet(Known[i], IF Known[i] = "datasets" THEN 0 ELSE new + i) : i \in {j \in DOMAIN Known : Known[j] \in ns}}))
  /\ UNCHANGED closed /\ Still
Keep(l, n) == IF Has(l, n) THEN <<l[CHOOSE i \in DOMAIN l : l[i].n = n]>> ELSE <<>>
RECURSIVE InOrder(_, _)
InOrder(l, i) == IF i > Len(Known) THEN <<>> ELSE Keep(l, Known[i]) \o InOrder(l, i + 1)
Build == Go /\ InOrder(list, 1) # <<>> /\ Doc(tree, aside, InOrder(list, 1)) /\ UNCHANGED <<new, closed>> /\ Still
\* a new document of some packets
BuildSome(ns) == Go /\ ns \subseteq KnownSet \cap Names /\ ns # {}
                 /\ Doc(tree, aside, InOrder(SelectSeq(list, LAMBDA p : p.n \in ns), 1)) /\ UNCHANGED <<new, closed>> /\ Still

-----------------------------------------------------------------------------
\* The text of datasets, and a scanner that fills it
Tok(k, e, n, v) == [k |-> k, e |-> e, n |-> n, v |-> v]
FieldToks(n, v) == <<Tok("open", "field", n, 0)>>
                   \o (IF v = NoVal THEN <<>> ELSE <<Tok("open", "value", 0, 0)>> \o (IF v = 0 THEN <<>> ELSE <<Tok("text", "", 0, v)>>) \o <<Tok("end", "value", 0, 0)>>)
                   \o <<Tok("end", "field", 0, 0)>>
RECURSIVE Toks(_, _, _)
Toks(t, up, i) ==
  IF i > Len(t) THEN <<>>
  ELSE IF t[i].up # up THEN Toks(t, up, i + 1)
  ELSE (IF t[i].kind = "field" THEN FieldToks(i, t[i].val)
        ELSE <<Tok("open", "group", i, 0)>> \o Toks(t, i, i + 1) \o <<Tok("end", "group", 0, 0)>>) \o Toks(t, up, i + 1)
RECURSIVE Beside(_, _)
Beside(s, f) == IF s = <<>> THEN <<>> ELSE (IF Head(s).first = f THEN FieldToks(Head(s).name, Head(s).val) ELSE <<>>) \o Beside(Tail(s), f)
Text(t, s) == <<Tok("open", "datasets", 0, 0)>> \o Beside(s, TRUE) \o <<Tok("open", "data", 0, 0)>> \o Toks(t, 0, 1)
              \o <<Tok("end", "data", 0, 0)>> \o Beside(s, FALSE) \o <<Tok("end", "datasets", 0, 0)>>

\* an open element: what it is, which field it will fill (0: none), whether its value was written
Scan(fd) == /\ closed /\ Idle /\ steps < MaxOps /\ HasData /\ IsFill(fd) /\ DOMAIN fd # {}
            /\ toks' = Text(tree, aside) /\ out' = <<>> /\ todo' = {<<i, fd[i]>> : i \in DOMAIN fd} /\ orig' = <<Filled(tree, fd)>>
            /\ stack' = <<[e |-> "start", n |-> 0, v |-> 0, done |-> FALSE]>>
            /\ steps' = steps + 1
            /\ UNCHANGED <<tree, aside, list, old, new, closed>>
InData == \E i \in DOMAIN stack : stack[i].e = "data"
Top == stack[Len(stack)]
Under == stack[Len(stack) - 1]
\* the text of a value that is replaced is not copied
Skipping == Top.e = "value" /\ Under.n # 0 /\ ~Under.done
ValToks(v) == IF v = 0 THEN <<>> ELSE <<Tok("text", "", 0, v)>>
Step ==
  /\ toks # <<>> /\ toks' = Tail(toks) /\ UNCHANGED <<dvars, orig>>
  /\ LET x == Head(toks) IN
     CASE x.k = "open" ->
            LET m == {p \in todo : p[1] = x.n} IN
            /\ IF x.e = "field" /\ InData /\ m # {}
                 THEN \E p \in m : stack' = Append(stack, [e |-> "field", n |-> p[1], v |-> p[2], done |-> FALSE])
                 ELSE stack' = Append(stack, [e |-> x.e, n |-> 0, v |-> 0, done |-> FALSE])
            /\ out' = Append(out, x) /\ UNCHANGED todo
       [] x.k = "text" -> /\ out' = (IF Skipping THEN out ELSE Append(out, x)) /\ UNCHANGED <<stack, todo>>
       [] x.k = "end" /\ Top.e = "value" /\ Skipping ->
            /\ out' = out \o ValToks(Under.v) \o <<x>>
            /\ stack' = Append(SubSeq(stack, 1, Len(stack) - 2), [Under EXCEPT !.done = TRUE])
            /\ todo' = {p \in todo : p[1] # Under.n}
       [] x.k = "end" /\ Top.e = "field" /\ Top.n # 0 /\ ~Top.done ->
            /\ out' = out \o <<Tok("open", "value", 0, 0)>> \o ValToks(Top.v) \o <<Tok("end", "value", 0, 0)>> \o <<x>>
            /\ stack' = SubSeq(stack, 1, Len(stack) - 1) /\ todo' = {p \in todo : p[1] # Top.n}
       [] OTHER -> out' = Append(out, x) /\ stack' = SubSeq(stack, 1, Len(stack) - 1) /\ UNCHANGED todo
Finish == /\ toks = <<>> /\ stack # <<>> /\ stack' = <<>> /\ tree' = orig[1] /\ out' = <<>> /\ todo' = {} /\ orig' = <<>>
          /\ UNCHANGED <<aside, list, old, new, steps, closed, toks>>

-----------------------------------------------------------------------------
Fills == UNION {[D -> 0..MaxVal] : D \in SUBSET Fields}
Next ==
  \/ \E k \in {"group", "field"}, up \in 0..MaxNodes, v \in NoVal..MaxVal : (k = "group" => v = 0) /\ AddNode(k, up, v)
  \/ \E n \in 1..MaxNodes, v \in NoVal..MaxVal, f \in BOOLEAN : AddAside(n, v, f)
  \/ \E n \in KnownSet \cup Other : AddPacket(n)
  \/ Close
  \/ \E fd \in Fills : Fill(fd) \/ Scan(fd)
  \/ \E ns \in SUBSET KnownSet : \/ Rebuild(ns, Plain(tree), <<>>) \/ \E i \in DOMAIN old : Rebuild(ns, old[i].tree, old[i].aside)
  \/ Build \/ (\E ns \in SUBSET KnownSet : BuildSome(ns))
  \/ Step \/ Finish
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* the scanner writes the text of the filled tree
Spliced == toks = <<>> /\ stack # <<>> => out = Text(orig[1], aside) /\ todo = {} /\ Len(stack) = 1
\* a packet is there once, and the end of the form is last
Orderly == /\ \A i, j \in DOMAIN list : list[i].n = list[j].n => i = j
           /\ \A i \in DOMAIN list : list[i].n = "postamble" => i = Len(list)
\* steps keep what they are not about
Kept == [][closed =>
            /\ [i \in DOMAIN tree |-> <<tree[i].kind, tree[i].up>>] = [i \in DOMAIN tree' |-> <<tree'[i].kind, tree'[i].up>>]
            /\ (list' = list \/ \A p \in {list[i] : i \in DOMAIN list} : p.n \in Other \/ p.n = "datasets" \/
                  (Has(list', p.n) => \A i \in DOMAIN list' : list'[i].n = p.n => list'[i] = p \/ list'[i].c > new))]_vars
\* of two fills, the last counts
LastWins == closed /\ steps = 0 => \A f, g \in Fills : Filled(Filled(tree, f), g) = Filled(tree, g @@ f)
KnownData == <<"datasets">>
KnownSmall == <<"template", "datasets">>
KnownAll == <<"template", "datasets", "config", "localeSet", "connectionSet", "stylesheet", "xmp", "signature", "sourceSet">>
=============================================================================
