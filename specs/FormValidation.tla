--------------------------- MODULE FormValidation ---------------------------
(***************************************************************************)
(* Validating form data: a form is a tree of fields of several kinds with  *)
(* inherited flags; a sheet is a list of questions with rules. Data gives  *)
(* values to names. What is reported are exactly the names whose value     *)
(* breaks a rule, the names that do not exist, and the required ones that  *)
(* are not given (Exact, Named). What is said of one name does not depend  *)
(* on the other names (Local), and every rule can be met (Possible).       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS MaxNodes, MaxQs, MaxSteps, MaxText, NumOpts, Unknown, Kinds

VARIABLES form,   \* fields: [up, kind, req, max]
          sheet,  \* questions: [kind, req, min, max, lo, hi, pat]
          data,   \* key -> value, for the form
          answers,\* key -> value, for the sheet
          open,   \* still building
          log
vars == <<form, sheet, data, answers, open, log>>

Opts == 1..NumOpts
None == {}
V(t, n, s) == [t |-> t, n |-> n, s |-> s]
Nil == V("nil", 0, None)
Empty == V("empty", 0, None)
NoList == V("emptylist", 0, None)
Nothing == {Nil, Empty, NoList}
Str(n) == V("str", n, None)         \* a text of n characters
Num(n) == V("num", n, None)         \* the number n
Other == V("other", 0, None)        \* not one of the options
Opt(i) == V("opt", i, None)
Many(s) == V("opts", 0, s)          \* a list of options, 0 one that is none

Leaf(i) == form[i].kind # "group"
RECURSIVE Req(_, _)
Req(f, i) == IF f[i].req = "up" THEN f[i].up # 0 /\ Req(f, f[i].up) ELSE f[i].req = "yes"
RECURSIVE Max(_, _)
Max(f, i) == IF f[i].max = 0 /\ f[i].up # 0 THEN Max(f, f[i].up) ELSE f[i].max

-----------------------------------------------------------------------------
\* Values one may try
Digits(n) == IF n < 10 THEN 1 ELSE IF n < 100 THEN 2 ELSE 3
Tries(k) ==
  CASE k = "text" -> {Nil, Empty} \cup {Str(n) : n \in 1..MaxText} \cup {Num(7), Num(42), Num(123)}
    [] k \in {"combo", "list"} -> {Nil, Empty, Other} \cup {Opt(i) : i \in Opts}
    [] k = "edit" -> {Nil, Empty, Other} \cup {Opt(i) : i \in Opts}
    [] k = "multi" -> {Nil, NoList, Other} \cup {Opt(i) : i \in Opts} \cup {Many(s) : s \in SUBSET (0..NumOpts) \ {{}}}
    [] k = "check" -> {Str(1), Other}
    [] k = "radio" -> {Nil, Other}
    [] k = "radioopt" -> {Nil, Other} \cup {Opt(i) : i \in Opts}
    [] k = "sig" -> {Nil, Empty, Str(2)}
    [] OTHER -> {}
\* A value breaks a field's rules
Bad(f, i, v) ==
  LET k == f[i].kind IN
  IF v \in Nothing THEN Req(f, i)
  ELSE CASE k = "text" -> Max(f, i) > 0 /\ (IF v.t = "num" THEN Digits(v.n) ELSE v.n) > Max(f, i)
         [] k \in {"combo", "list", "multi", "radioopt"} -> v = Other \/ 0 \in v.s
         [] OTHER -> FALSE
\* Keys: full names, partial names, names there are not
Full(i) == [k |-> "full", i |-> i]
Part(i) == [k |-> "part", i |-> i]
Absent(i) == [k |-> "none", i |-> i]
Name(key) == IF key.k = "none" THEN key ELSE Full(key.i)
Given(d, i) == Full(i) \in DOMAIN d \/ Part(i) \in DOMAIN d
Errs(f, d) ==
  {Name(key) : key \in {x \in DOMAIN d : x.k = "none" \/ Bad(f, x.i, d[x])}}
  \cup {Full(i) : i \in {j \in DOMAIN f : f[j].kind # "group" /\ Req(f, j) /\ ~Given(d, j)}}

\* Questions
QTries(q) ==
  (IF q.kind = "number" THEN {Num(n) : n \in 0..MaxText + 1}
   ELSE {V("str", n, {c}) : n \in 1..MaxText, c \in 1..2})
  \cup (IF q.req \/ (q.min = 0 /\ q.pat = 0 /\ q.kind # "number") THEN {Nil, Empty} ELSE {})
QBad(q, v) ==
  IF v \in Nothing THEN q.req
  ELSE IF v.t = "num" THEN (q.lo >= 0 /\ v.n < q.lo) \/ (q.hi >= 0 /\ v.n > q.hi)
  ELSE \/ v.n < q.min \/ (q.max > 0 /\ v.n > q.max)
       \/ q.pat > 0 /\ v.s # {q.pat}
QErrs(s, a) ==
  {key \in DOMAIN a : key.k = "none" \/ QBad(s[key.i], a[key])}
  \cup {Full(i) : i \in {j \in DOMAIN s : s[j].req /\ Full(j) \notin DOMAIN a}}

-----------------------------------------------------------------------------
Empty0 == [x \in {} |-> Nil]
Init == form = <<>> /\ sheet = <<>> /\ data = Empty0 /\ answers = Empty0 /\ open = TRUE /\ log = <<>>
Groups == {0} \cup {i \in DOMAIN form : form[i].kind = "group"}
AddNode(up, k, req, max) ==
  /\ open /\ Len(form) < MaxNodes /\ up \in Groups
  /\ k \notin {"text", "check", "list", "sig", "group"} => req # "up"  \* these have flags of their own
  /\ k \notin {"text", "group"} => max = 0
  /\ k = "check" => req = "no"
  /\ form' = Append(form, [up |-> up, kind |-> k, req |-> req, max |-> max])
  /\ UNCHANGED <<sheet, data, answers, open, log>>
AddQ(q) ==
  /\ open /\ Len(sheet) < MaxQs
  /\ IF q.kind = "number" THEN q.min = 0 /\ q.max = 0 /\ q.pat = 0 ELSE q.lo = -1 /\ q.hi = -1
  /\ (q.max > 0 => q.min <= q.max) /\ (q.hi >= 0 => q.lo <= q.hi)
  /\ sheet' = Append(sheet, q) /\ UNCHANGED <<form, data, answers, open, log>>
Start == open /\ form # <<>> /\ open' = FALSE /\ UNCHANGED <<form, sheet, data, answers, log>>

Set(d, key, v) == [x \in DOMAIN d \cup {key} |-> IF x = key THEN v ELSE d[x]]
Drop(d, key) == [x \in DOMAIN d \ {key} |-> d[x]]
Did(a, key, v, e) == log' = Append(log, [a |-> a, key |-> key, v |-> v, errs |-> e])
AllTries(key) == IF key.k = "none" THEN {Str(1)} ELSE Tries(form[key.i].kind)
AllQTries(key) == IF key.k = "none" THEN {Str(1)} ELSE QTries(sheet[key.i])
Go == ~open /\ Len(log) < MaxSteps
\* checkboxes take what inherits no requirement
Put(key, v) ==
  /\ Go /\ v \in AllTries(key)
  /\ data' = Set(data, key, v) /\ Did("put", key, v, Errs(form, data')) /\ UNCHANGED <<form, sheet, answers, open>>
Take(key) ==
  /\ Go /\ key \in DOMAIN data
  /\ data' = Drop(data, key) /\ Did("take", key, Nil, Errs(form, data')) /\ UNCHANGED <<form, sheet, answers, open>>
Answer(key, v) ==
  /\ Go /\ v \in AllQTries(key)
  /\ answers' = Set(answers, key, v) /\ Did("answer", key, v, QErrs(sheet, answers')) /\ UNCHANGED <<form, sheet, data, open>>
Retract(key) ==
  /\ Go /\ key \in DOMAIN answers
  /\ answers' = Drop(answers, key) /\ Did("retract", key, Nil, QErrs(sheet, answers')) /\ UNCHANGED <<form, sheet, data, open>>

Leaves == {i \in DOMAIN form : Leaf(i)}
Keys == {Full(i) : i \in Leaves} \cup {Part(i) : i \in {j \in Leaves : form[j].up # 0}} \cup {Absent(i) : i \in 1..Unknown}
QKeys == {Full(i) : i \in DOMAIN sheet} \cup {Absent(i) : i \in 1..Unknown}
Question(k, r, mn, mx, lo, hi, p) == [kind |-> k, req |-> r, min |-> mn, max |-> mx, lo |-> lo, hi |-> hi, pat |-> p]
Next ==
  \/ \E up \in Groups, k \in Kinds, r \in {"yes", "no", "up"}, m \in 0..MaxText - 1 : AddNode(up, k, r, m)
  \/ \E k \in {"text", "number"}, r \in BOOLEAN, mn, mx \in 0..MaxText - 1, lo, hi \in -1..2, p \in 0..2 : AddQ(Question(k, r, mn, mx, lo, hi, p))
  \/ Start
  \/ \E key \in Keys : Take(key) \/ \E v \in AllTries(key) : Put(key, v)
  \/ \E key \in QKeys : Retract(key) \/ \E v \in AllQTries(key) : Answer(key, v)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* A field is fine if every value given to it is, and one is if it must be
Fine(i) == /\ Req(form, i) => Given(data, i)
           /\ \A key \in {Full(i), Part(i)} \cap DOMAIN data :
                LET v == data[key] k == form[i].kind IN
                  \/ v \in Nothing /\ ~Req(form, i)
                  \/ v \notin Nothing
                     /\ (k = "text" /\ Max(form, i) > 0 => (IF v.t = "num" THEN Digits(v.n) ELSE v.n) <= Max(form, i))
                     /\ (k \in {"combo", "list", "multi", "radioopt"} => v # Other /\ 0 \notin v.s)
Exact == \A i \in Leaves : (Full(i) \in Errs(form, data)) <=> ~Fine(i)
Named == {key \in Errs(form, data) : key.k = "none"} = {key \in DOMAIN data : key.k = "none"}
Possible == /\ \A i \in Leaves : \E v \in Tries(form[i].kind) : ~Bad(form, i, v) \/ form[i].kind = "check"
            /\ \A i \in DOMAIN sheet : LET q == sheet[i] IN (q.min <= MaxText /\ q.lo <= MaxText + 1) => \E v \in QTries(q) : ~QBad(q, v)
Diff(x, y) == (x \ y) \cup (y \ x)
Local == [][log' # log => LET s == log'[Len(log')] IN
             /\ Diff(Errs(form, data), Errs(form', data')) \subseteq {Name(s.key)}
             /\ Diff(QErrs(sheet, answers), QErrs(sheet', answers')) \subseteq {s.key}]_vars
=============================================================================
