------------------------- MODULE GenWriterSession -------------------------
(* Sessions as sequences of calls; every one ends by producing bytes.      *)
EXTENDS WriterSession, Json
VARIABLE log
gvars == <<vars, log>>

GInit == Init /\ log = <<>>
Rec(a, n, k) == log' = Append(log, [a |-> a, n |-> n, k |-> k, next |-> next',
    root |-> root', info |-> info', xs |-> xs', os |-> os', ver |-> ver',
    objs |-> IF a = "produce" THEN {<<m, objs[m].k, objs[m].v>> : m \in Used} ELSE {}])
B(b) == IF b THEN "t" ELSE "f"

GAny(NS, KS) ==
        \/ \E k \in KS : Add(k) /\ Rec("add", 0, k)
        \/ \E n \in NS, k \in KS : Set(n, k) /\ Rec("set", n, k)
        \/ \E n \in Used \cap NS : (SetRoot(n) /\ Rec("root", n, "")) \/ (SetInfo(n) /\ Rec("info", n, ""))
        \/ \E b \in BOOLEAN : (UseX(b) /\ Rec("xs", 0, B(b))) \/ (UseO(b) /\ Rec("os", 0, B(b)))
        \/ \E v \in {4, 5, 7} : SetVer(v) /\ Rec("ver", v, "")
GNext == \/ (ops < MaxOps - 1 /\ GAny(1..MaxNum, KindsOfContent))
         \/ (Produce /\ Rec("produce", 0, ""))
GSpec == GInit /\ [][GNext]_gvars

SNext == LET c == RandomElement(1..10) IN
  IF ops = MaxOps - 1 \/ (c = 1 /\ Used # {}) THEN Produce /\ Rec("produce", 0, "")
  ELSE CASE c <= 4 -> \E k \in {RandomElement(KindsOfContent)} : Add(k) /\ Rec("add", 0, k)
         [] c <= 6 -> \E n \in {RandomElement(1..MaxNum)}, k \in {RandomElement(KindsOfContent)} : Set(n, k) /\ Rec("set", n, k)
         [] c = 7 /\ \E m \in Used : objs[m].k = "obj" ->
              \E n \in {RandomElement({m \in Used : objs[m].k = "obj"})} :
                 IF RandomElement(BOOLEAN) THEN SetRoot(n) /\ Rec("root", n, "") ELSE SetInfo(n) /\ Rec("info", n, "")
         [] c = 8 -> \E b \in {RandomElement(BOOLEAN)} : IF RandomElement(BOOLEAN) THEN xs' = b /\ UseX(b) /\ Rec("xs", 0, B(b)) ELSE UseO(b) /\ Rec("os", 0, B(b))
         [] c = 9 -> \E v \in {RandomElement({4, 5, 7} \ {ver})} : SetVer(v) /\ Rec("ver", v, "")
         [] OTHER -> \E k \in {RandomElement(KindsOfContent)} : Add(k) /\ Rec("add", 0, k)
SSpec == GInit /\ [][SNext]_gvars

Emit == (Len(log) = MaxOps /\ log[MaxOps].a = "produce") => PrintT("TRACE " \o ToJson(log))
=============================================================================
