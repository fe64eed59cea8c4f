------------------------- MODULE GenFormValidation -------------------------
(* Forms, sheets and histories of data for replay.                          *)
EXTENDS FormValidation, Json

VARIABLE goal
Pick(S) == {RandomElement(S)}
GInit == Init /\ goal \in {[f |-> MaxNodes \div 4, q |-> MaxQs], [f |-> MaxNodes \div 2, q |-> MaxQs \div 2], [f |-> MaxNodes, q |-> 1]}
SNext ==
  /\ UNCHANGED goal
  /\ IF open THEN
       IF Len(form) < goal.f THEN
         \E k \in Pick(IF Len(form) < 2 /\ MaxNodes > 3 THEN {"group", "text", "list"} ELSE Kinds), up \in Pick(Groups),
            r \in Pick({"yes", "no", "up"}), m \in Pick(0..MaxText - 1) :
           AddNode(up, k, IF k \in {"text", "list", "sig", "group"} THEN r ELSE IF k = "check" \/ r = "up" THEN "no" ELSE r,
                   IF k \in {"text", "group"} THEN m ELSE 0)
       ELSE IF Len(sheet) < goal.q THEN
         \E k \in Pick({"text", "number"}), r \in Pick(BOOLEAN), mn \in Pick(0..MaxText - 1), mx \in Pick(0..MaxText), lo \in Pick(-1..3), hi \in Pick(-1..MaxText), p \in Pick(0..2) :
           IF k = "number" THEN AddQ(Question(k, r, 0, 0, lo, IF hi < lo THEN -1 ELSE hi, 0))
           ELSE AddQ(Question(k, r, IF mn > mx /\ mx > 0 THEN mx ELSE mn, mx, -1, -1, p))
       ELSE Start
     ELSE IF Keys # {} /\ RandomElement(1..3) < 3 THEN
       \E key \in Pick(Keys) : IF key \in DOMAIN data /\ RandomElement(1..3) = 1 THEN Take(key) ELSE \E v \in Pick(AllTries(key)) : Put(key, v)
     ELSE IF QKeys # {} THEN
       \E key \in Pick(QKeys) : IF key \in DOMAIN answers /\ RandomElement(1..3) = 1 THEN Retract(key) ELSE \E v \in Pick(AllQTries(key)) : Answer(key, v)
     ELSE FALSE
SSpec == GInit /\ [][SNext]_<<vars, goal>>
BSpec == Init /\ goal = 0 /\ [][Next /\ UNCHANGED goal]_<<vars, goal>>
Trace == [form |-> form, sheet |-> sheet, log |-> log]
Emit == Len(log) = MaxSteps => PrintT("TRACE " \o ToJson(Trace))
=============================================================================
