--------------------------- MODULE GenAcroForm ---------------------------
(* Forms and what happens to them, for replay. *)
EXTENDS AcroForm, Json

VARIABLES hist, mode     \* the state after each step; what a random run does
gvars == <<vars, hist, mode>>

State == {<<n, Value(n), shown[n]>> : n \in Terms}
Trace == [nodes |-> {[id |-> n, up |-> node[n].up, nm |-> node[n].nm, term |-> node[n].term, wid |-> node[n].wid,
                      own |-> [a \in Inherited |-> Own(n, a)],
                      ft |-> FT(n), ff |-> Flags(n), dv |-> Eff(n, "DV"), max |-> Eff(n, "Max"), type |-> Type(n)] : n \in Nodes},
          start |-> mode.own,
          log |-> [i \in DOMAIN log |-> [a |-> log[i].a, m |-> {<<n, log[i].m[n]>> : n \in DOMAIN log[i].m}]],
          states |-> hist]
OwnV == {<<n, Own(n, "V"), shown[n]>> : n \in Nodes}

BInit == Init /\ hist = <<>> /\ mode = [own |-> {}]
BNext == /\ Next
         /\ IF ~closed' THEN UNCHANGED <<hist, mode>>
            ELSE /\ hist' = Append(hist, State')
                 /\ mode' = IF closed THEN mode ELSE [own |-> OwnV]
BSpec == BInit /\ [][BNext]_gvars
BEmit == Len(log) = MaxSteps => PrintT("TRACE " \o ToJson(Trace))

(* random forms: fields are added, then filled *)
Pick(S) == {RandomElement(S)}
SInit == Init /\ hist = <<>> /\ mode \in [own: {{}}, n: 2..MaxNodes, k: {"deep", "flat", "any"}, steps: 1..MaxSteps]
Coin(x) == RandomElement(1..x) = 1
RandAt(p, term) ==
  LET f == TLCEval(IF FT(p) = "" \/ Coin(3) THEN RandomElement({"Tx", "Btn", "Ch"}) ELSE FT(p))
      ff == IF RandomElement(1..2) = 1 THEN <<RandomElement(FlagSets(f))>> ELSE Absent
      g == TLCEval(IF ff = Absent THEN Flags(p) ELSE ff[1])
      val == IF Held(f, g) # {} /\ RandomElement(1..(IF term THEN 2 ELSE 5)) = 1 THEN <<RandomElement(Held(f, g))>> ELSE Absent
      dval == IF Held(f, g) # {} /\ RandomElement(1..5) = 1 THEN <<RandomElement(Held(f, g))>> ELSE Absent
  IN TLCEval([FT |-> <<f>>, Ff |-> ff, V |-> val, DV |-> dval, Max |-> IF f = "Tx" /\ RandomElement(1..4) = 1 THEN <<RandomElement(1..60)>> ELSE Absent])
\* the type is written out or inherited; a group may leave it to its fields
Lay(p, term, at) == IF ~term /\ at.V = Absent /\ at.DV = Absent /\ at.Max = Absent /\ at.Ff = Absent /\ Coin(2) THEN [at EXCEPT !.FT = Eff(p, "FT")]
                    ELSE IF at.FT = Eff(p, "FT") /\ Coin(2) THEN [at EXCEPT !.FT = Absent] ELSE at
RandWid(k) == IF k = 0 THEN <<>> ELSE [i \in 1..RandomElement(1..3) |-> RandomElement(1..NumStates)]
Parents == IF mode.k = "flat" THEN {Root} ELSE IF mode.k = "deep" /\ Cardinality(Groups) > 1 THEN Groups \ {Root} ELSE Groups
AddAny == \E p \in Pick(Parents), nm \in Pick(1..NumNames), c \in Pick(1..8) :
            LET term == c > (IF mode.k = "flat" THEN 0 ELSE 3) IN
            \E at0 \in {RandAt(p, term)} : \E at \in {TLCEval(Lay(p, term, at0))} :
            \E wid \in {TLCEval(RandWid(IF term /\ c > 4 THEN 1 ELSE 0))} :
              IF MayAdd(p, nm, term, at, wid) THEN Add(p, nm, term, at, wid)
              ELSE IF MayAdd(p, nm, term, at, <<>>) THEN Add(p, nm, term, at, <<>>)
              ELSE UNCHANGED vars
\* a field for every empty group
FillIn == LET g == CHOOSE g \in Groups \ {Root} : \A m \in Nodes : node[m].up # g IN
          \E at0 \in {RandAt(g, TRUE)} : \E at \in {TLCEval([at0 EXCEPT !.V = Absent, !.DV = Absent, !.Ff = Absent, !.Max = Absent,
                                                             !.FT = IF FT(g) # "" THEN Absent ELSE @])} :
            Add(g, 1, TRUE, at, <<>>)
Some(k) == LET s == {RandomElement(Fillable \cup (IF Coin(4) THEN {Unknown} ELSE {})) : i \in 1..k} IN
           [n \in TLCEval(s) |-> RandomElement(Requests(n))]
SNext ==
  IF ~closed THEN
     /\ IF Cardinality(Nodes) < mode.n /\ Cardinality(Nodes) < MaxNodes - 5 /\ TLCGet("level") < 3 * MaxNodes
          THEN AddAny /\ UNCHANGED mode
        ELSE IF Nodes = {} THEN Add(Root, 1, TRUE, [FT |-> <<"Tx">>, Ff |-> Absent, V |-> Absent, DV |-> Absent, Max |-> Absent], <<>>) /\ UNCHANGED mode
        ELSE IF ~Whole /\ Cardinality(Nodes) < MaxNodes THEN FillIn /\ UNCHANGED mode
        ELSE closed' = TRUE /\ UNCHANGED <<node, shown, log, start>> /\ mode' = [mode EXCEPT !.own = OwnV]
     /\ hist' = IF closed' THEN <<State>> ELSE <<>>
  ELSE IF Len(log) < mode.steps /\ ~Flat /\ Whole THEN
     /\ \E c \in Pick(1..12) :
          IF Fillable = {} THEN Flatten
          ELSE IF c <= 8 THEN \E k \in Pick(1..4) : \E m \in {TLCEval(Some(k))} : Fill(m)
          ELSE IF c <= 11 THEN \E n \in Pick(Fillable) : \E x \in Pick(Held(FT(n), Flags(n))) : Revise(n, x)
          ELSE IF Len(log) > 0 THEN Flatten ELSE \E m \in {TLCEval(Some(2))} : Fill(m)
     /\ hist' = Append(hist, State') /\ UNCHANGED mode
  ELSE FALSE /\ UNCHANGED gvars
SSpec == SInit /\ [][SNext]_gvars
Ended == closed /\ Whole /\ (Len(log) = mode.steps \/ Flat)
SEmit == Ended => PrintT("TRACE " \o ToJson(Trace))
=============================================================================
