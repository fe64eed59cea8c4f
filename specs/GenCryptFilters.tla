-------------------------- MODULE GenCryptFilters --------------------------
EXTENDS CryptFilters, Json
VARIABLE log
gvars == <<vars, log>>
First == [a |-> "config", n |-> 0, g |-> 0, k |-> "", p |-> FALSE, cfg |-> cfg]
GInit == Init /\ log = <<First>>
Rec(a, n, g, k, p) == log' = Append(log, [a |-> a, n |-> n, g |-> g, k |-> k, p |-> p, cfg |-> cfg'])
GNext == \/ \E n \in Objs, g \in 0..MaxGen, k \in Kinds, p \in BOOLEAN :
              (p => k = "str" /\ g = 0) /\ Define(n, g, k, p) /\ Rec("define", n, g, k, p)
         \/ Rewrite(cfg) /\ Rec("rebuild", 0, 0, "", FALSE)
         \/ Rewrite(cfg) /\ Rec("write", 0, 0, "", FALSE)
         \/ Rewrite(Plain) /\ cfg # Plain /\ Rec("extract", 0, 0, "", FALSE)
GSpec == GInit /\ [][GNext]_gvars
SDefine == \E n \in {RandomElement(Objs)}, k \in {RandomElement(Kinds)}, c \in {RandomElement(1..2)} :
             \E g \in {IF RandomElement(1..3) = 1 THEN RandomElement(file[n].g..MaxGen) ELSE file[n].g} :
              IF k = "str" /\ c = 1 /\ file[n].g = 0 THEN Define(n, 0, k, TRUE) /\ Rec("define", n, 0, k, TRUE)
              ELSE Define(n, g, k, FALSE) /\ Rec("define", n, g, k, FALSE)
SNext == LET c == RandomElement(1..9) IN
         IF c <= 6 \/ \A n \in Objs : file[n] = None THEN SDefine
         ELSE CASE c = 7 -> Rewrite(cfg) /\ Rec("rebuild", 0, 0, "", FALSE)
                [] c = 8 -> \E d \in {RandomElement(Configs)} : Rewrite(d) /\ Rec("write", 0, 0, "", FALSE)
                [] OTHER -> IF cfg # Plain /\ RandomElement(1..3) = 1 THEN Rewrite(Plain) /\ Rec("extract", 0, 0, "", FALSE)
                            ELSE SDefine
SSpec == GInit /\ [][SNext]_gvars
Emit == steps = MaxSteps => PrintT("TRACE " \o ToJson(log))
=============================================================================
