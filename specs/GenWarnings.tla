---------------------------- MODULE GenWarnings ----------------------------
EXTENDS Warnings, Json
VARIABLE log
gvars == <<vars, log>>
GInit == Init /\ log = <<[a |-> "new", l |-> "", c |-> "", b |-> on, list |-> <<>>, res |-> <<>>]>>
Rec(a, l, c, b) == log' = Append(log, [a |-> a, l |-> l, c |-> c, b |-> b, list |-> list',
                                       res |-> IF given' # given THEN given'[Len(given')] ELSE <<>>])
GStep(LS, CS, BS) ==
  \/ \E l \in LS, c \in CS : Add(l, c) /\ Rec("add", l, c, FALSE)
  \/ Clear /\ Rec("clear", "", "", FALSE)
  \/ All /\ Rec("all", "", "", FALSE)
  \/ Count /\ Rec("count", "", "", FALSE)
  \/ \E b \in BS : Enable(b) /\ Rec("enable", "", "", b)
  \/ \E l \in LS : ByLevel(l) /\ Rec("level", l, "", FALSE)
  \/ \E c \in CS : ByCode(c) /\ Rec("code", "", c, FALSE)
GNext == GStep(Levels, WCodes, BOOLEAN)
GSpec == GInit /\ [][GNext]_gvars
SNext == IF ops < MaxOps THEN
  \E l \in {RandomElement(Levels)}, c \in {RandomElement(WCodes)}, b \in {RandomElement(BOOLEAN)}, r \in {RandomElement(1..12)} :
             IF r <= 5 THEN Add(l, c) /\ Rec("add", l, c, FALSE)
             ELSE IF r = 6 THEN (Clear /\ Rec("clear", "", "", FALSE))
             ELSE IF r = 7 /\ on THEN Enable(b) /\ Rec("enable", "", "", b)
             ELSE IF ~on /\ r <= 9 THEN Enable(TRUE) /\ Rec("enable", "", "", TRUE)
             ELSE GStep({l}, {c}, {TRUE})
  ELSE UNCHANGED gvars
SSpec == GInit /\ [][SNext]_gvars
Emit == (ops = MaxOps) => PrintT("TRACE " \o ToJson(log))
=============================================================================
