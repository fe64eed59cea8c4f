--------------------------- MODULE GenErrorChains ---------------------------
EXTENDS ErrorChains, Json
VARIABLE log
gvars == <<vars, log>>
GInit == Init /\ log = <<>>
Rec(a, c, k, b) == log' = Append(log, [a |-> a, c |-> c, k |-> k, b |-> b, code |-> code', match |-> match',
                                       some |-> cur' # None])
GStep(CS, LS, KS, BS) ==
  \/ StartPlain /\ Rec("plain", "", "", FALSE)
  \/ WrapIt /\ Rec("wrap", "", "", FALSE)
  \/ Hide /\ Rec("hide", "", "", FALSE)
  \/ Park /\ Rec("park", "", "", FALSE)
  \/ \E c \in CS : (StartPdf(c) /\ Rec("pdf", c, "", FALSE)) \/ (Class(c) /\ Rec("class", c, "", FALSE))
  \/ \E c \in LS : StartLib(c) /\ Rec("lib", c, "", FALSE)
  \/ \E k \in KS, b \in BS : Combine(k, b) /\ Rec("combine", "", k, b)
GNext == GStep(Codes, LibCodes, {"join", "multi"}, BOOLEAN)
GSpec == GInit /\ [][GNext]_gvars
SNext == IF steps < MaxSteps THEN
  \E c \in {RandomElement(Codes)}, l \in {RandomElement(LibCodes)}, k \in {RandomElement({"join", "multi"})},
              b \in {RandomElement(BOOLEAN)} : GStep({c}, {l}, {k}, {b})
  ELSE UNCHANGED gvars
SSpec == GInit /\ [][SNext]_gvars
Emit == (steps = MaxSteps) => PrintT("TRACE " \o ToJson(log))
=============================================================================
