---------------------------- MODULE GenPasswords ----------------------------
(* Lives of encrypted documents; after every step the passwords that open. *)
EXTENDS Passwords, Json
VARIABLE log
gvars == <<vars, log>>
GInit == Init /\ log = <<>>
Rec(a, h, u, o) == log' = Append(log, [a |-> a, h |-> h, u |-> u, o |-> o,
                                       good |-> Good(doc'.h, user', owner')])
GStep(HS, PS) ==
   \/ \E h \in HS, u \in PS, o \in PS : Make(h, u, o) /\ Rec("make", h, u, o)
   \/ \E u \in PS, o \in PS : "R5" \in HS /\ Make("R5", u, o) /\ Rec("lib", "R5", u, o)
   \/ Update /\ Rec("update", doc.h, "", "")
   \/ \E p \in PS : Rewrite(p) /\ Rec("rewrite", doc.h, p, "")
GNext == GStep(Handlers, Pws)
GSpec == GInit /\ [][GNext]_gvars
SNext == IF doc = NoDoc
         THEN \E h \in {RandomElement(Handlers)}, u \in {RandomElement(AllPws)}, o \in {RandomElement(AllPws)} :
                IF h = "R5" /\ RandomElement(BOOLEAN) THEN Make(h, u, o) /\ Rec("lib", h, u, o)
                ELSE Make(h, u, o) /\ Rec("make", h, u, o)
         ELSE IF RandomElement(1..3) = 1 THEN Update /\ Rec("update", doc.h, "", "")
         ELSE \E p \in {RandomElement(AllPws)} : Rewrite(p) /\ Rec("rewrite", doc.h, p, "")
SSpec == GInit /\ [][SNext]_gvars
Emit == (doc # NoDoc /\ steps = MaxSteps) => PrintT("TRACE " \o ToJson(log))
=============================================================================
