--------------------------- MODULE GenFormBuild ---------------------------
(* Building sessions for replay. *)
EXTENDS FormBuild, Json

Trace == [log |-> log, fields |-> field, pages |-> pages]
Emit == done => PrintT("TRACE " \o ToJson(Trace))

VARIABLE len
Pick(S) == {RandomElement(S)}
SInit == Init /\ len \in {MaxOps \div 4, MaxOps \div 2, MaxOps - 2}
Last == Len(log) >= len
SNext ==
  /\ UNCHANGED len
  /\ ~done
  /\ IF built = 0 THEN
       IF field = <<>> THEN \E k \in Pick(Kinds) : Add(k)
       ELSE IF Len(log) * 3 > 2 * len THEN Build
       ELSE \E c \in Pick(1..10) :
         IF c <= 3 /\ Len(field) < MaxFields THEN \E k \in Pick(Kinds) : Add(k)
         ELSE IF c = 4 /\ pages < MaxPages THEN Page
         ELSE IF c = 5 /\ Len(field) > 1 /\ RandomElement(1..3) = 1 THEN Build
         ELSE \E i \in Pick(Fields), a \in Pick(Attrs) :
                IF Values(field[i].kind, a) = {} THEN \E n \in Pick({0, 1}) : Set(i, "req", n)
                ELSE \E n \in Pick(Values(field[i].kind, a)) : Set(i, a, n)
     ELSE IF pages = 0 THEN Page
     ELSE IF Last \/ Len(log) >= MaxOps THEN Write
     ELSE \E c \in Pick(1..8), i \in Pick(Fields), n \in Pick(1..NumActions) :
            IF c = 1 /\ pages < MaxPages THEN Page
            ELSE IF c <= 3 THEN Act(i, n)
            ELSE IF c <= 6 THEN \E e \in Pick(Events) : Mouse(i, e, n)
            ELSE Appear(i, n)
SSpec == SInit /\ [][SNext]_<<vars, len>>
=============================================================================
