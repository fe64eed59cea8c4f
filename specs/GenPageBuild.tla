---------------------------- MODULE GenPageBuild ----------------------------
(* Drawing sessions for replay.                                            *)
EXTENDS PageBuild, Json

VARIABLE len
Pick(S) == {RandomElement(S)}
GInit == Init /\ len \in {MaxOps \div 3, MaxOps \div 2, MaxOps - 20}
Opens == {p \in DOMAIN page : ~page[p].done}
Last == log # <<>> /\ log[Len(log)].a = "write" /\ writes = MaxWrites
\* towards the end of a page: close what is open
Close(p) == LET r == page[p] IN
  IF r.mode = "text" THEN Draw(p, Op("ET", 0, 0))
  ELSE IF r.mode = "path" THEN \E o \in Pick(Paints) : Draw(p, Op(o, 0, 0))
  ELSE IF r.stack # <<>> THEN Draw(p, Op("Q", 0, 0))
  ELSE Finish(p)
AnyOp(p) == LET r == page[p] IN
  IF r.mode = "text" THEN
    \E c \in Pick(1..20) :
      IF c <= 9 /\ r.cur # NoFont /\ Say2(r) # {} THEN
        \E t \in Pick(Say2(r)), u \in Pick(Say2(r)), o \in Pick(Shows \cup {"TJ"}) : Draw(p, IF o = "TJ" THEN Op(o, t, u) ELSE Op(o, t, 0))
      ELSE IF c <= 12 /\ r.res # <<>> THEN \E f \in Pick(Range(r.res)), s \in Pick(Sizes) : Draw(p, Op("Tf", f, s))
      ELSE IF c <= 15 THEN \E o \in Pick(Places) : Draw(p, Op(o, 0, 0))
      ELSE IF c <= 18 THEN \E o \in Pick(General) : Draw(p, Op(o, 0, 0))
      ELSE Draw(p, Op("ET", 0, 0))
  ELSE IF r.mode = "path" THEN
    \E c \in Pick(1..4) :
      IF c = 1 THEN \E o \in Pick(Paints) : Draw(p, Op(o, 0, 0))
      ELSE \E o \in Pick(Paths \cup {"m", "re"}) : Draw(p, Op(o, 0, 0))
  ELSE
    \E c \in Pick(1..20) :
      CASE c = 1 -> \E o \in Pick(General) : Draw(p, Op(o, 0, 0))
        [] c = 2 -> Draw(p, Op("cm", 0, 0))
        [] c = 3 /\ Len(r.stack) < MaxDepth -> Draw(p, Op("q", 0, 0))
        [] c = 4 /\ r.stack # <<>> -> Draw(p, Op("Q", 0, 0))
        [] c \in {5, 6} -> \E o \in Pick({"m", "re"}) : Draw(p, Op(o, 0, 0))
        [] c \in {7, 8} /\ r.ims # {} -> \E o \in Pick({"Do", "at"}), i \in Pick(r.ims) : Draw(p, Op(o, i, 0))
        [] c = 9 -> \E f \in Pick(Std), t \in Pick(Texts) : TextMark(p, f, t)
        [] c = 10 /\ images > 0 -> \E i \in Pick(1..images) : ImageMark(p, i)
        [] c = 11 -> NoMark(p)
        [] c = 12 /\ r.res # <<>> -> \E f \in Pick(Range(r.res)), s \in Pick(Sizes) : Draw(p, Op("Tf", f, s))
        [] OTHER -> Draw(p, Op("BT", 0, 0))
SNext ==
  /\ UNCHANGED len
  /\ IF Len(log) >= len /\ ~Last THEN
          (IF \E p \in Opens : page[p].ops # <<>> /\ Len(log) < MaxOps - 10 THEN \E p \in Pick({q \in Opens : page[q].ops # <<>>}) : Close(p) ELSE Write)
     ELSE /\ ~Last
          /\ IF writes = MaxWrites THEN Write
             ELSE IF Opens = {} /\ Len(page) < MaxPages /\ RandomElement(1..3) > 1 THEN New
             ELSE \E c \in Pick(1..40) :
                CASE c = 1 /\ Len(page) < MaxPages -> New
                  [] c \in {2, 3} /\ images < MaxImages -> Image
                  [] c \in {4, 5} -> \E e \in Pick(Emb), t \in Pick(Texts) : Say(e, t)
                  [] c = 6 /\ order # <<>> /\ writes < MaxWrites - 1 -> Write
                  [] c = 40 /\ writes < MaxWrites - 1 /\ RandomElement(1..4) = 1 -> Write
                  [] OTHER ->
                     IF Opens = {} THEN (IF images < MaxImages THEN Image ELSE \E e \in Pick(Emb), t \in Pick(Texts) : Say(e, t))
                     ELSE \E p \in Pick(Opens) :
                       IF Len(page[p].ops) * 2 > len \/ (Len(log) * 8 > len * 7 /\ page[p].ops # <<>>) THEN Close(p)
                       ELSE IF c \in 7..10 THEN \E f \in Pick(Fonts) : Font(p, f)
                       ELSE IF c \in {11, 12} /\ images > 0 THEN \E i \in Pick(1..images) : Use(p, i)
                       ELSE IF c = 13 /\ Len(page[p].ops) > 8 THEN Close(p)
                       ELSE AnyOp(p)
SSpec == GInit /\ [][SNext]_<<vars, len>>
Ended == log # <<>> /\ log[Len(log)].a = "write" /\ order # <<>>
\* a behaviour ends with a write of everything
Trace == [log |-> log, shows |-> [p \in DOMAIN page |-> page[p].shows], order |-> order]
SEmit == (Ended /\ Last) => PrintT("TRACE " \o ToJson(Trace))
=============================================================================
