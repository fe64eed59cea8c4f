----------------------------- MODULE PageBuild -----------------------------
(***************************************************************************)
(* Drawing pages: several pages may be open at once; each has resources    *)
(* (standard fonts, embedded fonts, images) and a content stream to which  *)
(* operators are appended where the syntax of content streams allows them; *)
(* pages are finished in any order, and the document is written as often   *)
(* as one likes.                                                           *)
(*                                                                         *)
(* What is written has the pages in the order in which they were finished, *)
(* each with the operators it was given (Log), well nested (Nested), whose *)
(* names stand for the fonts and images that were meant (Resolved); text   *)
(* is shown in the font and size in force (Shown), which q/Q save and      *)
(* restore. A page is not touched by what is done to others (Frame).       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Alphabet,  \* the operators there are
          MaxPages, MaxOps, MaxDepth, MaxImages, MaxWrites,
          NumStd, NumEmb, NumTexts, NumSizes

Std == 1..NumStd
Emb == NumStd + 1..NumStd + NumEmb
Fonts == Std \cup Emb
Texts == 1..NumTexts
Sizes == 1..NumSizes

VARIABLES page,    \* pages ever opened
          images,  \* number of images the document has
          said,    \* embedded font -> texts it was told about
          order,   \* finished pages
          writes,
          log
vars == <<page, images, said, order, writes, log>>

NoFont == [f |-> 0, s |-> 0]
Blank == [ops |-> <<>>, res |-> <<>>, sub |-> [e \in Emb |-> {}], ims |-> {}, cur |-> NoFont, stack |-> <<>>,
          mode |-> "page", done |-> FALSE, shows |-> <<>>]
Op(o, x, y) == [o |-> o, x |-> x, y |-> y]
Step(a, p, x, y) == [a |-> a, p |-> p, x |-> x, y |-> y]
Did(s) == log' = Append(log, s)
Range(s) == {s[i] : i \in DOMAIN s}

Init == /\ page = <<>> /\ images = 0 /\ said = [e \in Emb |-> {}] /\ order = <<>> /\ writes = 0 /\ log = <<>>
Go == Len(log) < MaxOps
Open(p) == Go /\ p \in DOMAIN page /\ ~page[p].done

New == /\ Go /\ Len(page) < MaxPages /\ page' = Append(page, Blank)
       /\ Did(Step("new", Len(page) + 1, 0, 0)) /\ UNCHANGED <<images, said, order, writes>>
Image == /\ Go /\ images < MaxImages /\ images' = images + 1
         /\ Did(Step("image", 0, images + 1, 0)) /\ UNCHANGED <<page, said, order, writes>>
Say(e, t) == /\ Go /\ said' = [said EXCEPT ![e] = @ \cup {t}]
             /\ Did(Step("say", 0, e, t)) /\ UNCHANGED <<page, images, order, writes>>
Keep == UNCHANGED <<images, said, order, writes>>
AddFont(r, f) == IF f \in Range(r.res) THEN r ELSE [r EXCEPT !.res = Append(@, f)]
Font(p, f) == /\ Open(p)
              /\ page' = [page EXCEPT ![p] = IF f \in Emb THEN [AddFont(@, f) EXCEPT !.sub[f] = said[f]] ELSE AddFont(@, f)]
              /\ Did(Step("font", p, f, 0)) /\ Keep
Use(p, i) == /\ Open(p) /\ i \in 1..images
             /\ page' = [page EXCEPT ![p].ims = @ \cup {i}] /\ Did(Step("use", p, i, 0)) /\ Keep

-----------------------------------------------------------------------------
\* Operators and where they may come
General == {"w", "d", "rg", "RG", "g", "G", "Tc", "Tw", "TL", "Tr", "Ts"}
Paths == {"l", "c", "v", "y", "h"}
Paints == {"S", "s", "f", "B"}
Places == {"Td", "TD", "Tm", "T*"}
May(r, o) ==
  CASE o \in {"q", "cm", "BT", "Do", "at"} -> r.mode = "page"
    [] o = "Q" -> r.mode = "page" /\ r.stack # <<>>
    [] o \in General \cup {"Tf"} -> r.mode \in {"page", "text"}
    [] o \in {"m", "re"} -> r.mode \in {"page", "path"}
    [] o \in Paths \cup Paints -> r.mode = "path"
    [] o \in Places \cup {"ET"} -> r.mode = "text"
    [] OTHER -> r.mode = "text" /\ r.cur # NoFont   \* showing text
Mode(r, o) ==
  CASE o \in {"m", "re"} -> "path"
    [] o \in Paints -> "page"
    [] o = "BT" -> "text"
    [] o = "ET" -> "page"
    [] OTHER -> r.mode
Shows == {"Tj", "'", "hex"}
Show(r, ts) == Append(r.shows, [f |-> r.cur.f, s |-> r.cur.s, t |-> ts])
Put(r, op) ==
  LET o == op.o r1 == [r EXCEPT !.ops = Append(@, op), !.mode = Mode(r, o)]
  IN CASE o = "q" -> [r1 EXCEPT !.stack = Append(@, r.cur)]
       [] o = "Q" -> [r1 EXCEPT !.cur = r.stack[Len(r.stack)], !.stack = SubSeq(@, 1, Len(@) - 1)]
       [] o = "Tf" -> [r1 EXCEPT !.cur = [f |-> op.x, s |-> op.y]]
       [] o \in Shows -> [r1 EXCEPT !.shows = Show(r, <<op.x>>)]
       [] o = "TJ" -> [r1 EXCEPT !.shows = Show(r, <<op.x, op.y>>)]
       [] OTHER -> r1
AllOps == {"q", "Q", "cm", "BT", "ET", "m", "re", "Do", "at", "Tf", "TJ"} \cup General \cup Paths \cup Paints \cup Places \cup Shows \cup {"mark"}
Draw(p, op) == /\ Open(p) /\ op.o \in Alphabet /\ May(page[p], op.o) /\ (op.o = "q" => Len(page[p].stack) < MaxDepth)
               /\ page' = [page EXCEPT ![p] = Put(@, op)] /\ Did(Step(op.o, p, op.x, op.y)) /\ Keep
\* texts that may be shown in the font in force
Say2(r) == IF r.cur.f \in Emb THEN r.sub[r.cur.f] ELSE Texts
Plain == AllOps \ (Shows \cup {"Do", "at", "Tf", "TJ"})
DrawAny(p) ==
  \/ \E o \in Plain : Draw(p, Op(o, 0, 0))
  \/ \E o \in {"Do", "at"}, i \in page[p].ims : Draw(p, Op(o, i, 0))
  \/ \E f \in Range(page[p].res), s \in Sizes : Draw(p, Op("Tf", f, s))
  \/ \E o \in Shows, t \in Say2(page[p]) : Draw(p, Op(o, t, 0))
  \/ \E t, u \in Say2(page[p]) : Draw(p, Op("TJ", t, u))
\* A watermark is text in a standard font, or an image of the page. It saves
\* and restores the state. One that cannot be drawn leaves nothing behind.
TextMark(p, f, t) ==
  /\ Open(p) /\ "mark" \in Alphabet /\ page[p].mode = "page"
  /\ page' = [page EXCEPT ![p] = [AddFont(@, f) EXCEPT !.ops = Append(@, Op("tmark", f, t)),
                                     !.shows = Append(@, [f |-> f, s |-> 0, t |-> <<t>>])]]
  /\ Did(Step("tmark", p, f, t)) /\ Keep
ImageMark(p, i) ==
  /\ Open(p) /\ "mark" \in Alphabet /\ page[p].mode = "page"
  /\ page' = IF i \in page[p].ims THEN [page EXCEPT ![p].ops = Append(@, Op("imark", i, 0))] ELSE page
  /\ Did(Step("imark", p, i, IF i \in page[p].ims THEN 0 ELSE 1)) /\ Keep
NoMark(p) == /\ Open(p) /\ "mark" \in Alphabet /\ page[p].mode = "page" /\ UNCHANGED page /\ Did(Step("nomark", p, 0, 0)) /\ Keep

Finish(p) == /\ Open(p) /\ page[p].mode = "page" /\ page[p].stack = <<>>
             /\ page' = [page EXCEPT ![p].done = TRUE] /\ order' = Append(order, p)
             /\ Did(Step("finish", p, 0, 0)) /\ UNCHANGED <<images, said, writes>>
Write == /\ Go /\ writes < MaxWrites /\ writes' = writes + 1
         /\ Did(Step("write", 0, 0, 0)) /\ UNCHANGED <<page, images, said, order>>
Next == \/ New \/ Image \/ Write
        \/ \E e \in Emb, t \in Texts : Say(e, t)
        \/ \E p \in DOMAIN page : \/ DrawAny(p) \/ Finish(p) \/ NoMark(p)
                                  \/ \E f \in Fonts : Font(p, f)
                                  \/ \E f \in Std, t \in Texts : TextMark(p, f, t)
                                  \/ \E i \in 1..images : Use(p, i) \/ ImageMark(p, i)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* What must hold of the operators, said without the state
Count(ops, n, S) == Cardinality({j \in 1..n : ops[j].o \in S})
Nested == \A p \in DOMAIN page : LET ops == page[p].ops IN
  /\ \A n \in 0..Len(ops) : /\ Count(ops, n, {"q"}) >= Count(ops, n, {"Q"})
                            /\ Count(ops, n, {"BT"}) - Count(ops, n, {"ET"}) \in {0, 1}
  /\ \A n \in 1..Len(ops) : LET in == Count(ops, n - 1, {"BT"}) - Count(ops, n - 1, {"ET"}) = 1 IN
       /\ ops[n].o \in Places \cup Shows \cup {"TJ", "ET"} => in
       /\ ops[n].o \in {"q", "Q", "cm", "Do", "at", "tmark", "imark", "BT", "m", "re"} => ~in
       /\ ops[n].o \in Paths \cup Paints => n > 1 /\ ops[n - 1].o \in {"m", "re"} \cup Paths
       /\ (n > 1 /\ ops[n - 1].o \in {"m", "re"} \cup Paths) => ops[n].o \in {"m", "re"} \cup Paths \cup Paints
  /\ page[p].done => /\ Count(ops, Len(ops), {"q"}) = Count(ops, Len(ops), {"Q"})
                     /\ Count(ops, Len(ops), {"BT"}) = Count(ops, Len(ops), {"ET"})
Resolved == \A p \in DOMAIN page : \A op \in Range(page[p].ops) :
  /\ op.o \in {"Tf", "tmark"} => op.x \in Range(page[p].res)
  /\ op.o \in {"Do", "at", "imark"} => op.x \in page[p].ims
\* The Tf in force at n: the last one at or above n's level of q since which no Q went below it
Depth(ops, n) == Count(ops, n, {"q"}) - Count(ops, n, {"Q"})
InForce(ops, n) == {j \in 1..n - 1 : ops[j].o = "Tf" /\ \A k \in j..n - 1 : Depth(ops, k) >= Depth(ops, j)}
Latest(js) == CHOOSE j \in js : \A k \in js : k <= j
IsShow(op) == op.o \in Shows \cup {"TJ", "tmark"}
Shown == \A p \in DOMAIN page : LET ops == page[p].ops IN
  page[p].shows = [m \in 1..Count(ops, Len(ops), Shows \cup {"TJ", "tmark"}) |->
    LET n == CHOOSE n \in DOMAIN ops : IsShow(ops[n]) /\ Count(ops, n, Shows \cup {"TJ", "tmark"}) = m
        j == Latest(InForce(ops, n))
    IN CASE ops[n].o = "tmark" -> [f |-> ops[n].x, s |-> 0, t |-> <<ops[n].y>>]
         [] ops[n].o = "TJ" -> [f |-> ops[j].x, s |-> ops[j].y, t |-> <<ops[n].x, ops[n].y>>]
         [] OTHER -> [f |-> ops[j].x, s |-> ops[j].y, t |-> <<ops[n].x>>]]
Ordered == /\ Range(order) = {p \in DOMAIN page : page[p].done}
           /\ Len(order) = Cardinality(Range(order))
OpOf(s) == Op(s.a, s.x, s.y)
Mine(p) == SelectSeq(log, LAMBDA s : s.p = p /\ s.a \notin {"new", "font", "use", "finish", "nomark"} /\ (s.a = "imark" => s.y = 0))
Logged == \A p \in DOMAIN page : page[p].ops = [j \in DOMAIN Mine(p) |-> OpOf(Mine(p)[j])]
Frame == [][\A p \in DOMAIN page : page'[p] # page[p] => ~page[p].done /\ log'[Len(log')].p = p]_vars
=============================================================================
