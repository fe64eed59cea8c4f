--------------------------- MODULE ContentStream ---------------------------
(***************************************************************************)
(* The content-stream interpreter (ISO 32000-1 8.4, 9.3, 9.4) as far as    *)
(* extraction depends on it: the graphics state with its stack, the text   *)
(* and line matrices, the text state, paths of rectangles and lines, image *)
(* and form XObjects.  A matrix [a b c d e f] is a 6-tuple.                *)
(*                                                                         *)
(* The state machine keeps the state one operator at a time, as an         *)
(* interpreter does.  The invariants say what that state must be from the  *)
(* history alone: drop everything between q and its Q (and inside finished *)
(* forms), and what is left determines the matrix (the product of the cm)  *)
(* and every parameter (its last setting); the line matrix is the last Tm  *)
(* (or BT) and the moves since.                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANTS MaxOps, MaxDepth, Mats, Moves, Fonts, Spaces, Colors, Boxes

I == <<1, 0, 0, 1, 0, 0>>
Mul(m, n) == <<m[1]*n[1] + m[2]*n[3], m[1]*n[2] + m[2]*n[4],
               m[3]*n[1] + m[4]*n[3], m[3]*n[2] + m[4]*n[4],
               m[5]*n[1] + m[6]*n[3] + n[5], m[5]*n[2] + m[6]*n[4] + n[6]>>
Tr(x, y) == <<1, 0, 0, 1, x, y>>
Apply(m, x, y) == <<x*m[1] + y*m[3] + m[5], x*m[2] + y*m[4] + m[6]>>

VARIABLES gs,      \* graphics state
          stack,   \* saved graphics states and, for a form, what was around it
          text,    \* [in, tm]: inside BT..ET, line matrix
          out,     \* elements found, in order
          log,     \* operators executed
          nstr     \* strings shown
vars == <<gs, stack, text, out, log, nstr>>

(* sets for model checking, and larger ones for generation *)
SomeMats == {<<0,1,-1,0,2,0>>, <<2,0,0,3,0,1>>}
SomeMoves == {<<1,2>>}
SomeColors == {<<"gray",1>>}
SomeBoxes == {<<0,0,1,2>>}
MoreMats == SomeMats \cup {<<1,0,0,1,7,-5>>, <<-1,0,0,1,3,0>>, <<1,2,0,1,0,0>>, <<1,0,-3,1,4,4>>, <<0,-2,2,0,0,6>>, <<1,1,-1,1,0,0>>}
MoreMoves == {<<1,2>>, <<-4,0>>}
MoreColors == {<<"gray",1>>, <<"rgb",4,2,0>>, <<"cmyk",0,1,2,4>>}
MoreBoxes == {<<0,0,1,2>>, <<3,4,-5,7>>}

Black == <<"rgb", 0, 0, 0>>
GS0 == [ctm |-> I, font |-> 0, size |-> 0, tc |-> 0, tw |-> 0, tl |-> 0, ts |-> 0, lw |-> 1, fill |-> Black, stroke |-> Black]
Init == gs = GS0 /\ stack = <<>> /\ text = [in |-> FALSE, tm |-> I] /\ out = <<>> /\ log = <<>> /\ nstr = 0

Did(op) == Len(log) < MaxOps /\ log' = Append(log, op)
Keep(s) == UNCHANGED s

Save == /\ ~text.in /\ Len(stack) < MaxDepth /\ Did([op |-> "q"])
        /\ stack' = Append(stack, [kind |-> "q", gs |-> gs]) /\ Keep(<<gs, text, out, nstr>>)
Restore == /\ ~text.in /\ stack # <<>> /\ stack[Len(stack)].kind = "q" /\ Did([op |-> "Q"])
           /\ gs' = stack[Len(stack)].gs /\ stack' = SubSeq(stack, 1, Len(stack) - 1) /\ Keep(<<text, out, nstr>>)
Concat(m) == /\ ~text.in /\ Did([op |-> "cm", m |-> m]) /\ gs' = [gs EXCEPT !.ctm = Mul(m, gs.ctm)] /\ Keep(<<stack, text, out, nstr>>)

(* A form is drawn as q, its matrix, its content, Q; what it holds is between "form" and "endform". *)
Form(m) == /\ ~text.in /\ Len(stack) < MaxDepth /\ Did([op |-> "form", m |-> m])
           /\ stack' = Append(stack, [kind |-> "form", gs |-> gs]) /\ gs' = [gs EXCEPT !.ctm = Mul(m, gs.ctm)] /\ Keep(<<text, out, nstr>>)
Forms == {i \in 1..Len(stack) : stack[i].kind = "form"}
EndForm == /\ ~text.in /\ Forms # {} /\ Did([op |-> "endform"])
           /\ LET k == CHOOSE i \in Forms : \A j \in Forms : j <= i \* a q left open in the form ends with it
              IN gs' = stack[k].gs /\ stack' = SubSeq(stack, 1, k - 1) /\ Keep(<<text, out, nstr>>)
(* A Q that closes nothing of its own content stream restores nothing. *)
StrayQ == /\ ~text.in /\ ~(IF stack = <<>> THEN FALSE ELSE stack[Len(stack)].kind = "q") /\ Did([op |-> "Q"]) /\ Keep(<<gs, stack, text, out, nstr>>)

Begin == ~text.in /\ Did([op |-> "BT"]) /\ text' = [in |-> TRUE, tm |-> I] /\ Keep(<<gs, stack, out, nstr>>)
End == text.in /\ Did([op |-> "ET"]) /\ text' = [text EXCEPT !.in = FALSE] /\ Keep(<<gs, stack, out, nstr>>)

Set(op, k, v) == Did([op |-> op, v |-> v]) /\ gs' = [gs EXCEPT ![k] = v] /\ Keep(<<stack, text, out, nstr>>)
Font(f, s) == Did([op |-> "Tf", f |-> f, v |-> s]) /\ gs' = [gs EXCEPT !.font = f, !.size = s] /\ Keep(<<stack, text, out, nstr>>)
Noise == Did([op |-> "noise"]) /\ Keep(<<gs, stack, text, out, nstr>>)

(* Moving *)
MoveTo(x, y) == [text EXCEPT !.tm = Mul(Tr(x, y), text.tm)]
Td(x, y) == text.in /\ Did([op |-> "Td", x |-> x, y |-> y]) /\ text' = MoveTo(x, y) /\ Keep(<<gs, stack, out, nstr>>)
TD(x, y) == text.in /\ Did([op |-> "TD", x |-> x, y |-> y]) /\ text' = MoveTo(x, y) /\ gs' = [gs EXCEPT !.tl = -y] /\ Keep(<<stack, out, nstr>>)
Tm(m) == text.in /\ Did([op |-> "Tm", m |-> m]) /\ text' = [text EXCEPT !.tm = m] /\ Keep(<<gs, stack, out, nstr>>)
NextLine == text.in /\ Did([op |-> "T*"]) /\ text' = MoveTo(0, -gs.tl) /\ Keep(<<gs, stack, out, nstr>>)

(* Showing *)
Elem(t, g, n) == [kind |-> "text", first |-> nstr + 1, n |-> n, font |-> g.font, size |-> g.size, tc |-> g.tc, tw |-> g.tw, ts |-> g.ts,
                  tm |-> t.tm, at |-> Apply(Mul(t.tm, g.ctm), 0, 0)]
Show(op, t, g, n) == /\ text.in /\ Did([op |-> op.op, n |-> n, tw |-> g.tw, tc |-> g.tc])
                     /\ text' = t /\ gs' = g /\ out' = Append(out, Elem(t, g, n)) /\ nstr' = nstr + n /\ Keep(<<stack>>)
Tj == Show([op |-> "Tj"], text, gs, 1)
TJ(n) == Show([op |-> "TJ"], text, gs, n)
Quote == Show([op |-> "'"], MoveTo(0, -gs.tl), gs, 1)
DQuote(w, c) == Show([op |-> "dq"], MoveTo(0, -gs.tl), [gs EXCEPT !.tw = w, !.tc = c], 1)

(* Painting *)
Corners(b) == LET P == {Apply(gs.ctm, x, y) : x \in {b[1], b[1] + b[3]}, y \in {b[2], b[2] + b[4]}}
                  Min(k) == CHOOSE v \in {p[k] : p \in P} : \A p \in P : v <= p[k]
                  Max(k) == CHOOSE v \in {p[k] : p \in P} : \A p \in P : v >= p[k]
              IN <<Min(1), Min(2), Max(1), Max(2)>>
Rect(b) == /\ ~text.in /\ Did([op |-> "re", b |-> b])
           /\ out' = Append(out, [kind |-> "rect", box |-> Corners(b), lw |-> gs.lw, fill |-> gs.fill, stroke |-> gs.stroke]) /\ Keep(<<gs, stack, text, nstr>>)
(* A path of segments m, l, c (its end) and h, painted; each straight one is reported. *)
RECURSIVE Segments(_, _, _)
Segments(segs, start, at) ==
  IF segs = <<>> THEN <<>>
  ELSE LET x == Head(segs) p == <<x.x, x.y>> IN
       CASE x.k = "m" -> Segments(Tail(segs), p, p)
         [] x.k = "c" -> Segments(Tail(segs), start, p)
         [] x.k = "h" -> Segments(Tail(segs), start, start)
         [] x.k = "l" -> <<[kind |-> "line", lw |-> gs.lw, stroke |-> gs.stroke, a |-> Apply(gs.ctm, at[1], at[2]), b |-> Apply(gs.ctm, p[1], p[2])]>>
                         \o Segments(Tail(segs), start, p)
Path(segs) == /\ ~text.in /\ Did([op |-> "path", segs |-> segs])
              /\ out' = out \o Segments(segs, <<0, 0>>, <<0, 0>>) /\ Keep(<<gs, stack, text, nstr>>)
Seg(k, x, y) == [k |-> k, x |-> x, y |-> y]
Line(b) == Path(<<Seg("m", b[1], b[2]), Seg("l", b[3], b[4])>>)
Image == /\ ~text.in /\ Did([op |-> "Do"]) /\ out' = Append(out, [kind |-> "image", m |-> gs.ctm]) /\ Keep(<<gs, stack, text, nstr>>)

Next == \/ Save \/ Restore \/ EndForm \/ StrayQ \/ Begin \/ End \/ NextLine \/ Tj \/ Quote \/ Image
        \/ \E m \in Mats : Concat(m) \/ Form(m) \/ Tm(m)
        \/ \E p \in Moves : Td(p[1], p[2]) \/ TD(p[1], p[2])
        \/ \E f \in Fonts : Font(f, 10 + f)
        \/ \E v \in Spaces : Set("Tc", "tc", v) \/ Set("Tw", "tw", v) \/ Set("TL", "tl", v) \/ Set("Ts", "ts", v) \/ (~text.in /\ Set("w", "lw", v)) \/ DQuote(v, v + 1)
        \/ \E c \in Colors : Set("fill", "fill", c) \/ Set("stroke", "stroke", c)
        \/ \E b \in Boxes : Rect(b) \/ Line(b)
        \/ TJ(0) \/ TJ(2)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Opens(o) == o.op \in {"q", "form"}
Closes(o) == o.op \in {"Q", "endform"}
(* what a log leaves standing: a form's own matrix stands until it ends *)
RECURSIVE Live(_, _)
Live(l, acc) == IF l = <<>> THEN acc
                ELSE IF Closes(Head(l))
                THEN LET S == {i \in 1..Len(acc) : IF Head(l).op = "Q" THEN Opens(acc[i]) ELSE acc[i].op = "form"}
                         k == CHOOSE i \in S : \A j \in S : j <= i
                     IN IF S = {} \/ (Head(l).op = "Q" /\ acc[k].op = "form") THEN Live(Tail(l), acc) ELSE Live(Tail(l), SubSeq(acc, 1, k - 1))
                ELSE Live(Tail(l), Append(acc, Head(l)))
Standing == Live(log, <<>>)
RECURSIVE Product(_, _)
Product(l, m) == IF l = <<>> THEN m
                 ELSE Product(Tail(l), IF Head(l).op \in {"cm", "form"} THEN Mul(Head(l).m, m) ELSE m)
Last(l, S, f(_), d) == LET is == {i \in 1..Len(l) : l[i].op \in S} IN
                       IF is = {} THEN d ELSE f(l[CHOOSE i \in is : \A j \in is : j <= i])
RECURSIVE LineM(_, _)
LineM(l, m) == IF l = <<>> THEN m ELSE
               LET o == Head(l) IN
               LineM(Tail(l), CASE o.op = "BT" -> I [] o.op = "Tm" -> o.m [] o.op \in {"Td", "TD"} -> Mul(Tr(o.x, o.y), m) [] OTHER -> m)
Val(o) == o.v
CTM == gs.ctm = Product(Standing, I)
Params == /\ gs.font = Last(Standing, {"Tf"}, LAMBDA o : o.f, 0)
          /\ gs.size = Last(Standing, {"Tf"}, Val, 0)
          /\ gs.lw = Last(Standing, {"w"}, Val, 1)
          /\ gs.ts = Last(Standing, {"Ts"}, Val, 0)
          /\ gs.tc = Last(Standing, {"Tc", "dq"}, LAMBDA o : IF o.op = "dq" THEN o.tc ELSE o.v, 0)
          /\ gs.tl = Last(Standing, {"TL", "TD"}, LAMBDA o : IF o.op = "TD" THEN -o.y ELSE o.v, 0)
          /\ gs.fill = Last(Standing, {"fill"}, Val, Black)
          /\ gs.stroke = Last(Standing, {"stroke"}, Val, Black)
(* with no line feeds, the line matrix is the last Tm and the moves since *)
Lines == (text.in /\ \A i \in 1..Len(log) : log[i].op \notin {"T*", "'", "dq"}) => text.tm = LineM(log, I)
(* a balanced program leaves everything as it was *)
Top(kinds) == LET S == {i \in 1..Len(stack) : stack[i].kind \in kinds} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : j <= i
Neutral == [][/\ log'[Len(log')].op = "endform" => gs' = stack[Top({"form"})].gs
              /\ log'[Len(log')].op = "Q" => gs' = IF Top({"q"}) > Top({"form"}) THEN stack[Top({"q"})].gs ELSE gs]_vars
Shown == nstr = LET S == [i \in 1..Len(out) |-> IF out[i].kind = "text" THEN out[i].n ELSE 0]
                    RECURSIVE Sum(_)
                    Sum(k) == IF k = 0 THEN 0 ELSE S[k] + Sum(k - 1)
                IN Sum(Len(out))
=============================================================================
