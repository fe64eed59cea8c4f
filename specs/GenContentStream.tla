-------------------------- MODULE GenContentStream --------------------------
(* Programs for the real interpreter, with the elements they must produce.  *)
EXTENDS ContentStream, TLC, Json
CONSTANTS Sim
R(S) == RandomElement(S)
Big(m) == \E i \in 1..6 : m[i] > 3000 \/ m[i] < -3000
(* everything is closed at the end *)
Closing == IF text.in THEN End ELSE IF stack[Len(stack)].kind = "q" THEN Restore ELSE EndForm
Closed == stack = <<>> /\ ~text.in
\* (arguments, so that TLC does not take these for constants and draw only once)
RBox(x) == <<R(-20..20), R(-20..20), R(-30..30), R(-30..30)>>
RColor(x) == LET k == R(1..3) IN CASE k = 1 -> <<"rgb", R(0..4), R(0..4), R(0..4)>> [] k = 2 -> <<"gray", R(0..4)>> [] OTHER -> <<"cmyk", R(0..4), R(0..4), R(0..4), R(0..4)>>
Room == MaxOps - Len(log) > 2 * Len(stack) + 4
TextStep(k) ==
  CASE k = 1 -> End
    [] k \in {2, 3} -> \E x \in {R(-30..30)}, y \in {R(-30..30)} : Td(x, y)
    [] k = 4 -> \E x \in {R(-30..30)}, y \in {R(-30..30)} : TD(x, y)
    [] k = 5 -> \E m \in {R(Mats)}, e \in {R(-20..20)}, f \in {R(-20..20)} : Tm([m EXCEPT ![5] = e, ![6] = f])
    [] k = 6 -> NextLine
    [] k \in {7, 8} -> Tj
    [] k = 9 -> Quote
    [] k = 10 -> \E w \in {R(-3..9)}, c \in {R(-3..9)} : DQuote(w, c)
    [] k = 11 -> \E n \in {R(0..4)} : TJ(n)
    [] k = 12 -> IF R(1..3) = 1 THEN End ELSE Tj
StateStep(k) ==
  CASE k = 1 -> \E f \in {R(Fonts)}, s \in {R(1..40)} : Font(f, s)
    [] k = 2 -> \E v \in {R(-3..9)} : Set("Tc", "tc", v)
    [] k = 3 -> \E v \in {R(-3..9)} : Set("Tw", "tw", v)
    [] k = 4 -> \E v \in {R(-3..20)} : Set("TL", "tl", v)
    [] k = 5 -> \E v \in {R(-3..9)} : Set("Ts", "ts", v)
    [] k = 6 -> \E v \in {R(0..9)} : Set("w", "lw", v)
    [] k = 7 -> \E c \in {RColor(log)} : Set("fill", "fill", c)
    [] k = 8 -> \E c \in {RColor(log)} : Set("stroke", "stroke", c)
    [] k = 9 -> Noise
PageStep(k) ==
  CASE k \in {1, 2} -> IF Len(stack) < MaxDepth THEN Save ELSE Noise
    [] k \in {3, 4} -> IF stack = <<>> THEN (IF R(1..6) = 1 THEN StrayQ ELSE Image)
                   ELSE IF R(1..4) = 1 /\ Forms # {} THEN EndForm
                   ELSE IF R(1..6) = 1 /\ stack[Len(stack)].kind = "form" THEN StrayQ ELSE Closing
    [] k \in {5, 6} -> IF Big(gs.ctm) THEN Noise ELSE \E m \in {R(Mats)}, e \in {R(-20..20)}, f \in {R(-20..20)} : Concat([m EXCEPT ![5] = e, ![6] = f])
    [] k = 7 -> IF Big(gs.ctm) \/ Len(stack) >= MaxDepth THEN Noise ELSE \E m \in {R(Mats)} : Form(m)
    [] k = 8 -> \E b \in {RBox(log)} : Rect(b)
    [] k = 9 -> \E n \in {R(1..6)} : \E segs \in {TLCEval([i \in 1..n + 1 |-> Seg(IF i = 1 THEN "m" ELSE R({"l", "l", "m", "c", "h"}), R(-20..20), R(-30..30))])} : Path(segs)
    [] k = 10 -> Image
    [] k \in {11, 12, 13, 14} -> Begin
SNext == IF ~Room THEN (IF Closed THEN UNCHANGED vars ELSE Closing)
         ELSE \E z \in {R(1..3)} : IF z = 1 THEN \E k \in {R(1..9)} : StateStep(k)
         ELSE IF text.in THEN \E k \in {R(1..12)} : TextStep(k) ELSE \E k \in {R(1..14)} : PageStep(k)
SSpec == Init /\ [][SNext]_vars
(* every short program, then closed *)
GNext == IF Len(log) < MaxOps - 2 THEN Next ELSE (~Closed /\ Closing)
GSpec == Init /\ [][GNext]_vars
Shows == out # <<>>
Emit == (Closed /\ IF Sim THEN ~Room ELSE Shows /\ (Len(log) >= MaxOps - 2)) => PrintT("TRACE " \o ToJson([log |-> log, out |-> out]))
=============================================================================
