---------------------------- MODULE TextStrings ----------------------------
(***************************************************************************)
(* Text strings (ISO 32000-1 7.9.2) inside literal strings (7.3.4.2): what *)
(* lies between the text a user sees and the bytes of a document.          *)
(*                                                                         *)
(* A writer picks a text and an encoding (PDFDocEncoding, UTF-16BE with a  *)
(* byte order mark, UTF-8 with one) and writes the bytes in any of the     *)
(* forms the syntax has for them; a reader takes the syntax in character   *)
(* by character.  The invariants say that the writer's rules (when the     *)
(* document encoding may be used, when an octal escape may be short, which *)
(* parentheses need no escape, that a bare CR needs one) are enough: what  *)
(* was read is what was written (InStep), and decoding gives the text back *)
(* (Back).  Text is a sequence of code points.                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Alphabet, Encodings, MaxText, MaxConts

\* code points whose code in PDFDocEncoding differs, as far as they are used
DocTable == {<<8226, 128>>, <<321, 149>>, <<8364, 160>>, <<64257, 147>>}
InTable(c) == \E e \in DocTable : e[1] = c
DocCode(c) == IF InTable(c) THEN (CHOOSE e \in DocTable : e[1] = c)[2] ELSE c
DocChar(b) == IF \E e \in DocTable : e[2] = b THEN (CHOOSE e \in DocTable : e[2] = b)[1] ELSE b
HasDoc(c) == InTable(c) \/ (c < 256 /\ \A e \in DocTable : e[2] # c)

Units(c) == IF c < 65536 THEN <<c>> ELSE LET v == c - 65536 IN <<55296 + v \div 1024, 56320 + (v % 1024)>>
Utf8(c) == IF c < 128 THEN <<c>>
           ELSE IF c < 2048 THEN <<192 + c \div 64, 128 + (c % 64)>>
           ELSE IF c < 65536 THEN <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
           ELSE <<240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
RECURSIVE Join(_)
Join(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Join(Tail(ss))
Pair(c) == LET u == Units(c) IN Join([i \in DOMAIN u |-> <<u[i] \div 256, u[i] % 256>>])

Starts(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
Bom16 == <<254, 255>>
Bom16L == <<255, 254>>
Bom8 == <<239, 187, 191>>
Marked(b) == Starts(b, Bom16) \/ Starts(b, Bom16L) \/ Starts(b, Bom8)
DocBytes(t) == [i \in DOMAIN t |-> DocCode(t[i])]
MayDoc(t) == (\A i \in DOMAIN t : HasDoc(t[i])) /\ ~Marked(DocBytes(t))
May(t, e) == e = "doc" => MayDoc(t)
Encode(t, e) == CASE e = "doc" -> DocBytes(t) [] e = "u16" -> Bom16 \o Join([i \in DOMAIN t |-> Pair(t[i])]) [] e = "u8" -> Bom8 \o Join([i \in DOMAIN t |-> Utf8(t[i])])

Dec16(b) ==
  LET u == [i \in 1..(Len(b) \div 2) |-> b[2*i - 1] * 256 + b[2*i]]
      RECURSIVE F(_)
      F(i) == IF i > Len(u) THEN <<>>
              ELSE IF u[i] \in 55296..56319 /\ i < Len(u) /\ u[i + 1] \in 56320..57343
                   THEN <<65536 + (u[i] - 55296) * 1024 + u[i + 1] - 56320>> \o F(i + 2)
              ELSE <<u[i]>> \o F(i + 1)
  IN F(1)
RECURSIVE Dec8(_)
Dec8(b) == IF b = <<>> THEN <<>>
           ELSE IF b[1] < 128 THEN <<b[1]>> \o Dec8(Tail(b))
           ELSE IF b[1] < 224 THEN <<(b[1] - 192) * 64 + b[2] - 128>> \o Dec8(SubSeq(b, 3, Len(b)))
           ELSE IF b[1] < 240 THEN <<(b[1] - 224) * 4096 + (b[2] - 128) * 64 + b[3] - 128>> \o Dec8(SubSeq(b, 4, Len(b)))
           ELSE <<(b[1] - 240) * 262144 + (b[2] - 128) * 4096 + (b[3] - 128) * 64 + b[4] - 128>> \o Dec8(SubSeq(b, 5, Len(b)))
Decode(b) == IF Starts(b, Bom16) THEN Dec16(SubSeq(b, 3, Len(b)))
             ELSE IF Starts(b, Bom8) THEN Dec8(SubSeq(b, 4, Len(b)))
             ELSE [i \in DOMAIN b |-> DocChar(b[i])]

-----------------------------------------------------------------------------
VARIABLES text, enc, todo,   \* the text, its encoding, bytes not yet written
          lit,               \* syntax written, from the opening parenthesis on
          short,             \* the last escape was a short octal one
          conts,             \* line continuations so far
          rd                 \* the reader: [depth, esc, oct, cr, out, done]
vars == <<text, enc, todo, lit, short, conts, rd>>

LP == 40
RP == 41
BS == 92
CR == 13
LF == 10
IsDigit(c) == c \in 48..57
IsOct(c) == c \in 48..55
Escapes == {<<10, 110>>, <<13, 114>>, <<9, 116>>, <<8, 98>>, <<12, 102>>}    \* \n \r \t \b \f

(* The reader, one character at a time.  esc: 0 outside an escape, 1 after *)
(* the backslash, 2 and 3 after one and two octal digits, 4 after \ CR.    *)
Reader0 == [depth |-> 1, esc |-> 0, oct |-> 0, cr |-> FALSE, out |-> <<>>, done |-> FALSE]
Put(r, b) == [r EXCEPT !.out = Append(@, b), !.esc = 0, !.cr = FALSE]
Plain(r, c) ==
  CASE c = BS -> [r EXCEPT !.esc = 1, !.cr = FALSE]
    [] c = LP -> [Put(r, c) EXCEPT !.depth = @ + 1]
    [] c = RP -> IF r.depth = 1 THEN [r EXCEPT !.depth = 0, !.done = TRUE, !.esc = 0, !.cr = FALSE] ELSE [Put(r, c) EXCEPT !.depth = @ - 1]
    [] c = CR -> [Put(r, LF) EXCEPT !.cr = TRUE]
    [] c = LF /\ r.cr -> [r EXCEPT !.cr = FALSE]
    [] OTHER -> Put(r, c)
Take(r, c) ==
  IF r.esc = 0 THEN Plain(r, c)
  ELSE IF r.esc = 1 THEN
    (CASE IsOct(c) -> [r EXCEPT !.esc = 2, !.oct = c - 48]
       [] c = CR -> [r EXCEPT !.esc = 4]
       [] c = LF -> [r EXCEPT !.esc = 0]
       [] \E e \in Escapes : e[2] = c -> Put(r, (CHOOSE e \in Escapes : e[2] = c)[1])
       [] OTHER -> Put(r, c))
  ELSE IF r.esc = 4 THEN IF c = LF THEN [r EXCEPT !.esc = 0] ELSE Plain([r EXCEPT !.esc = 0], c)
  ELSE IF IsOct(c) THEN
    LET v == r.oct * 8 + c - 48 IN IF r.esc = 3 THEN Put(r, v % 256) ELSE [r EXCEPT !.esc = 3, !.oct = v]
  ELSE Plain(Put(r, r.oct), c)
RECURSIVE TakeAll(_, _)
TakeAll(r, s) == IF s = <<>> THEN r ELSE TakeAll(Take(r, Head(s)), Tail(s))

(* The writer *)
Oct(b, n) == CASE n = 3 -> <<BS, 48 + b \div 64, 48 + ((b \div 8) % 8), 48 + (b % 8)>>
               [] n = 2 -> <<BS, 48 + b \div 8, 48 + (b % 8)>>
               [] n = 1 -> <<BS, 48 + b>>
Rest == Len(todo) - 1
Opened == rd.depth - 1
Forms(b) ==
  {Oct(b, 3)} \cup (IF b < 64 THEN {Oct(b, 2)} ELSE {}) \cup (IF b < 8 THEN {Oct(b, 1)} ELSE {})
  \cup {<<BS, e[2]>> : e \in {x \in Escapes : x[1] = b}}
  \cup (IF b \in {LP, RP, BS} THEN {<<BS, b>>} ELSE {})
  \cup (IF b \notin {LP, RP, BS, CR} /\ ~(short /\ IsDigit(b)) THEN {<<b>>} ELSE {})
  \cup (IF b = LP /\ Rest > Opened THEN {<<b>>} ELSE {})   \* room to close it again
  \cup (IF b = RP /\ Opened > 0 THEN {<<b>>} ELSE {})
IsShort(f) == Len(f) \in 2..3 /\ f[1] = BS /\ IsOct(f[2])

Texts == UNION {[1..n -> Alphabet] : n \in 0..MaxText}
Init == /\ text \in Texts /\ enc \in {e \in Encodings : May(text, e)} /\ todo = Encode(text, enc)
        /\ lit = <<LP>> /\ short = FALSE /\ conts = 0 /\ rd = Reader0
WriteForm(f) == /\ lit' = lit \o f /\ rd' = TakeAll(rd, f) /\ short' = IsShort(f) /\ UNCHANGED <<text, enc>>
WriteByte == /\ todo # <<>>
             /\ \E f \in Forms(Head(todo)) : WriteForm(f)
             /\ todo' = Tail(todo) /\ UNCHANGED conts
Continue == /\ conts < MaxConts /\ ~rd.done
            /\ \E e \in {<<LF>>, <<CR, LF>>} : WriteForm(<<BS>> \o e)
            /\ conts' = conts + 1 /\ UNCHANGED todo
Close == /\ todo = <<>> /\ Opened = 0 /\ ~rd.done
         /\ WriteForm(<<RP>>) /\ UNCHANGED <<todo, conts>>
Next == WriteByte \/ Continue \/ Close
Spec == Init /\ [][Next]_vars

Pending == IF rd.esc \in {2, 3} THEN Append(rd.out, rd.oct) ELSE rd.out
Done == rd.done
InStep == Pending \o todo = Encode(text, enc)
Back == Done => Decode(rd.out) = text
=============================================================================
