------------------------------ MODULE Filters ------------------------------
(***************************************************************************)
(* Stream filters as machines (ISO 32000-1 7.4), scaled down: a byte has   *)
(* B values, a hex digit H = sqrt(B), an ASCII85 group holds 2 bytes in 3  *)
(* digits of base 3 (B*B = 16 <= 27) instead of 4 bytes in 5 of base 85.   *)
(*                                                                         *)
(* An encoder writes symbols (tagged tuples) one at a time and may choose at every step:   *)
(* white space, how to cut runs, whether to abbreviate a zero group, which *)
(* row filter, whether to write the end-of-data mark.  The decoder is the  *)
(* standard's, run over what was written so far.  RoundTrip: when the      *)
(* encoder is done the decoder gives the data, whatever was chosen.        *)
(* Growing: at every moment the decoder gives a prefix of the data, but    *)
(* for the bytes of an unfinished group: a file cut short loses its end    *)
(* and nothing else.                                                       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Codecs, MaxLen, MaxWs, RowLen, Pixels

B == 4
H == 2
Byte == 0..(B - 1)
Strings == UNION { [1..n -> Byte] : n \in 0..MaxLen }

VARIABLES codec, data, pos, code, ws, done, px
vars == <<codec, data, pos, code, ws, done, px>>

Init == /\ codec \in Codecs /\ data \in Strings /\ pos = 0 /\ code = <<>> /\ ws = 0 /\ done = FALSE
        /\ px \in Pixels
        /\ codec # "png" => px = CHOOSE p \in Pixels : TRUE
        /\ codec = "png" => Len(data) % RowLen = 0

Dg(s) == [i \in 1..Len(s) |-> <<"d", s[i]>>]
Put(s, n) == code' = code \o s /\ pos' = pos + n /\ UNCHANGED <<codec, data, ws, done, px>>
Rest == Len(data) - pos
At(i) == data[pos + i]

White == /\ codec \in {"hex", "b85"} /\ ~done /\ ws < MaxWs
         /\ code' = Append(code, <<"ws">>) /\ ws' = ws + 1 /\ UNCHANGED <<codec, data, pos, done, px>>

(* Hex: a whole byte, or the last one with its zero second digit left out. *)
HexStep == codec = "hex" /\ ~done /\ Rest > 0 /\
  \/ Put(Dg(<<At(1) \div H, At(1) % H>>), 1)
  \/ Rest = 1 /\ At(1) % H = 0 /\ Put(Dg(<<At(1) \div H>>), 1)
(* a digit left out is only legal right before the end *)

Group(v) == <<v \div 9, (v \div 3) % 3, v % 3>>
B85Step == codec = "b85" /\ ~done /\
  \/ Rest >= 2 /\ Put(Dg(Group(At(1) * B + At(2))), 2)
  \/ Rest >= 2 /\ At(1) = 0 /\ At(2) = 0 /\ Put(<<<<"z">>>>, 2)
  \/ Rest = 1 /\ Put(Dg(SubSeq(Group(At(1) * B), 1, 2)), 1)

(* Run lengths: <<"lit", n>> then n bytes, <<"rep", n>> then one byte. *)
RLStep == codec = "rl" /\ ~done /\ \E n \in 1..Rest :
  \/ Put(<<<<"lit", n>>>> \o Dg(SubSeq(data, pos + 1, pos + n)), n)
  \/ n >= 2 /\ (\A i \in 1..n : At(i) = At(1)) /\ Put(<<<<"rep", n>>, <<"d", At(1)>>>>, n)

(* PNG rows. *)
Abs(x, y) == IF x > y THEN x - y ELSE y - x
Paeth(a, b, c) == LET p == a + b     \* compare with c kept on the other side
                      pa == Abs(p, a + c) pb == Abs(p, b + c) pc == Abs(p, c + c)
                  IN IF pa <= pb /\ pa <= pc THEN a ELSE IF pb <= pc THEN b ELSE c
Predict(t, a, b, c) == CASE t = 0 -> 0 [] t = 1 -> a [] t = 2 -> b [] t = 3 -> (a + b) \div 2 [] OTHER -> Paeth(a, b, c)
Byt(d, i) == IF i < 1 THEN 0 ELSE d[i]
(* neighbours of byte i (1-based) of row r (0-based) in d *)
Left(d, r, i) == IF i <= px THEN 0 ELSE d[r * RowLen + i - px]
Up(d, r, i)   == IF r = 0 THEN 0 ELSE d[(r - 1) * RowLen + i]
UpL(d, r, i)  == IF r = 0 \/ i <= px THEN 0 ELSE d[(r - 1) * RowLen + i - px]
PngStep == codec = "png" /\ ~done /\ Rest > 0 /\ \E t \in 0..4 :
  LET r == pos \div RowLen IN
  Put(<<<<"row", t>>>> \o Dg([i \in 1..RowLen |-> (At(i) + B - (Predict(t, Left(data, r, i), Up(data, r, i), UpL(data, r, i)) % B)) % B]), RowLen)

Finish == /\ ~done /\ Rest = 0 /\ done' = TRUE
          /\ code' \in (IF codec = "png" THEN {code} ELSE {code, Append(code, <<"eod">>)})
          /\ UNCHANGED <<codec, data, pos, ws, px>>
(* whatever follows the end-of-data mark is not data *)
Trail == /\ done /\ code # <<>> /\ code[Len(code)] = <<"eod">> /\ codec # "png"
         /\ code' = Append(code, <<"d", 1>>) /\ UNCHANGED <<codec, data, pos, ws, done, px>>

Next == White \/ HexStep \/ B85Step \/ RLStep \/ PngStep \/ Finish \/ Trail
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* The decoders. *)
RECURSIVE HexD(_, _, _, _)
HexD(c, i, half, out) ==         \* half: digit waiting for its partner, H if none
  IF i > Len(c) \/ (i <= Len(c) /\ c[i][1] = "eod") THEN (IF half < H THEN Append(out, half * H) ELSE out)
  ELSE IF c[i][1] = "ws" THEN HexD(c, i + 1, half, out)
  ELSE IF half < H THEN HexD(c, i + 1, H, Append(out, half * H + c[i][2]))
  ELSE HexD(c, i + 1, c[i][2], out)

Val3(g) == g[1] * 9 + g[2] * 3 + g[3]
RECURSIVE B85D(_, _, _, _)
B85D(c, i, g, out) ==
  IF i > Len(c) \/ (i <= Len(c) /\ c[i][1] = "eod")
  THEN (CASE Len(g) = 2 -> Append(out, (Val3(Append(g, 2)) \div B) % B) [] OTHER -> out)
  ELSE IF c[i][1] = "ws" THEN B85D(c, i + 1, g, out)
  ELSE IF c[i][1] = "z" THEN B85D(c, i + 1, g, out \o <<0, 0>>)
  ELSE LET h == Append(g, c[i][2]) IN
       IF Len(h) = 3 THEN B85D(c, i + 1, <<>>, out \o <<(Val3(h) \div B) % B, Val3(h) % B>>)
       ELSE B85D(c, i + 1, h, out)

RECURSIVE RLD(_, _, _)
RLD(c, i, out) ==
  IF i > Len(c) THEN out
  ELSE IF c[i][1] = "eod" THEN out
  ELSE IF c[i][1] = "lit" THEN RLD(c, i + c[i][2] + 1, out \o [k \in 1..c[i][2] |-> c[i + k][2]])
  ELSE RLD(c, i + 2, out \o [k \in 1..c[i][2] |-> c[i + 1][2]])

RECURSIVE PngByte(_, _, _, _)
PngByte(c, r, i, out) ==          \* undo byte i of row r; out holds all bytes before it
  IF i > RowLen THEN out
  ELSE LET t == c[r * (RowLen + 1) + 1][2]
           v == (c[r * (RowLen + 1) + 1 + i][2] + Predict(t, Left(out, r, i), Up(out, r, i), UpL(out, r, i))) % B
       IN PngByte(c, r, i + 1, Append(out, v))
RECURSIVE PngD(_, _, _)
PngD(c, r, out) == IF r * (RowLen + 1) >= Len(c) THEN out ELSE PngD(c, r + 1, PngByte(c, r, 1, out))

Decode(c) == CASE codec = "hex" -> HexD(c, 1, H, <<>>)
               [] codec = "b85" -> B85D(c, 1, <<>>, <<>>)
               [] codec = "rl"  -> RLD(c, 1, <<>>)
               [] OTHER -> PngD(c, 0, <<>>)

IsPrefix(s, t) == Len(s) <= Len(t) /\ SubSeq(t, 1, Len(s)) = s
Whole(s) == IF codec \in {"hex", "b85"} /\ s # <<>> THEN SubSeq(s, 1, Len(s) - 1) ELSE s
RoundTrip == done => Decode(code) = data
(* cut anywhere (run lengths and rows: at a record) *)
Growing == LET cut == IF codec \in {"hex", "b85"} THEN 0..Len(code) ELSE {Len(code)} IN
           \A k \in cut : IsPrefix(Whole(Decode(SubSeq(code, 1, k))), data)
=============================================================================
