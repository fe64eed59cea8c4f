--------------------------- MODULE GenTextStrings ---------------------------
EXTENDS TextStrings, TLC, Json
CONSTANT Wide                       \* alphabet of the random texts
VARIABLE want                       \* how long a random text is; 0: it is chosen
gvars == <<vars, want>>
GInStep == want = 0 => InStep
Emit == Done => PrintT("TRACE " \o ToJson([text |-> text, enc |-> enc, lit |-> lit]))

\* every form of every short text
GSpec == Init /\ want = 0 /\ [][Next /\ UNCHANGED want]_gvars

\* random forms of long texts
Pick(S) == {RandomElement(S)}
SInit == /\ want \in 1..MaxText /\ text = <<>> /\ enc = "doc" /\ todo = <<>>
         /\ lit = <<LP>> /\ short = FALSE /\ conts = 0 /\ rd = Reader0
Choose == /\ want > 0
          /\ IF Len(text) < want
             THEN /\ \E c \in Pick(IF RandomElement(1..3) = 1 THEN {40, 41, 92} ELSE IF RandomElement(1..4) = 1 THEN Wide ELSE Alphabet) : text' = Append(text, c)
                  /\ UNCHANGED <<want, enc, todo>>
             ELSE /\ \E e \in Pick({x \in Encodings : May(text, x)}) : enc' = e /\ todo' = Encode(text, e)
                  /\ want' = 0 /\ UNCHANGED text
          /\ UNCHANGED <<lit, short, conts, rd>>
SNext == IF want > 0 THEN Choose
         ELSE /\ UNCHANGED want
              /\ IF conts < MaxConts /\ ~rd.done /\ RandomElement(1..12) = 1 THEN Continue
                 ELSE IF todo = <<>> THEN Close
                 ELSE /\ \E f \in Pick(LET b == Head(todo)
                                            fs == Forms(b)
                                            \* a bare parenthesis only where it can be closed
                                            ok == IF b = LP /\ Opened + 1 > Cardinality({i \in 2..Len(todo) : todo[i] = RP}) THEN fs \ {<<b>>}
                                                  ELSE IF b = RP /\ Opened > 0 /\ Opened >= Cardinality({i \in 1..Len(todo) : todo[i] = RP}) THEN {<<b>>} ELSE fs
                                        IN IF b \in {LP, RP, BS} \/ RandomElement(1..3) = 1 \/ <<b>> \notin ok THEN ok ELSE {<<b>>}) : WriteForm(f)
                      /\ todo' = Tail(todo) /\ UNCHANGED conts
SSpec == SInit /\ [][SNext]_gvars
=============================================================================
