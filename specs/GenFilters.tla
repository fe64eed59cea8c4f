----------------------------- MODULE GenFilters -----------------------------
(***************************************************************************)
(* Cases for the real filters: data as a list of segments, a chain of      *)
(* filters with the choices their encoders make, and what may happen to    *)
(* the encoded bytes on the way (nothing, a cut, a changed byte).          *)
(* Encode pushes a filter on the chain; the reader must pop them all.      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxSegs, MaxChain, Damages
Segs == {"zero", "run", "lit", "ramp", "rand", "eod"}
Lens == {0, 1, 2, 3, 4, 5, 7, 127, 128, 129, 130, 256, 257, 1000}
Names == {"FlateDecode", "ASCIIHexDecode", "ASCII85Decode", "RunLengthDecode"}
Choices(f) == CASE f = "FlateDecode" -> {"stored", "fast", "best", "huffman", "blocks"}
                [] f = "ASCIIHexDecode" -> {"upper", "lower", "mixed", "spaced", "odd", "noeod", "trail"}
                [] f = "ASCII85Decode" -> {"plain", "noz", "spaced", "noeod", "trail"}
                [] f = "RunLengthDecode" -> {"greedy", "literal", "cut", "noeod", "trail"}
None == [p |-> 0, colors |-> 1, bits |-> 8, cols |-> 1, full |-> TRUE]
Preds == {None} \cup [p : {2, 10, 11, 12, 13, 14, 15}, colors : {1, 2, 3, 4, 5}, bits : {1, 2, 4, 8, 16}, cols : {1, 2, 3, 5, 8, 17, 100}, full : BOOLEAN]

VARIABLES segs, chain, damage, steps
vars == <<segs, chain, damage, steps>>
Init == segs = <<>> /\ chain = <<>> /\ damage = "" /\ steps = 0
Add(k, n) == chain = <<>> /\ Len(segs) < MaxSegs /\ segs' = Append(segs, <<k, n>>) /\ steps' = steps + 1 /\ UNCHANGED <<chain, damage>>
Encode(f, h, p) == segs # <<>> /\ damage = "" /\ Len(chain) < MaxChain
                   /\ chain' = Append(chain, [f |-> f, how |-> h, pred |-> p]) /\ steps' = steps + 1 /\ UNCHANGED <<segs, damage>>
Harm(d) == chain # <<>> /\ damage = "" /\ damage' = d /\ steps' = steps + 1 /\ UNCHANGED <<segs, chain>>

(* exhaustive: one segment of every kind and length, one filter every way *)
GNext == \/ \E k \in Segs, n \in Lens : Add(k, n)
         \/ \E f \in Names : \E h \in Choices(f) : Encode(f, h, None)
         \/ \E d \in Damages : Harm(d)
GSpec == Init /\ [][GNext]_vars
(* exhaustive over predictors on one kind of data *)
PNext == \/ Add("rand", 257)
         \/ \E p \in Preds \ {None} : Encode("FlateDecode", "fast", p)
PSpec == Init /\ [][PNext]_vars
SNext == IF chain = <<>> /\ (segs = <<>> \/ (Len(segs) < MaxSegs /\ RandomElement(1..3) > 1))
         THEN \E k \in {RandomElement(Segs)}, n \in {RandomElement(Lens)} : Add(k, n)
         ELSE IF Len(chain) < MaxChain /\ (chain = <<>> \/ RandomElement(1..2) = 1) /\ damage = ""
         THEN \E f \in {RandomElement(Names)} :
                \E h \in {RandomElement(Choices(f))}, p \in {IF f = "FlateDecode" /\ RandomElement(1..3) > 1 THEN RandomElement(Preds) ELSE None} :
                  Encode(f, h, p)
         ELSE IF damage = "" THEN \E d \in {RandomElement(Damages)} : Harm(d) ELSE UNCHANGED vars
SSpec == Init /\ [][SNext]_vars
Emit == (chain # <<>> /\ (damage # "" \/ Damages = {})) => PrintT("TRACE " \o ToJson([segs |-> segs, chain |-> chain, damage |-> damage]))
=============================================================================
