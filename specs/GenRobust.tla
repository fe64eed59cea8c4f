----------------------------- MODULE GenRobust -----------------------------
(***************************************************************************)
(* Behaviours of Robust.tla for the replay: a plan says what is wrong with *)
(* a document and, by Calm, which views must not notice.                   *)
(*                                                                         *)
(* A damage names a piece of the document ("file" is the cross-reference   *)
(* data, the trailer and the object streams, "crypt" the encryption        *)
(* dictionary, "bytes" the bytes of the whole file), which of its sites    *)
(* (values, streams or positions) and how: a value is dropped or becomes   *)
(* another one; a stream's data is cut, changed or replaced; bytes are     *)
(* lost, changed, repeated or inserted.                                    *)
(*                                                                         *)
(* Data formats read outside documents (fonts, images, character maps,     *)
(* filters, XML) are damaged as streams of their own.                      *)
(***************************************************************************)
EXTENDS Robust, Json

CONSTANTS Mode,        \* "values", "sweeps", "streams", "bytes", "shapes", "formats" or "mixed"
          Sites,       \* sites per piece and way (exhaustive generation)
          MaxHits      \* damages per document (random generation)

VARIABLES plan
gvars == <<vars, plan>>

Pieces == {"catalog", "tree", "outline", "item", "names", "form", "field", "xfa", "info", "xmp", "file", "crypt"}
          \cup UNION {{Of("page", i), Of("content", i), Of("res", i), Of("image", i), Of("annots", i)} : i \in P}
WithStreams == {"xfa", "xmp", "field", "file"} \cup UNION {{Of("content", i), Of("res", i), Of("image", i), Of("annots", i)} : i \in P}
ValueHows == {"drop", "null", "minus", "zero", "one", "big", "vast", "real", "name", "string", "array",
              "dict", "self", "top", "gone", "peer", "other", "stream", "nest", "ring"}
StreamHows == {"empty", "cut", "flip", "noise", "tail", "repeat", "zeros"}
ByteHows == {"cut", "head", "flip", "lose", "repeat", "digits", "word", "flood", "shift"}
Shapes == {"pagedeep", "pagefan", "pagering", "formfan", "formring", "formdeep", "fielddeep", "fieldfan", "fieldring",
           "itemdeep", "itemring", "namedeep", "namering", "prevring", "prevcycle", "extends", "lengthring", "refring",
           "nestarray", "nestdict", "neststring", "xmldeep", "prevlong", "inheritring", "contentring", "colorring",
           "maskring", "fontring", "manyops", "manypages", "widekids"}
Formats == {"ttf", "jpeg", "png", "cmap", "differences", "flate", "hex", "a85", "runlength", "dct", "predictor",
            "value", "content", "xfaform", "xfadata", "xfaconfig", "xfaconnection", "xfalocale", "xfastyle",
            "xfafields", "encrypt", "trailer", "xref", "token"}

D(w, p, h, s) == [what |-> w, piece |-> p, how |-> h, site |-> s]
ValueDamages == {D("value", p, h, s) : p \in Pieces, h \in ValueHows, s \in 0..(Sites - 1)}
\* Every site of the piece, one after the other, each in a document of its own;
\* shared out over some behaviours.
SweepDamages == {D("sweep", p, h, s) : p \in Pieces \ {"file", "crypt"}, h \in ValueHows, s \in 0..(Sites - 1)}
StreamDamages == {D("stream", p, h, s) : p \in WithStreams, h \in StreamHows, s \in 0..(Sites - 1)}
ByteDamages == {D("bytes", "bytes", h, s) : h \in ByteHows, s \in 0..(20 * Sites - 1)}
ShapeDamages == {D("shape", "bytes", h, s) : h \in Shapes, s \in 0..2}
FormatDamages == {D("format", f, h, s) : f \in Formats, h \in ByteHows, s \in 0..(Sites - 1)}
Damages == CASE Mode = "values" -> ValueDamages [] Mode = "sweeps" -> SweepDamages
             [] Mode = "streams" -> StreamDamages
             [] Mode = "bytes" -> ByteDamages [] Mode = "shapes" -> ShapeDamages
             [] Mode = "formats" -> FormatDamages
             [] OTHER -> {}

\* Damage to the file itself, or a change of the document's shape, can be
\* anywhere; a replaced encryption dictionary concerns every string and stream.
All(d) == d.piece \in {"file", "crypt", "bytes"} \/ d.what = "format"
Hits(p) == {p[i].piece : i \in DOMAIN p}
CalmOf(p) == IF \E i \in DOMAIN p : All(p[i]) THEN {} ELSE Calm(Hits(p))

GenInit == Init /\ plan = <<>>
One == plan = <<>> /\ \E d \in Damages : plan' = <<d>>
R(S) == RandomElement(S)
Rnd(n) == RandomElement(0..(9999 + (n - n)))
RandomDamage(n) ==
  LET k == RandomElement(1..(20 + (n - n))) IN
  IF k <= 12 THEN D("value", R(IF n >= 0 THEN Pieces ELSE {}), R(IF n >= 0 THEN ValueHows ELSE {}), Rnd(n))
  ELSE IF k <= 16 THEN D("stream", R(IF n >= 0 THEN WithStreams ELSE {}), R(IF n >= 0 THEN StreamHows ELSE {}), Rnd(n))
  ELSE D("bytes", "bytes", R(IF n >= 0 THEN ByteHows ELSE {}), Rnd(n))
More == /\ Len(plan) < MaxHits
        /\ plan' = Append(plan, RandomDamage(Len(plan)))
GenNext == (IF Mode = "mixed" THEN More ELSE One) /\ UNCHANGED vars
GenSpec == GenInit /\ [][GenNext]_gvars

\* In random generation only the longer plans are of interest.
Ready == IF Mode = "mixed" THEN Len(plan) >= 2 ELSE plan # <<>>

Emit == Ready => PrintT("TRACE " \o ToJson([plan |-> plan, calm |-> CalmOf(plan), views |-> Views]))
=============================================================================
