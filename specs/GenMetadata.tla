---------------------------- MODULE GenMetadata ----------------------------
(* Lives of documents for replay. *)
EXTENDS Metadata, Json
CONSTANT MaxOps
VARIABLE log
gvars == <<vars, log>>
Pick(S) == {RandomElement(S)}
RandStamp(i) == LET y == RandomElement(IF RandomElement(1..3) = 1 THEN {1900, 1999, 2000, 2004, 2023, 2024, 2100} ELSE 1950..2060)
                 m == RandomElement(1..12)
             IN <<y, m, RandomElement({1, MonthDays(y)[m], RandomElement(1..MonthDays(y)[m])}),
                  RandomElement({0, 23, RandomElement(0..23)}), RandomElement({0, 59, RandomElement(0..59)}), RandomElement({0, 59, RandomElement(0..59)}),
                  RandomElement({0, RandomElement(-59..59), 15 * RandomElement(-48..56), RandomElement(-839..839)})>>
Op(a) == log' = Append(log, a)
Tell(f, v) == IF app[f] # v THEN Learn(f, v) /\ Op([a |-> "learn", f |-> f, v |-> v]) ELSE UNCHANGED vars /\ Op([a |-> "nop"])
Nop == UNCHANGED vars /\ Op([a |-> "nop"])
Store == IF Len(files) < MaxFiles - 1 THEN Save /\ Op([a |-> "save"]) ELSE Nop
Do ==
  \E c \in Pick(1..16) :
    CASE c <= 4 -> \E f \in Pick(TextFields), n \in Pick(1..NumTexts) : Tell(f, [k |-> "text", n |-> n])
      [] c <= 7 -> \E f \in Pick(CustomFields), n \in Pick(1..NumTexts) : Tell(f, [k |-> "text", n |-> n])
      [] c <= 10 -> \E f \in Pick(DateFields), t \in Pick({TLCEval(RandStamp(Len(log)))}), m \in Pick(DateForms \cup {"rfc", "pdf"}), n \in Pick(1..12) :
                      LET v == IF m = "pdf" THEN [k |-> "pdf", n |-> n] ELSE [k |-> "date", t |-> t, form |-> m]
                      IN Tell(f, v)
      [] c = 11 -> \E f \in Pick(Fields) : IF app[f].k # "none" THEN Learn(f, [k |-> "none"]) /\ Op([a |-> "forget", f |-> f]) ELSE Store
      [] c <= 13 -> IF Len(given) < MaxGives THEN Give /\ Op([a |-> "give"]) ELSE Store
      [] c = 14 -> IF pages < MaxPages THEN AddPage /\ Op([a |-> "page"]) ELSE Store
      [] c = 15 -> \E v \in Pick(Versions) : IF ver.catalog # v THEN SetVersion(v) /\ Op([a |-> "version", v |-> v]) ELSE AddPage /\ Op([a |-> "page"])
      [] OTHER -> Store
SInit == Init /\ log = <<>>
SNext == /\ Len(log) < MaxOps
         /\ IF Len(log) = MaxOps - 1 THEN Save /\ Op([a |-> "save"])
            ELSE IF Len(log) = MaxOps - 2 THEN IF Len(given) < MaxGives THEN Give /\ Op([a |-> "give"]) ELSE Nop ELSE Do
SSpec == SInit /\ [][SNext]_gvars
Facts == [i \in DOMAIN files |-> [info |-> {<<f, files[i].info[f]>> : f \in DOMAIN files[i].info}, gives |-> files[i].gives,
                                  pages |-> files[i].pages, version |-> files[i].version]]
Emit == Len(log) = MaxOps => PrintT("TRACE " \o ToJson([header |-> ver.header, log |-> log, files |-> Facts]))

(* every date in every form, alone *)
GInit == Init /\ log = <<>>
GNext == \/ /\ log = <<>> /\ \E f \in Fields : \E v \in IF f \in DateFields THEN Dates ELSE Texts : Learn(f, v) /\ Op([a |-> "learn", f |-> f, v |-> v])
         \/ Len(log) = 1 /\ Give /\ Op([a |-> "give"])
         \/ Len(log) = 2 /\ Save /\ Op([a |-> "save"])
GSpec == GInit /\ [][GNext]_gvars
GEmit == Len(log) = 3 => PrintT("TRACE " \o ToJson([header |-> ver.header, log |-> log, files |-> Facts]))
=============================================================================
