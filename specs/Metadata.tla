------------------------------ MODULE Metadata ------------------------------
(***************************************************************************)
(* Document information (ISO 32000-1 14.3.3) over the life of a document:  *)
(* an application changes what it knows about its document, gives it to    *)
(* the document from time to time and saves; the document's version and    *)
(* page count change meanwhile.  Giving makes a new information dictionary *)
(* (objects), which replaces the one before; what a file says is what was  *)
(* given last, whatever happened since (LastGiven).                        *)
(*                                                                         *)
(* Dates are civil times with an offset from UT in minutes; the document's *)
(* form has a sign, hours and minutes.  Both mean the same instant (Same). *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS TextFields, DateFields, CustomFields, NumTexts, Stamps, Versions, MaxGives, MaxPages, MaxFiles

VARIABLES app,      \* field -> what the application knows
          objects,  \* information dictionaries made: field -> what the document says
          given,    \* history: what the application gave
          ver,      \* [header, catalog]
          pages, files
vars == <<app, objects, given, ver, pages, files>>

Fields == TextFields \cup DateFields \cup CustomFields

-----------------------------------------------------------------------------
(* Dates: <<year, month, day, hour, minute, second, offset>> *)
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
MonthDays(y) == <<31, IF Leap(y) THEN 29 ELSE 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31>>
Sum(s, n) == LET RECURSIVE F(_)
                 F(i) == IF i = 0 THEN 0 ELSE s[i] + F(i - 1)
             IN F(n)
Days(y, m, d) == LET p == y - 1 IN 365 * p + p \div 4 - p \div 100 + p \div 400 + Sum(MonthDays(y), m - 1) + d
Minutes(t) == <<Days(t[1], t[2], t[3]) * 1440 + t[4] * 60 + t[5] - t[7], t[6]>>
Abs(x) == IF x < 0 THEN -x ELSE x
PdfDate(t) == [y |-> t[1], mo |-> t[2], d |-> t[3], h |-> t[4], mi |-> t[5], s |-> t[6],
               sign |-> IF t[7] < 0 THEN -1 ELSE 1, oh |-> Abs(t[7]) \div 60, om |-> Abs(t[7]) % 60]
PdfMinutes(p) == <<Days(p.y, p.mo, p.d) * 1440 + p.h * 60 + p.mi - p.sign * (p.oh * 60 + p.om), p.s>>
\* forms a caller may use for a date; some leave parts out
Cut(t, form) == CASE form = "rfc" -> t
                  [] form \in {"t", "space"} -> [t EXCEPT ![7] = 0]
                  [] form = "day" -> <<t[1], t[2], t[3], 0, 0, 0, 0>>
                  [] OTHER -> t
DateForms == {"rfc", "t", "space", "day"}

OneStamp == {<<2000, 3, 1, 12, 30, 1, -30>>}
SomeStamps == {<<2024, 2, 29, 23, 59, 59, -210>>, <<1999, 12, 31, 0, 0, 0, 345>>, <<2000, 3, 1, 12, 30, 1, -30>>, <<2023, 1, 1, 1, 1, 1, 0>>,
               <<1900, 3, 1, 0, 15, 0, -720>>, <<2100, 2, 28, 23, 0, 7, 840>>}
Same == \A t \in Stamps : PdfMinutes(PdfDate(t)) = Minutes(t)

-----------------------------------------------------------------------------
Stored(v) == CASE v.k = "text" -> v
               [] v.k = "date" -> [k |-> "date", at |-> PdfDate(Cut(v.t, v.form))]
               [] v.k = "pdf" -> v                      \* a date in PDF form stays as it is
Known == {f \in Fields : app[f].k # "none"}
Say(a) == [f \in {x \in Fields : a[x].k # "none"} |-> Stored(a[f])]

Init == /\ app = [f \in Fields |-> [k |-> "none"]] /\ objects = <<>> /\ given = <<>>
        /\ ver \in {[header |-> v, catalog |-> 0] : v \in Versions} /\ pages = 1 /\ files = <<>>
Learn(f, v) == app[f] # v /\ app' = [app EXCEPT ![f] = v] /\ UNCHANGED <<objects, given, ver, pages, files>>
Give == /\ Len(given) < MaxGives
        /\ objects' = Append(objects, Say(app)) /\ given' = Append(given, app)
        /\ UNCHANGED <<app, ver, pages, files>>
SetVersion(v) == ver.catalog # v /\ ver' = [ver EXCEPT !.catalog = v] /\ UNCHANGED <<app, objects, given, pages, files>>
AddPage == pages < MaxPages /\ pages' = pages + 1 /\ UNCHANGED <<app, objects, given, ver, files>>
Version == IF ver.catalog > ver.header THEN ver.catalog ELSE ver.header
Save == /\ Len(files) < MaxFiles
        /\ files' = Append(files, [info |-> IF objects = <<>> THEN <<>> ELSE objects[Len(objects)],
                                   gives |-> Len(given), pages |-> pages, version |-> Version])
        /\ UNCHANGED <<app, objects, given, ver, pages>>

Texts == {[k |-> "text", n |-> i] : i \in 1..NumTexts}
Dates == {[k |-> "date", t |-> t, form |-> f] : t \in Stamps, f \in DateForms}
Next == \/ \E f \in TextFields \cup CustomFields : \E v \in Texts \cup {[k |-> "none"]} : Learn(f, v)
        \/ \E f \in DateFields : \E v \in Dates \cup {[k |-> "none"]} : Learn(f, v)
        \/ Give \/ AddPage \/ Save \/ \E v \in Versions : SetVersion(v)
Spec == Init /\ [][Next]_vars

LastGiven == \A i \in DOMAIN files :
  LET g == files[i].gives IN
  IF g = 0 THEN files[i].info = <<>>
  ELSE /\ DOMAIN files[i].info = {f \in Fields : given[g][f].k # "none"}
       /\ \A f \in DOMAIN files[i].info :
            LET v == given[g][f]
                s == files[i].info[f] IN
            IF v.k = "date" THEN PdfMinutes(s.at) = Minutes(Cut(v.t, v.form)) ELSE s = v
Grows == \A i \in DOMAIN files : i < Len(files) => files[i].pages <= files[i + 1].pages /\ files[i].gives <= files[i + 1].gives
=============================================================================
