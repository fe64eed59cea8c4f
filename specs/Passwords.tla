----------------------------- MODULE Passwords -----------------------------
(***************************************************************************)
(* Which passwords open a document encrypted by the standard security      *)
(* handler (ISO 32000-1 7.6.3, ISO 32000-2 7.6.4).                         *)
(*                                                                         *)
(* Cryptography is symbolic: a hash is a tuple of what went in, and a      *)
(* cipher text only opens with the key it was made with.  The low level    *)
(* runs the standard's algorithms on the stored entries O, U, OE, UE; the  *)
(* high level only knows the two passwords.  Opens says both agree.        *)
(*                                                                         *)
(* Passwords are symbols.  Revisions 2-4 see a password padded and cut to  *)
(* 32 bytes, 5 and 6 cut to 127 bytes; Seen gives what is left of each, so *)
(* symbols with the same value are the same password to that handler.      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Handlers,    \* security handlers documents are made with
          Pws,         \* passwords documents are made with and tried with
          MaxSteps     \* steps of a document's life after it was made

AllPws == {"e", "a", "b", "c", "aP", "p", "l", "lx", "m", "mx", "m1", "u"}
(* e: empty; aP: a filled up to 32 bytes from the padding string; p: the    *)
(* padding string; l: 32 bytes; lx: l and more; m: 127 bytes starting with  *)
(* lx; mx: m and more; m1: m without its last byte.                         *)
Legacy == {"R2", "R3v1", "R3", "R4rc4", "R4aes"}
Modern == {"R5", "R6"}
Seen(h, p) == IF h \in Legacy
              THEN CASE p \in {"aP"} -> "a" [] p \in {"p"} -> "e"
                     [] p \in {"lx", "m", "mx", "m1"} -> "l" [] OTHER -> p
              ELSE CASE p = "mx" -> "m" [] OTHER -> p

Pw(h, p) == <<"password", Seen(h, p)>>

VARIABLES doc,      \* the file: [h, O, U, OE, UE, lib], h = "none" before it is made
          user, owner, \* the passwords it was made with
          steps

vars == <<doc, user, owner, steps>>

Nil   == <<"nil">>
NoDoc == [h |-> "none", O |-> Nil, U |-> Nil, OE |-> Nil, UE |-> Nil]
Init == doc = NoDoc /\ user = "e" /\ owner = "e" /\ steps = 0

(* symbolic primitives *)
Hash(x)     == <<"hash", x>>
Enc(k, x)   == <<"enc", k, x>>
Dec(k, c)   == IF c[1] = "enc" /\ c[2] = k THEN c[3] ELSE <<"junk", k, c>>

OwnerOr(u, o) == IF o = "e" THEN u ELSE o   \* no owner password: the user's

(* the entries a writer stores *)
LegacyKey(seen, O) == Hash(<<"file", seen, O>>)
LegacyU(key)       == Enc(key, <<"padding or its hash with the file ID">>)
MakeLegacy(h, u, o) ==
  LET O == Enc(Hash(<<"owner", Pw(h, OwnerOr(u, o))>>), Pw(h, u))
      K == LegacyKey(Pw(h, u), O)
  IN [h |-> h, O |-> O, U |-> LegacyU(K), OE |-> Nil, UE |-> Nil]
FileKey == <<"random file key">>
Wrong   == <<"wrong">>
MakeModern(h, u, o) ==
  LET U == Hash(<<"user validation", Pw(h, u)>>)
      O == Hash(<<"owner validation", Pw(h, OwnerOr(u, o)), U>>)
  IN [h |-> h, O |-> O, U |-> U,
      UE |-> Enc(Hash(<<"user key", Pw(h, u)>>), FileKey),
      OE |-> Enc(Hash(<<"owner key", Pw(h, OwnerOr(u, o)), U>>), FileKey)]

(* what a reader does with a password: the file key, or Wrong *)
TryUser(d, seen) == LET K == LegacyKey(seen, d.O) IN
                    IF LegacyU(K) = d.U THEN K ELSE Wrong
AuthLegacy(d, p) ==
  LET k1 == TryUser(d, Pw(d.h, p)) IN
  IF k1 # Wrong THEN k1
  ELSE TryUser(d, Dec(Hash(<<"owner", Pw(d.h, p)>>), d.O))
AuthModern(d, p) ==
  LET s == Pw(d.h, p) IN
  CASE Hash(<<"owner validation", s, d.U>>) = d.O -> Dec(Hash(<<"owner key", s, d.U>>), d.OE)
    [] Hash(<<"user validation", s>>) = d.U       -> Dec(Hash(<<"user key", s>>), d.UE)
    [] OTHER -> Wrong
Auth(d, p) == IF d.h \in Legacy THEN AuthLegacy(d, p) ELSE AuthModern(d, p)
Key(d)     == IF d.h \in Legacy THEN LegacyKey(Pw(d.h, user), d.O) ELSE FileKey

-----------------------------------------------------------------------------
Make(h, u, o) ==
  /\ doc = NoDoc
  /\ doc' = IF h \in Legacy THEN MakeLegacy(h, u, o) ELSE MakeModern(h, u, o)
  /\ user' = u /\ owner' = OwnerOr(u, o) /\ UNCHANGED steps

Live == doc # NoDoc /\ steps < MaxSteps /\ steps' = steps + 1
(* An incremental update keeps the encryption dictionary.                  *)
Update == Live /\ UNCHANGED <<doc, user, owner>>
(* So does opening the document with p, editing and writing it out again;  *)
(* with a wrong password nothing happens.                                  *)
Rewrite(p) == Live /\ UNCHANGED <<doc, user, owner>>

Next == \/ \E h \in Handlers, u \in Pws, o \in Pws : Make(h, u, o)
        \/ Update
        \/ \E p \in Pws : Rewrite(p)
        \/ (steps = MaxSteps /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* The passwords that must open it, from the passwords alone.              *)
Good(h, u, o) == {p \in AllPws : Seen(h, p) \in {Seen(h, u), Seen(h, o)}}

Opens == doc # NoDoc => \A p \in AllPws :
           (Auth(doc, p) # Wrong) <=> p \in Good(doc.h, user, owner)
SameKey == doc # NoDoc => \A p \in Good(doc.h, user, owner) : Auth(doc, p) = Key(doc)
EmptyOpens == doc # NoDoc /\ user = "e" => Auth(doc, "e") # Wrong
=============================================================================
