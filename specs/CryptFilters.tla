---------------------------- MODULE CryptFilters ----------------------------
(***************************************************************************)
(* What is encrypted with which method and key in an encrypted document    *)
(* (ISO 32000-1 7.6.1, 7.6.2, 7.6.5), and that reading gives it back.      *)
(*                                                                         *)
(* A document has a configuration: V, the methods of its default filters   *)
(* for streams and strings, one more named filter, EncryptMetadata.        *)
(* Objects are plain ("str", values with strings) or streams of several    *)
(* kinds, stored directly or packed in an object stream.  Storing follows  *)
(* the standard's rules, stated one by one in Method; reading (Fetch) goes *)
(* the other way with a reader's algorithm: look the object up, decide by  *)
(* what it finds in the dictionaries, decrypt.  ReadBack says it finds     *)
(* what was put in, over redefinitions, rewrites and extraction.           *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Configs,    \* configurations to consider
          NumObjs, MaxGen, MaxSteps

V1 == [v |-> 1, stm |-> "V2", str |-> "V2", alt |-> "V2", meta |-> TRUE]
V2 == [v |-> 2, stm |-> "V2", str |-> "V2", alt |-> "V2", meta |-> TRUE]
SomeConfigs == {V1, [v |-> 4, stm |-> "AESV2", str |-> "V2", alt |-> "AESV2", meta |-> FALSE],
                 [v |-> 5, stm |-> "AESV3", str |-> "Identity", alt |-> "AESV3", meta |-> TRUE]}
V4s == {[v |-> 4, stm |-> a, str |-> b, alt |-> c, meta |-> m] :
          a \in {"V2", "AESV2", "Identity"}, b \in {"V2", "AESV2", "Identity"}, c \in {"V2", "AESV2"}, m \in BOOLEAN}
V5s == {[v |-> w, stm |-> a, str |-> b, alt |-> "AESV3", meta |-> m] :
          w \in {5, 6}, a \in {"AESV3", "Identity"}, b \in {"AESV3", "Identity"}, m \in BOOLEAN}
AllConfigs == {V1, V2} \cup V4s \cup V5s     \* v 6 stands for V 5, R 6
Plain == [v |-> 0, stm |-> "Identity", str |-> "Identity", alt |-> "Identity", meta |-> TRUE]

Kinds == {"str", "stm", "meta", "cryptI", "cryptN"}
(* str: no stream; meta: /Type /Metadata; cryptI, cryptN: a /Crypt filter  *)
(* that names Identity, or the other named filter                          *)
Objs == 1..NumObjs
None == [kind |-> "none", n |-> 0, g |-> 0, packed |-> 0, s |-> <<>>, d |-> <<>>]

VARIABLES cfg,     \* configuration, Plain: not encrypted
          file,    \* object number -> what is stored
          cont,    \* container number -> stored container
          want,    \* object number -> [kind, s, d]: strings and data it must have
          steps

vars == <<cfg, file, cont, want, steps>>

Key(m, n, g) == IF m = "AESV3" THEN <<"file key">> ELSE <<"object key", n, g, m>>
Enc(m, n, g, x) == IF m = "Identity" THEN x ELSE <<"enc", Key(m, n, g), x>>
Dec(m, n, g, c) == IF m = "Identity" THEN c
                   ELSE IF Len(c) = 3 /\ c[1] = "enc" /\ c[2] = Key(m, n, g) THEN c[3] ELSE <<"junk">>

(* The standard's rules.                                                   *)
Method(c, kind) ==
  CASE kind = "str"    -> c.str                         \* strings
    [] kind = "stm"    -> c.stm
    [] kind = "meta"   -> IF c.v >= 4 /\ ~c.meta THEN "Identity" ELSE c.stm
    [] kind = "cryptI" -> IF c.v >= 4 THEN "Identity" ELSE c.stm    \* (no crypt filters before V 4)
    [] kind = "cryptN" -> IF c.v >= 4 THEN c.alt ELSE c.stm

Store(c, n, g, w) ==    \* directly
  [kind |-> w.kind, n |-> n, g |-> g, packed |-> 0,
   s |-> Enc(Method(c, "str"), n, g, w.s),
   d |-> IF w.kind = "str" THEN <<>> ELSE Enc(Method(c, w.kind), n, g, w.d)]
Container(k) == 100 + k     \* object stream of step k

Init == /\ cfg \in Configs /\ file = [n \in Objs |-> None] /\ want = [n \in Objs |-> [kind |-> "none", s |-> <<>>, d |-> <<>>]]
        /\ cont = [k \in 1..MaxSteps |-> None] /\ steps = 0

Step == steps < MaxSteps /\ steps' = steps + 1

Define(n, g, kind, packed) ==
  /\ Step /\ g >= file[n].g       \* generations only grow
  /\ LET w == [kind |-> kind, s |-> <<"strings", n, steps>>, d |-> <<"data", n, steps>>] IN
     /\ want' = [want EXCEPT ![n] = w]
     /\ IF packed
        THEN /\ kind = "str" /\ g = 0
             /\ cont' = [cont EXCEPT ![steps + 1] =
                  [None EXCEPT !.kind = "stm", !.d = Enc(Method(cfg, "stm"), Container(steps + 1), 0, w.s)]]
             /\ file' = [file EXCEPT ![n] = [kind |-> "str", n |-> n, g |-> 0, packed |-> steps + 1, s |-> <<>>, d |-> <<>>]]
        ELSE /\ file' = [file EXCEPT ![n] = Store(cfg, n, g, w)] /\ UNCHANGED cont
  /\ UNCHANGED cfg

(* A reader.                                                               *)
Fetch(c, f, ct, n) ==
  LET o == f[n] IN
  IF o.packed # 0
  THEN [kind |-> "str", s |-> Dec(c.stm, Container(o.packed), 0, ct[o.packed].d), d |-> <<>>]
  ELSE LET sm == CASE o.kind = "meta" /\ ~c.meta /\ c.v >= 4 -> "Identity"
                   [] o.kind = "cryptI" /\ c.v >= 4 -> "Identity"
                   [] o.kind = "cryptN" /\ c.v >= 4 -> c.alt
                   [] OTHER -> c.stm
       IN [kind |-> o.kind, s |-> Dec(c.str, o.n, o.g, o.s),
           d |-> IF o.kind = "str" THEN <<>> ELSE Dec(sm, o.n, o.g, o.d)]

(* Written out again from what was read: generations start over, nothing   *)
(* is packed, keys follow.  cfg2: the same configuration, or none when     *)
(* pages are extracted into a document of their own, or another one when a *)
(* writer session encrypts the contents anew.                              *)
Rewrite(cfg2) ==
  /\ Step /\ \E n \in Objs : file[n] # None
  /\ cfg' = cfg2
  /\ file' = [n \in Objs |-> IF file[n] = None THEN None
                             ELSE Store(cfg2, n, 0, Fetch(cfg, file, cont, n))]
  /\ UNCHANGED <<want, cont>>

Next == \/ \E n \in Objs, g \in 0..MaxGen, k \in Kinds, p \in BOOLEAN : (p => k = "str" /\ g = 0) /\ Define(n, g, k, p)
        \/ \E c \in {cfg, Plain} \cup Configs : Rewrite(c)
        \/ (steps = MaxSteps /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Same(a, b) == a.kind = b.kind /\ a.s = b.s /\ (a.kind # "str" => a.d = b.d)
ReadBack == \A n \in Objs : file[n] # None => Same(Fetch(cfg, file, cont, n), want[n])
(* No object key is used for two objects, and what a filter covers is not  *)
(* stored in clear.                                                        *)
KeysApart == \A m, n \in Objs : m # n /\ file[m] # None /\ file[n] # None /\ cfg.str \notin {"Identity", "AESV3"}
                /\ file[m].packed = 0 /\ file[n].packed = 0 => file[m].s[2] # file[n].s[2]
Hidden == \A n \in Objs : file[n] # None /\ file[n].packed = 0 /\ cfg.str # "Identity" => file[n].s[1] = "enc"
=============================================================================
