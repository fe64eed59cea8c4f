---------------------------- MODULE ErrorChains ----------------------------
(***************************************************************************)
(* What is known about an error however it was wrapped on its way up.      *)
(*                                                                         *)
(* An error value is a tree: a library error carries a class (a code) and  *)
(* may have a cause; wrapping with %w keeps what is inside, joining keeps  *)
(* both, printing into a new error (%v) hides it.  The low level is the    *)
(* machine that errors.As / errors.Is are specified to run: a walk over    *)
(* the tree, outermost first, left before right.  The high level is kept   *)
(* as the tree is built: the code the error has and the set of codes it    *)
(* matches.                                                                *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Codes,     \* error codes used
          LibCodes,  \* codes of errors the library itself is made to return
          MaxSteps

None == <<"none">>
Leaf(k)      == <<"plain", k>>
Pdf(c, e)    == <<"pdf", c, e>>
Wrap(e)      == <<"wrap", e>>
Join(l, r)   == <<"join", l, r>>
Multi(l, r)  == <<"multi", l, r>>   \* fmt.Errorf with two %w
Opaque(e)    == <<"opaque", e>>

VARIABLES cur,    \* the error travelling up
          side,   \* another one, to be joined with it
          code, match,     \* abstract: code of cur ("" if it has none), codes it matches
          scode, smatch,   \* the same of side
          steps
vars == <<cur, side, code, match, scode, smatch, steps>>

(* The machine: a stack of errors still to be looked at. *)
RECURSIVE Walk(_, _)
Walk(stack, seen) ==
  IF stack = <<>> THEN seen
  ELSE LET e == Head(stack) rest == Tail(stack) IN
       CASE e[1] = "pdf"   -> Walk((IF e[3] = None THEN <<>> ELSE <<e[3]>>) \o rest, Append(seen, e[2]))
         [] e[1] = "wrap"  -> Walk(<<e[2]>> \o rest, seen)
         [] e[1] \in {"join", "multi"} -> Walk(<<e[2], e[3]>> \o rest, seen)
         [] OTHER -> Walk(rest, seen)
Found(e) == Walk(<<e>>, <<>>)
GetCode(e) == LET f == Found(e) IN IF f = <<>> THEN "" ELSE f[1]
Matches(e, c) == \E i \in 1..Len(Found(e)) : Found(e)[i] = c

NotFound   == {"OBJECT_NOT_FOUND", "FIELD_NOT_FOUND"}
Encryption == {"ENCRYPTED", "DECRYPTION_FAILED", "WRONG_PASSWORD", "UNSUPPORTED_CRYPTO"}
Validation == {"VALIDATION_ERROR", "INVALID_VALUE"}

Init == /\ cur = None /\ side = None /\ code = "" /\ match = {} /\ scode = "" /\ smatch = {} /\ steps = 0

Step == steps < MaxSteps /\ steps' = steps + 1
Same == UNCHANGED <<side, scode, smatch>>
New(e, c, m) == cur' = e /\ code' = c /\ match' = m
StartPlain == cur = None /\ Step /\ New(Leaf("p"), "", {}) /\ Same
StartPdf(c) == cur = None /\ Step /\ New(Pdf(c, None), c, {c}) /\ Same
StartLib(c) == cur = None /\ Step /\ New(Pdf(c, None), c, {c}) /\ Same
WrapIt == cur # None /\ Step /\ New(Wrap(cur), code, match) /\ Same
Class(c) == cur # None /\ Step /\ New(Pdf(c, cur), c, match \cup {c}) /\ Same
Hide == cur # None /\ Step /\ New(Opaque(cur), "", {}) /\ Same
Park == cur # None /\ side = None /\ Step
        /\ side' = cur /\ scode' = code /\ smatch' = match /\ New(None, "", {})
Both(l, r, lc, rc, kind) ==
   New(IF kind = "join" THEN Join(l, r) ELSE Multi(l, r), IF lc # "" THEN lc ELSE rc, match \cup smatch)
Combine(kind, left) ==
   cur # None /\ side # None /\ Step
   /\ (IF left THEN Both(cur, side, code, scode, kind) ELSE Both(side, cur, scode, code, kind))
   /\ side' = None /\ scode' = "" /\ smatch' = {}
Next == \/ StartPlain \/ WrapIt \/ Hide \/ Park
        \/ \E c \in Codes : StartPdf(c) \/ Class(c)
        \/ \E k \in {"join", "multi"}, b \in BOOLEAN : Combine(k, b)
Spec == Init /\ [][Next]_vars

CodeKept  == cur # None => GetCode(cur) = code
MatchKept == cur # None => \A c \in Codes : Matches(cur, c) <=> c \in match
CodeMatches == cur # None => (code = "" <=> match = {}) /\ (code # "" => Matches(cur, code))
(* Wrapping never changes the class; a class given on top hides none below. *)
Monotone == [][(cur # None /\ cur' # None /\ cur' # Opaque(cur)) => match \subseteq match']_vars
=============================================================================
