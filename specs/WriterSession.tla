--------------------------- MODULE WriterSession ---------------------------
(***************************************************************************)
(* A PDF writer session.                                                   *)
(*                                                                         *)
(* High level: the session is a map from object numbers to the content     *)
(* last given, plus root, info, version and two mode switches.             *)
(* Low level: producing the bytes lays the session out as a file, with     *)
(* direct objects, at most one object stream, and a cross-reference table  *)
(* or stream (which is itself an object).  Reading looks every number up   *)
(* in that layout.  ReadBack says that reading gives the session, and      *)
(* Pure that producing bytes changes nothing.                              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS MaxNum,     \* largest object number SetObject may name
          MaxOps      \* calls in a session

VARIABLES objs,   \* object number -> [k, v]: kind and version of the content
          next,   \* next number the writer hands out
          root, info,
          xs, os, \* cross-reference streams / object streams asked for
          ver,    \* version of the header
          out,    \* the last file produced, <<>> if none
          ops     \* calls made

vars == <<objs, next, root, info, xs, os, ver, out, ops>>

None  == [k |-> "none", v |-> 0]
Limit == MaxNum + MaxOps + 2
Nums  == 1..Limit
KindsOfContent == {"obj", "stm", "zstm", "empty"}   \* plain, stream, compressed stream, stream of no bytes

Init == /\ objs = [n \in Nums |-> None] /\ next = 1
        /\ root = 0 /\ info = 0 /\ xs = FALSE /\ os = FALSE /\ ver = 7
        /\ out = <<>> /\ ops = 0

Step == ops < MaxOps /\ ops' = ops + 1

Add(k) == /\ Step
          /\ objs' = [objs EXCEPT ![next] = [k |-> k, v |-> ops + 1]]
          /\ next' = next + 1
          /\ UNCHANGED <<root, info, xs, os, ver, out>>

Set(n, k) == /\ Step
             /\ objs' = [objs EXCEPT ![n] = [k |-> k, v |-> ops + 1]]
             /\ next' = IF n >= next THEN n + 1 ELSE next
             /\ UNCHANGED <<root, info, xs, os, ver, out>>

SetRoot(n) == /\ Step /\ objs[n].k = "obj" /\ root' = n
              /\ UNCHANGED <<objs, next, info, xs, os, ver, out>>
SetInfo(n) == /\ Step /\ objs[n].k = "obj" /\ info' = n
              /\ UNCHANGED <<objs, next, root, xs, os, ver, out>>
UseX(b) == /\ Step /\ xs' = b /\ xs # b /\ UNCHANGED <<objs, next, root, info, os, ver, out>>
UseO(b) == /\ Step /\ os # b /\ os' = b /\ xs' = (xs \/ b)
           /\ UNCHANGED <<objs, next, root, info, ver, out>>
SetVer(v) == /\ Step /\ ver # v /\ ver' = v /\ UNCHANGED <<objs, next, root, info, xs, os, out>>

Used == {n \in Nums : objs[n].k # "none"}

(* The file: entry per number below size, in "n", "z" (packed) or "f";     *)
(* pk is the order of packing, stmNum the object stream's number.          *)
Layout ==
  LET pack   == IF os THEN {n \in Used : objs[n].k = "obj"} ELSE {}
      stmNum == IF pack = {} THEN 0 ELSE next
      size1  == IF pack = {} THEN next ELSE next + 1
      xref   == IF xs \/ pack # {} THEN size1 ELSE 0
      size   == IF xref = 0 THEN size1 ELSE size1 + 1
      ord(n) == Cardinality({m \in pack : m < n})
  IN [ size |-> size, stm |-> stmNum, xref |-> xref,
       ent |-> [n \in 1..(size-1) |->
                  CASE n = stmNum \/ n = xref -> <<"n", n, 0>>
                    [] n \in pack             -> <<"z", stmNum, ord(n)>>
                    [] n \in Used             -> <<"n", n, 0>>
                    [] OTHER                  -> <<"f", 0, 0>>],
       packed |-> [i \in 0..(Cardinality(pack)-1) |-> CHOOSE n \in pack : ord(n) = i],
       body |-> objs, root |-> root, info |-> info, ver |-> ver ]

Produce == /\ Step /\ Used # {} /\ out' = <<Layout>>
           /\ UNCHANGED <<objs, next, root, info, xs, os, ver>>

Next == \/ \E k \in KindsOfContent : Add(k)
        \/ \E n \in 1..MaxNum, k \in KindsOfContent : Set(n, k)
        \/ \E n \in Used : SetRoot(n) \/ SetInfo(n)
        \/ \E b \in BOOLEAN : UseX(b) \/ UseO(b)
        \/ \E v \in {4, 5, 7} : SetVer(v)
        \/ Produce
        \/ (ops = MaxOps /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* A reader of the layout.                                                 *)
Read(f, n) == IF n >= f.size THEN None ELSE
  CASE f.ent[n][1] = "n" -> f.body[n]      \* the object at that offset
    [] f.ent[n][1] = "z" -> f.body[f.packed[f.ent[n][3]]]
    [] OTHER             -> None

ReadBack == [][ out' # out =>
   LET f == out'[1] IN
     /\ \A n \in Nums : n \notin {f.stm, f.xref} => Read(f, n) = objs[n]
     /\ f.stm # 0 => objs[f.stm] = None        \* helpers never hide an object
     /\ f.xref # 0 => objs[f.xref] = None
     /\ (\E n \in 1..(f.size-1) : f.ent[n][1] = "z") => f.xref # 0
     /\ f.root = root /\ f.info = info /\ f.ver = ver ]_vars

Pure == [][ out' # out => UNCHANGED <<objs, next, root, info, xs, os, ver>> ]_vars

FreshNumbers == \A n \in Nums : n >= next => objs[n] = None
=============================================================================
