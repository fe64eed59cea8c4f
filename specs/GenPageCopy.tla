---------------------------- MODULE GenPageCopy ----------------------------
(* Histories of extractions, splits and merges over documents with given   *)
(* page trees, for replay.  Documents are lists of page identities         *)
(* <<source, leaf, rotation>>; see PageCopy for why copying implements it. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxSrcs, MaxLeaves, MaxInner, MaxOps, MaxPages
Root == 100
NoRot == 1
VARIABLES trees, docs, log
vars == <<trees, docs, log>>

(* tree: [kids: inner node -> Seq, rot: node -> own rotation] *)
RECURSIVE Flat(_, _, _)
Flat(t, n, r) ==
  LET own == IF n \in DOMAIN t.rot THEN t.rot[n] ELSE r IN
  IF n < Root THEN <<<<n, own>>>>
  ELSE LET RECURSIVE F(_)
           F(i) == IF i > Len(t.kids[n]) THEN <<>> ELSE Flat(t, t.kids[n][i], own) \o F(i + 1)
       IN F(1)
DocOf(s, t) == LET f == Flat(t, Root, 0) IN [i \in DOMAIN f |-> <<s, f[i][1], f[i][2]>>]

Set(f, k, v) == (k :> v) @@ f
RECURSIVE Grow(_, _, _, _)
Grow(t, nl, ni, want) ==      \* a random tree with `want` leaves
  IF nl = want THEN t ELSE
  LET n == RandomElement(DOMAIN t.kids)
      inner == ni < MaxInner /\ RandomElement(1..3) = 1
      r1 == RandomElement({1, 1, 1, 0, 90, 180, 270})
      at == IF inner THEN Root + ni + 1 ELSE n
      k1 == IF inner THEN Set(Set(t.kids, n, Append(t.kids[n], at)), at, <<nl + 1>>) ELSE Set(t.kids, n, Append(t.kids[n], nl + 1))
      ro == IF RandomElement(1..3) > 1 THEN t.rot ELSE Set(t.rot, IF inner THEN at ELSE nl + 1, r1)
  IN Grow([kids |-> k1, rot |-> [x \in {y \in DOMAIN ro : ro[y] # NoRot} |-> ro[x]]], nl + 1, IF inner THEN ni + 1 ELSE ni, want)
RandTree(x) == Grow([kids |-> (Root :> <<>>), rot |-> IF RandomElement(1..(x + 2 - x + 1)) = 1 THEN (Root :> 90) ELSE <<>>], 0, 0, RandomElement(1..MaxLeaves))

Fixed == {[kids |-> (Root :> <<1>>), rot |-> <<>>],
          [kids |-> (Root :> <<1, 2, 3>>), rot |-> (2 :> 90)],
          [kids |-> (Root :> <<101, 3>>) @@ (101 :> <<1, 2>>), rot |-> (Root :> 270) @@ (101 :> 90) @@ (1 :> 0)]}

Done(op, args, out) == /\ docs' = docs \o out
                       /\ log' = Append(log, [a |-> op, x |-> args, out |-> out])
                       /\ UNCHANGED trees
Extract(d, sel) == Done("extract", <<d, sel>>, <<[i \in DOMAIN sel |-> docs[d][sel[i]]]>>)
Split(d, rs) == Done("split", <<d, rs>>, [i \in DOMAIN rs |-> SubSeq(docs[d], rs[i][1], rs[i][2])])
SplitBy(d, n) == Done("splitby", <<d, n>>,
                   LET k == (Len(docs[d]) + n - 1) \div n
                   IN [i \in 1..k |-> SubSeq(docs[d], (i - 1) * n + 1, IF i = k THEN Len(docs[d]) ELSE i * n)])
RECURSIVE Cat(_, _)
Cat(ds, i) == IF i > Len(ds) THEN <<>> ELSE docs[ds[i]] \o Cat(ds, i + 1)
Merge(ds) == Done("merge", ds, <<Cat(ds, 1)>>)
Refuse(what, d) == Done(what, d, <<>>)

Start(ts) == trees = ts /\ docs = [i \in DOMAIN ts |-> DocOf(i, ts[i])] /\ log = <<>>
GInit == \E a, b \in Fixed : Start(<<a, b>>)
More == Len(log) < MaxOps
Ranges(n) == {r \in (1..n) \X (1..n) : r[1] <= r[2]}
GNext == /\ More
         /\ \E d \in 1..Len(docs) :
            LET n == Len(docs[d]) IN
              \/ \E k \in 1..2 : \E s \in [1..k -> 1..n] : Extract(d, s)
              \/ \E r1 \in Ranges(n) : Split(d, <<r1>>)
              \/ \E r1, r2 \in Ranges(n) : r1[1] = 1 /\ Split(d, <<r1, r2>>)
              \/ \E k \in 1..(n + 1) : SplitBy(d, k)
              \/ \E e \in 1..Len(docs) : Merge(<<d, e>>)
              \/ Merge(<<d>>)
              \/ \E w \in {"xhi", "xnone", "shi", "srev", "by0"} : Refuse(w, d)
GSpec == GInit /\ [][GNext]_vars

\* the trees are drawn by the first step: TLC evaluates the initial states only once
SInit == trees = <<>> /\ docs = <<>> /\ log = <<>>
Grew == /\ trees = <<>>
        /\ \E ts \in {TLCEval([i \in 1..RandomElement(1..MaxSrcs) |-> RandTree(Len(log))])} :
             trees' = ts /\ docs' = [i \in DOMAIN ts |-> DocOf(i, ts[i])] /\ UNCHANGED log
SDo ==   /\ More
         /\ trees # <<>>
         /\ \E d \in {RandomElement(1..Len(docs))}, c \in {RandomElement(1..10)} :
            LET n == Len(docs[d])
                rr(x) == CHOOSE p \in {<<a, RandomElement(a..n)>> : a \in {RandomElement(1..n)}} : TRUE
            IN CASE c <= 3 -> \E s \in {[i \in 1..RandomElement(1..MaxPages) |-> RandomElement(1..n)]} : Extract(d, s)
                 [] c = 4 -> \E s \in {[i \in 1..RandomElement(1..3) |-> rr(i)]} : Split(d, s)
                 [] c = 5 -> \E k \in {RandomElement(1..(n + 1))} : SplitBy(d, k)
                 [] c <= 9 -> \E m \in {[i \in 1..RandomElement(1..3) |-> RandomElement(1..Len(docs))]} :
                                IF Len(Cat(m, 1)) <= 3 * MaxPages THEN Merge(m) ELSE Merge(<<d>>)
                 [] OTHER -> \E w \in {RandomElement({"xhi", "xnone", "shi", "srev", "by0"})} : Refuse(w, d)
SNext == Grew \/ SDo
SSpec == SInit /\ [][SNext]_vars
T(t) == [kids |-> {<<n, t.kids[n]>> : n \in DOMAIN t.kids}, rot |-> {<<n, t.rot[n]>> : n \in DOMAIN t.rot}]
Emit == (Len(log) = MaxOps) => PrintT("TRACE " \o ToJson([trees |-> [i \in DOMAIN trees |-> T(trees[i])], log |-> log]))
=============================================================================
