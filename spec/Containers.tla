----------------------------- MODULE Containers -----------------------------
(* The container utilities as mathematical objects: a list is a sequence of numbered cells with values, a queue and a
   stack are sequences of values, a search tree is a bag listed in order, a string map is a function, a collection is a
   sequence of items. Every operation: what it returns and what it leaves. *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC
VARIABLES list, cells, q, st, bag, map, col
vars == <<list, cells, q, st, bag, map, col>>

Init0 == list' = <<>> /\ cells' = 0 /\ q' = <<>> /\ st' = <<>> /\ bag' = <<>> /\ map' = <<>> /\ col' = <<>>
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Idx(p) == IF \E i \in 1..Len(list) : list[i][1] = p THEN CHOOSE i \in 1..Len(list) : list[i][1] = p ELSE 0
First(v) == LET S == {i \in 1..Len(list) : list[i][2] = v} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A k \in S : i <= k
RECURSIVE Sorted(_)
Sorted(s) == IF s = <<>> THEN <<>> ELSE LET m == CHOOSE i \in 1..Len(s) : \A k \in 1..Len(s) : s[i] <= s[k]
             IN <<s[m]>> \o Sorted(RemoveAt(s, m))
L(l, r, exp) == list' = l /\ r = exp
Same == UNCHANGED list

\* list operations: the value returned is r (0 stands for NULL); a new cell gets the next number
ListOp(o, a, b, r) ==
  /\ CASE o = "addhead" -> L(<<<<cells + 1, a>>>> \o list, r, cells + 1)
       [] o = "addtail" -> L(Append(list, <<cells + 1, a>>), r, cells + 1)
       [] o = "before" -> Idx(a) > 0 /\ L(InsertAt(list, Idx(a), <<cells + 1, b>>), r, cells + 1)
       [] o = "after" -> Idx(a) > 0 /\ L(InsertAt(list, Idx(a) + 1, <<cells + 1, b>>), r, cells + 1)
       [] o = "remove" -> Idx(a) > 0 /\ L(RemoveAt(list, Idx(a)), r, list[Idx(a)][2])
       [] o = "clear" -> L(<<>>, r, 0)
       [] o = "getat" -> L(list, r, IF Idx(a) > 0 THEN list[Idx(a)][2] ELSE 0)
       [] o = "setat" -> IF Idx(a) > 0 THEN L([list EXCEPT ![Idx(a)][2] = b], r, list[Idx(a)][2]) ELSE L(list, r, 0)
       [] o = "findpos" -> L(list, r, IF First(a) > 0 THEN list[First(a)][1] ELSE 0)
       [] o = "find" -> L(list, r, IF First(a) > 0 THEN a ELSE 0)
       [] o = "index" -> L(list, r, IF a >= 0 /\ a < Len(list) THEN list[a + 1][1] ELSE 0)
       [] o = "sort" -> L(LET v == Sorted([i \in 1..Len(list) |-> list[i][2]]) IN [i \in 1..Len(list) |-> <<list[i][1], v[i]>>], r, 0)
       [] OTHER -> FALSE
  /\ cells' = IF o \in {"addhead", "addtail", "before", "after"} THEN cells + 1 ELSE cells
  /\ UNCHANGED <<q, st, bag, map, col>>
Put(k, v) == [x \in DOMAIN map \cup {k} |-> IF x = k THEN v ELSE map[x]]
Drop(k) == [x \in DOMAIN map \ {k} |-> map[x]]
At(k) == IF k \in DOMAIN map THEN map[k] ELSE 0
InBag(v) == \E i \in 1..Len(bag) : bag[i] = v
Minus(v) == IF InBag(v) THEN RemoveAt(bag, CHOOSE i \in 1..Len(bag) : bag[i] = v) ELSE bag
\* the others: n is the count reported afterwards, in the tree listed in order
OtherOp(o, a, b, k, r, n, in) ==
  /\ CASE o = "enq" -> q' = Append(q, a) /\ r = 0 /\ n = Len(q') /\ UNCHANGED <<st, bag, map>>
       [] o = "deq" -> (IF q = <<>> THEN q' = q /\ r = 0 ELSE q' = Tail(q) /\ r = Head(q)) /\ n = Len(q') /\ UNCHANGED <<st, bag, map>>
       [] o = "qpeek" -> r = (IF q = <<>> THEN 0 ELSE Head(q)) /\ n = Len(q) /\ UNCHANGED <<q, st, bag, map>>
       [] o = "push" -> st' = <<a>> \o st /\ r = 0 /\ n = Len(st') /\ UNCHANGED <<q, bag, map>>
       [] o = "pop" -> (IF st = <<>> THEN st' = st /\ r = 0 ELSE st' = Tail(st) /\ r = Head(st)) /\ n = Len(st') /\ UNCHANGED <<q, bag, map>>
       [] o = "speek" -> r = (IF st = <<>> THEN 0 ELSE Head(st)) /\ n = Len(st) /\ UNCHANGED <<q, st, bag, map>>
       [] o = "bins" -> bag' = Sorted(Append(bag, a)) /\ r = 0 /\ n = Len(bag') /\ in = bag' /\ UNCHANGED <<q, st, map>>
       [] o = "bdel" -> bag' = Minus(a) /\ r = (IF InBag(a) THEN a ELSE 0) /\ n = Len(bag') /\ in = bag' /\ UNCHANGED <<q, st, map>>
       [] o = "bfind" -> r = (IF InBag(a) THEN a ELSE 0) /\ n = Len(bag) /\ in = bag /\ UNCHANGED <<q, st, bag, map>>
       [] o = "bclear" -> bag' = <<>> /\ r = Len(bag) /\ n = 0 /\ in = <<>> /\ UNCHANGED <<q, st, map>>
       [] o = "mput" -> map' = Put(k, b) /\ r = At(k) /\ n = Cardinality(DOMAIN map') /\ UNCHANGED <<q, st, bag>>
       [] o = "mget" -> r = At(k) /\ n = Cardinality(DOMAIN map) /\ UNCHANGED <<q, st, bag, map>>
       [] o = "mdel" -> map' = Drop(k) /\ r = At(k) /\ n = Cardinality(DOMAIN map') /\ UNCHANGED <<q, st, bag>>
       [] OTHER -> FALSE
  /\ UNCHANGED <<list, cells, col>>
Pairs == {<<k, map[k]>> : k \in DOMAIN map}
\* iterating a map visits every entry once, backwards in the opposite order (from the last entry visited on)
IterOp(f, b, n) == /\ n = Cardinality(DOMAIN map) /\ Len(f) = n /\ {f[i] : i \in 1..Len(f)} = Pairs
                   /\ b = (IF n = 0 THEN <<>> ELSE Tail(Rev(f)))
                   /\ UNCHANGED vars

\* collections: number of a collector -> its items
Has(c) == IF c \in DOMAIN col THEN col[c] ELSE <<>>
Without(s, x) == SelectSeq(s, LAMBDA y : y # x)
SetCol(c, s) == col' = [x \in DOMAIN col \cup {c} |-> IF x = c THEN s ELSE col[x]]
ColOp(o, c, x) == /\ CASE o = "collect" -> SetCol(c, Append(Has(c), x))
                       [] o = "uncollect" -> SetCol(c, Without(Has(c), x))
                  /\ UNCHANGED <<list, cells, q, st, bag, map>>

TypeOK == /\ \A i, j \in 1..Len(list) : list[i][1] = list[j][1] => i = j
          /\ \A i \in 1..Len(list) : list[i][1] \in 1..cells
          /\ \A i \in 1..(Len(bag) - 1) : bag[i] <= bag[i + 1]
=============================================================================
