--------------------------- MODULE MC_Containers ---------------------------
(* The containers under every short sequence of operations: structural invariants of the specification itself. *)
EXTENDS Containers
CONSTANTS Vals, Keys, Depth
VARIABLES d
mvars == <<vars, d>>
Init == d = 0 /\ list = <<>> /\ cells = 0 /\ q = <<>> /\ st = <<>> /\ bag = <<>> /\ map = <<>> /\ col = <<>>
ListNext == \E o \in {"addhead", "addtail", "before", "after", "remove", "clear", "sort", "setat", "index", "findpos"}, a \in Vals, b \in Vals :
              \E r \in 0..(Depth + 8) : ListOp(o, a, b, r)
OtherNext == \E o \in {"enq", "deq", "push", "pop", "bins", "bdel", "bfind", "mput", "mget", "mdel"}, a \in Vals, k \in Keys :
              \E r \in {0} \cup Vals, n \in 0..Depth, in \in {bag, Sorted(Append(bag, a)), Minus(a)} : OtherOp(o, a, a, k, r, n, in)
ColNext == \E o \in {"collect", "uncollect"}, c \in 1..2, x \in Vals : ColOp(o, c, x)
Next == d < Depth /\ d' = d + 1 /\ (ListNext \/ OtherNext \/ ColNext)
Spec == Init /\ [][Next]_mvars
\* nothing is lost or duplicated except by the operations that say so
Counts == [][/\ Len(list') \in {Len(list) - 1, Len(list), Len(list) + 1, 0}
             /\ Len(q') - Len(q) \in {-1, 0, 1} /\ Len(st') - Len(st) \in {-1, 0, 1} /\ Len(bag') - Len(bag) \in {-1, 0, 1}]_mvars
Others == [][Cardinality({c \in DOMAIN col' : Has(c) # col'[c]}) <= 1]_mvars
=============================================================================
