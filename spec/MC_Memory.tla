----------------------------- MODULE MC_Memory -----------------------------
(* The managed memory under every short sequence of operations, in a small address space: what the specification's own
   operations guarantee together. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
CONSTANTS Starts, Depth, MaxVars
VARIABLES vs, step
SmallTypes == [c |-> [sz |-> 1, m |-> <<>>],
               N |-> [sz |-> 16, m |-> << [n |-> "v", o |-> 0, k |-> "c", d |-> <<>>], [n |-> "to", o |-> 8, k |-> "N", d |-> <<0>>] >>]]
INSTANCE Memory WITH Types <- SmallTypes
Init == vs = <<>> /\ step = 0
Dims == {<<>>, <<2>>, <<0>>} \cup (IF Depth > 4 THEN {<<2, 0>>} ELSE {})
Grants == Starts \cup {0}
Targets == {0} \cup UNION {{vs[i].a + 16 * k : k \in 0..(Elems(vs[i].d) - 1)} : i \in {j \in 1..Len(vs) : vs[j].t = "N" /\ Stars(vs[j].d) = 0}}
PtrCells(i) == {k \in vs[i].a..End(vs[i]) : \E c \in ToSet(PCells(vs[i].t, vs[i].d)) : (k - vs[i].a) % ElSize(vs[i].t, vs[i].d) = c.o}
ValCells(i) == {k \in vs[i].a..End(vs[i]) : \E c \in ToSet(VCells(vs[i].t, vs[i].d)) : (k - vs[i].a) % ElSize(vs[i].t, vs[i].d) = c.o}
Pointed(i) == \E w \in ToSet(vs) : \E p \in ToSet(w.p) : p # 0 /\ vs[i].a <= p /\ p <= End(vs[i])
\* the memory as a checkpoint brings it back: the same, the manager's own variables elsewhere
Moved(off) == LET far(i) == IF vs[i].loc THEN vs[i].a + off ELSE vs[i].a
                  mv(p) == IF p = 0 THEN 0 ELSE LET i == Holder(p) IN far(i) + (p - vs[i].a)
              IN [i \in 1..Len(vs) |-> [vs[i] EXCEPT !.a = far(i), !.p = [k \in 1..Len(vs[i].p) |-> mv(vs[i].p[k])]]]
Next == step < Depth /\ step' = step + 1 /\
  \/ \E n \in {"", "a", "b"}, t \in {"c", "N", "x"}, dd \in Dims, loc \in BOOLEAN, r \in Grants :
        Len(vs) < MaxVars /\ (loc \/ n # "") /\ Declare(n, t, dd, Len(Pos(dd)), loc, r, r)
  \/ \E i \in 1..Len(vs) : ~Pointed(i) /\ Delete({i}, 0)
  \/ Delete({}, 1)
  \/ \E i \in 1..Len(vs), n \in {"a", "b"}, r \in {0, 1} : Rename(vs[i].a, n, r)
  \/ \E i \in 1..Len(vs), nd \in {<<1>>, <<2>>}, r \in Grants : ~Pointed(i) /\ Resize({i}, nd, r)
  \/ \E i \in 1..Len(vs) : \E k \in PtrCells(i) : \E a \in Targets : SetPtr(k, a)
  \/ \E i \in 1..Len(vs) : \E k \in ValCells(i) : SetVal(k, "7")
  \/ \E i \in 1..Len(vs) : Clear(vs[i].a)
  \/ (\A i \in 1..Len(vs) : vs[i].loc => ~Pointed(i)) /\ Reset
  \/ Restore(<<>>, Moved(256))
Spec == Init /\ [][Next]_<<vs, step>>
Apart == Distinct(vs)
NoDangling == \A w \in ToSet(vs) : \A p \in ToSet(w.p) : p = 0 \/ Of(p) # {}
Cells == \A w \in ToSet(vs) : Len(w.v) = Len(ZeroVals(w.t, w.d)) /\ Len(w.p) = Len(ZeroPtrs(w.t, w.d))
OneHolder == \A w \in ToSet(vs) : \A p \in w.a..End(w) : Cardinality(Of(p)) = 1
\* a copy is always acceptable, and one with a pointer gone astray or a value changed is not
CopyAccepted == IsCopy(<<>>, Moved(256))
Broken(i, k) == [Moved(256) EXCEPT ![i].p[k] = IF @ = 0 THEN (CHOOSE x \in Starts : TRUE) ELSE 0]
\* (two anonymous variables nothing distinguishes may change places: only named ones are tried)
BrokenRefused == \A i \in 1..Len(vs) : vs[i].n # "" => \A k \in 1..Len(vs[i].p) : ~IsCopy(<<>>, Broken(i, k))
LostRefused == \A i \in 1..Len(vs) : vs[i].loc => ~IsCopy(<<>>, LET m == Moved(256) IN SubSeq(m, 1, i - 1) \o SubSeq(m, i + 1, Len(m)))
\* every element of a named variable has a reference that leads to it
Named1 == \A w \in ToSet(vs) : w.n # "" => \A e \in 0..(Elems(w.d) - 1) :
  LET c == Coord(e, Pos(w.d)) path == [k \in 1..Len(c) |-> <<"i", "", c[k]>>] x == Resolve(w.n, path)
  IN x[1] = "yes" /\ x[2] = w.a + e * ElSize(w.t, w.d) /\ x[3] = w.t /\ Len(x[4]) = Stars(w.d)
     /\ (Struct(w.t) /\ Stars(w.d) = 0 =>
           LET q == Resolve(w.n, Append(path, <<"m", "to", 0>>)) f == Resolve(w.n, path \o << <<"a", "v", 0>> >>)
               g == Resolve(w.n, path \o << <<"m", "to", 0>>, <<"a", "v", 0>> >>) IN
           q[2] = x[2] + 8 /\ f = <<"no">> /\ (IF PtrAt(q[2]) = 0 THEN g = <<"no">> ELSE g[1] = "yes" /\ g[2] = PtrAt(q[2])))
Outside == \A w \in ToSet(vs) : w.n # "" /\ w.d # <<>> /\ Head(w.d) > 0 => Resolve(w.n, << <<"i", "", Head(w.d)>> >>) = <<"no">>
\* growing and shrinking back loses nothing
ResizeBack == \A w \in ToSet(vs) : Len(Pos(w.d)) = 1 => LET m == Len(VCells(w.t, w.d)) o == Pos(w.d) b == <<o[1] + 2>> z == [i \in 1..(m * (o[1] + 2)) |-> "0"]
   IN Remap(Remap(w.v, m, b, o, z), m, o, b, z) = w.v
=============================================================================
