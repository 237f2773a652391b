------------------------------- MODULE Memory -------------------------------
(* The managed memory: variables (named or anonymous, allocated by the manager or registered by their owner), the values in
   them, the pointers between them; declaration, deletion, resizing, naming, lookup by name and by address, references by
   dotted and indexed names, and checkpoints as isomorphic copies of the object graph. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
CONSTANT Types          \* type name -> [sz, m: sequence of members [n: name, o: offset, k: type, d: dimensions, 0 = pointer]]
VARIABLES vs            \* the variables, registered ones first, each kind in order of creation: [a, n, t, d, loc, v: values, p: pointers]
mvars == <<vs>>

Pos(d) == SelectSeq(d, LAMBDA x : x > 0)
RECURSIVE Prod(_)
Prod(d) == IF d = <<>> THEN 1 ELSE Head(d) * Prod(Tail(d))
Elems(d) == Prod(Pos(d))
Stars(d) == Len(d) - Len(Pos(d))
ElSize(t, d) == IF Stars(d) > 0 THEN 8 ELSE Types[t].sz
Size(t, d) == Elems(d) * ElSize(t, d)
End(w) == w.a + Size(w.t, w.d) - 1
Struct(t) == t \in DOMAIN Types /\ Types[t].m # <<>>
Text(t, d) == t = "char" /\ Stars(d) = 1        \* a char pointer is the text it leads to

(* The cells of one element: the values it holds and the pointers it holds, by offset, in order *)
RECURSIVE Els(_, _)
Els(t, sd) == \* sd: number of stars. Cells as [o, k, p]: p = stars, 0 for values (and text)
  IF sd > 0 THEN << [o |-> 0, k |-> t, p |-> sd] >>
  ELSE IF ~Struct(t) THEN << [o |-> 0, k |-> t, p |-> 0] >>
  ELSE FlattenSeq([i \in 1..Len(Types[t].m) |->
         LET mm == Types[t].m[i] one == Els(mm.k, Stars(mm.d)) sz == IF Stars(mm.d) > 0 THEN 8 ELSE IF mm.k \in DOMAIN Types THEN Types[mm.k].sz ELSE 0 n == Elems(mm.d) IN
         FlattenSeq([j \in 1..n |-> [c \in 1..Len(one) |-> [o |-> mm.o + (j - 1) * sz + one[c].o, k |-> one[c].k, p |-> one[c].p]]])])
IsVal(c) == c.p = 0 \/ (c.p = 1 /\ c.k = "char")
StructNames == {t \in DOMAIN Types : Struct(t)}
SVals == [t \in StructNames |-> SelectSeq(Els(t, 0), IsVal)]
SPtrs == [t \in StructNames |-> SelectSeq(Els(t, 0), LAMBDA c : ~IsVal(c))]
VCells(t, d) == IF Stars(d) = 0 /\ Struct(t) THEN SVals[t] ELSE SelectSeq(Els(t, Stars(d)), IsVal)
PCells(t, d) == IF Stars(d) = 0 /\ Struct(t) THEN SPtrs[t] ELSE SelectSeq(Els(t, Stars(d)), LAMBDA c : ~IsVal(c))
Zero(c) == IF c.p > 0 THEN "null" ELSE IF c.k \in {"double", "float"} THEN "0x0p+0" ELSE IF c.k = "std::string" THEN "s"
           ELSE IF c.k = "#pr" THEN "0:0" ELSE IF c.k \in {"#vi", "#vd", "#dq", "#li", "#se", "#mp", "#vs", "#ms", "#vb", "#ls", "#vv"} THEN "[]" ELSE "0"
ZeroVals(t, d) == LET one == VCells(t, d) m == Len(one) IN [i \in 1..(m * Elems(d)) |-> Zero(one[((i - 1) % m) + 1])]
ZeroPtrs(t, d) == [i \in 1..(Len(PCells(t, d)) * Elems(d)) |-> 0]

(* ---------------------------------------------------------------- lookup *)
NamedIn(S, n) == {i \in 1..Len(S) : S[i].n = n}
OfIn(S, p) == {i \in 1..Len(S) : S[i].a <= p /\ p <= End(S[i])}
Named(n) == NamedIn(vs, n)
Of(p) == OfIn(vs, p)
ByName(n) == CHOOSE i \in Named(n) : TRUE
Holder(p) == CHOOSE i \in Of(p) : TRUE
Distinct(S) == \A i, j \in 1..Len(S) : i # j => (End(S[i]) < S[j].a \/ End(S[j]) < S[i].a) /\ (S[i].n # "" => S[i].n # S[j].n)
Entry(w) == [a |-> w.a, end |-> End(w), n |-> w.n, t |-> w.t, d |-> w.d, loc |-> w.loc, num |-> Elems(w.d), sz |-> ElSize(w.t, w.d)]
TableIs(S, tab) == tab = [i \in 1..Len(S) |-> Entry(S[i])]
NamesAre(S, ns) == \A i \in 1..Len(ns) : LET x == ns[i] I == NamedIn(S, x[1]) IN
   IF I = {} THEN x[2] = 0 /\ x[3] = 0 ELSE x[2] = 1 /\ \A k \in I : x[3] = S[k].a
AddressesAre(S, as) == \A i \in 1..Len(as) : LET x == as[i] I == OfIn(S, x[1]) IN
   IF I = {} THEN x[2] = 0 /\ x[3] = 0 /\ x[4] = 0 /\ x[5] = 0
   ELSE LET w == S[CHOOSE k \in I : TRUE] IN
          /\ x[2] = w.a /\ x[5] = Elems(w.d) - (x[1] - w.a) \div ElSize(w.t, w.d)
          /\ IF x[1] = w.a THEN x[3] = 1 /\ x[4] = Elems(w.d) ELSE x[3] = 0 /\ x[4] = 0
ContentIs(S, v, p) == v = [i \in 1..Len(S) |-> S[i].v] /\ p = [i \in 1..Len(S) |-> S[i].p]

(* ---------------------------------------------------------------- changes *)
Known(t) == t \in DOMAIN Types /\ t # ""
DeclOk(n, t, d) == Known(t) /\ (n = "" \/ Named(n) = {})
Fresh(a, t, d) == LET e == a + Size(t, d) - 1 IN a > 0 /\ \A i \in 1..Len(vs) : e < vs[i].a \/ End(vs[i]) < a
NewVar(a, n, t, d, loc) == [a |-> a, n |-> n, t |-> t, d |-> d, loc |-> loc, v |-> ZeroVals(t, d), p |-> ZeroPtrs(t, d)]
\* registered variables come before the manager's own
Insert(w) == IF w.loc THEN Append(vs, w) ELSE SelectSeq(vs, LAMBDA x : ~x.loc) \o <<w>> \o SelectSeq(vs, LAMBDA x : x.loc)
\* dimensions: nc fixed ones, then stars. r: the address granted, 0 when refused
Declare(n, t, d, nc, loc, ea, r) ==
  IF DeclOk(n, t, d) /\ (\A i \in 1..nc : d[i] > 0)
  THEN r # 0 /\ (~loc => r = ea) /\ Fresh(r, t, d) /\ vs' = Insert(NewVar(r, n, t, d, loc))
  ELSE r = 0 /\ UNCHANGED vs
Drop(i) == SubSeq(vs, 1, i - 1) \o SubSeq(vs, i + 1, Len(vs))
At(a) == {i \in 1..Len(vs) : vs[i].a = a}
Delete(S, r) == IF S = {} THEN r = 1 /\ UNCHANGED vs ELSE r = 0 /\ vs' = Drop(CHOOSE i \in S : TRUE)
Rename(a, n, r) ==
  IF At(a) # {} /\ Named(n) = {} THEN r = 0 /\ vs' = [vs EXCEPT ![CHOOSE i \in At(a) : TRUE].n = n]
  ELSE r # 0 /\ UNCHANGED vs
\* the row-major index (0-based) of element e of dimensions nd, in dimensions od; -1 when outside
RECURSIVE Coord(_, _)
Coord(e, d) == IF d = <<>> THEN <<>> ELSE Append(Coord(e \div d[Len(d)], Front(d)), e % d[Len(d)])
RECURSIVE Lin(_, _)
Lin(c, d) == IF c = <<>> THEN 0 ELSE Lin(Front(c), Front(d)) * Last(d) + Last(c)
Common(nd, od, e) == LET c == Coord(e, nd) IN IF \A k \in 1..Len(od) : c[k] < od[k] THEN Lin(c, od) ELSE 0 - 1
Remap(old, m, nd, od, zero) == [i \in 1..(m * Prod(nd)) |-> LET e == (i - 1) \div m f == Common(nd, od, e) IN
                                IF f >= 0 THEN old[f * m + ((i - 1) % m) + 1] ELSE zero[i]]
Resize(S, nd, r) ==
  LET ok == S # {} /\ (LET w == vs[CHOOSE i \in S : TRUE] IN w.loc /\ Len(nd) = Len(Pos(w.d)) /\ Len(nd) > 0 /\ (w.t # "std::string"))
            /\ \A k \in 1..Len(nd) : nd[k] > 0 IN
  IF ~ok THEN r = 0 /\ UNCHANGED vs
  ELSE LET i == CHOOSE j \in S : TRUE w == vs[i] od == Pos(w.d) d2 == nd \o [k \in 1..Stars(w.d) |-> 0] IN
       /\ r # 0
       /\ LET e == r + Size(w.t, d2) - 1 IN \A j \in 1..Len(vs) : j = i \/ e < vs[j].a \/ End(vs[j]) < r
       /\ vs' = [vs EXCEPT ![i] = [w EXCEPT !.a = r, !.d = d2,
                    !.v = Remap(w.v, Len(VCells(w.t, w.d)), nd, od, ZeroVals(w.t, d2)),
                    !.p = Remap(w.p, Len(PCells(w.t, w.d)), nd, od, ZeroPtrs(w.t, d2))]]
\* position (1-based) of the cell at address k of variable w, among the given cells of an element
CellIx(w, k, cs) == LET sz == ElSize(w.t, w.d) off == (k - w.a) % sz el == (k - w.a) \div sz
                    IN el * Len(cs) + (CHOOSE j \in 1..Len(cs) : cs[j].o = off)
SetVal(k, x) == LET i == Holder(k) w == vs[i] IN vs' = [vs EXCEPT ![i].v[CellIx(w, k, VCells(w.t, w.d))] = x]
SetPtr(k, a) == LET i == Holder(k) w == vs[i] IN vs' = [vs EXCEPT ![i].p[CellIx(w, k, PCells(w.t, w.d))] = a]
PtrAt(k) == LET w == vs[Holder(k)] IN w.p[CellIx(w, k, PCells(w.t, w.d))]
Clear(a) == LET i == CHOOSE j \in At(a) : TRUE w == vs[i] IN vs' = [vs EXCEPT ![i].v = ZeroVals(w.t, w.d), ![i].p = ZeroPtrs(w.t, w.d)]
Reset == vs' = SelectSeq(vs, LAMBDA w : ~w.loc)

(* ---------------------------------------------------------------- references
   A path: <<"i", "", k>> index, <<"m", name, 0>> member, <<"a", name, 0>> member of what a pointer leads to.
   Result: <<"no">> designates nothing; <<"yes", address, type, dims left>>; <<"may", address, type, dims left>>: a pointer
   into the middle of something was indexed: the element exists inside a variable, whether it may be named is not specified *)
MemberIx(t, n) == {i \in 1..Len(Types[t].m) : Types[t].m[i].n = n}
StepIn(x, n) == IF x[4] # <<>> \/ x[3] \notin DOMAIN Types \/ MemberIx(x[3], n) = {} THEN <<"no">>
                ELSE LET mm == Types[x[3]].m[CHOOSE i \in MemberIx(x[3], n) : TRUE] IN <<x[1], x[2] + mm.o, mm.k, mm.d>>
Index(x, k) ==
  IF x[4] = <<>> THEN <<"no">>
  ELSE LET rest == Tail(x[4]) sz == IF Stars(rest) > 0 THEN 8 * Elems(rest) ELSE Types[x[3]].sz * Elems(rest) IN
       IF Head(x[4]) > 0 THEN IF k >= 0 /\ k < Head(x[4]) THEN <<x[1], x[2] + k * sz, x[3], rest>> ELSE <<"no">>
       ELSE IF x[1] = "may" THEN <<"any">>      \* whether that is a pointer at all depends on what lies past the element
       ELSE IF x[3] = "char" THEN <<"any">>      \* text: its allocation is not described here
       ELSE LET p == PtrAt(x[2]) IN
            IF p = 0 \/ k < 0 \/ Of(p) = {} \/ p + (k + 1) * sz - 1 > End(vs[Holder(p)]) THEN <<"no">>
            ELSE LET w == vs[Holder(p)] top == w.t = x[3] /\ Stars(w.d) = Len(rest) /\ p = w.a /\ Len(Pos(w.d)) <= 1 IN
                 <<IF top \/ k = 0 THEN x[1] ELSE "may", p + k * sz, x[3], rest>>
RECURSIVE Walk(_, _)
Walk(x, path) == IF path = <<>> \/ x[1] \in {"no", "any"} THEN x
  ELSE LET s == Head(path) y == IF s[1] = "i" THEN Index(x, s[3]) ELSE IF s[1] = "m" THEN StepIn(x, s[2])
                                ELSE LET z == Index(x, 0) IN IF z[1] \in {"no", "any"} THEN z ELSE StepIn(z, s[2]) IN Walk(y, Tail(path))
Resolve(n, path) == IF Named(n) = {} THEN <<"no">> ELSE LET w == vs[ByName(n)] IN Walk(<<"yes", w.a, w.t, w.d>>, path)
TypeTag(t) == IF t \in {"#b1", "#b2", "#b3"} THEN "bits" ELSE IF t \notin DOMAIN Types THEN "stl" ELSE t
RefIs(n, path, r, a, t, left) == LET x == Resolve(n, path) IN
   CASE x[1] = "no" -> r = 0
     [] x[1] = "any" -> TRUE
     [] OTHER -> /\ (x[1] = "yes" => r = 1)
                 /\ (r = 1 => (TypeTag(x[3]) = "bits" \/ a = x[2]) /\ left = Len(x[4])
                               /\ (t = TypeTag(x[3]) \/ (t = "?" /\ Struct(x[3])) \/ {t, x[3]} \in {{"long", "long long"}, {"unsigned long", "unsigned long long"}}))

(* ---------------------------------------------------------------- checkpoints
   What was written is read back as an isomorphic graph: the same variables in the same order (anonymous text is only what
   char pointers lead to), the manager's own at new addresses and the others where they were, same values, and every pointer
   leads to the corresponding place. For a selection: what the selected variables reach. *)
AnonText(w) == w.loc /\ w.n = "" /\ w.t = "char" /\ Len(w.d) = 1 /\ w.d[1] > 0
Heads(w) == {Holder(w.p[i]) : i \in {j \in 1..Len(w.p) : w.p[j] # 0}}
RECURSIVE Matches(_, _)    \* one-to-one choices of a candidate for each
Matches(A, cand) == IF A = {} THEN {<<>>} ELSE LET i == CHOOSE x \in A : TRUE IN
  UNION {{(i :> j) @@ f : f \in {g \in Matches(A \ {i}, [x \in A \ {i} |-> cand[x] \ {j}]) : TRUE}} : j \in cand[i]}
RECURSIVE Closure(_)
Closure(S) == LET T == S \cup UNION {Heads(vs[i]) : i \in S} IN IF T = S THEN S ELSE Closure(T)
Kept(sel) == IF sel = <<>> THEN 1..Len(vs) ELSE Closure({i \in 1..Len(vs) : vs[i].n \in ToSet(sel)})
Like(w, x) == w.t = x.t /\ w.d = x.d /\ w.v = x.v
IsCopy(sel, new) ==     \* new: the variables after reading
  LET kept == {i \in Kept(sel) : ~AnonText(vs[i])}
      exts == {i \in 1..Len(vs) : ~vs[i].loc}
      nl == {j \in 1..Len(new) : new[j].loc /\ ~AnonText(new[j])}
      anon == {i \in kept \ exts : vs[i].n = ""}   anew == {j \in nl : new[j].n = ""}
      named == {i \in kept \cup exts : vs[i].n # ""}
      cand == [i \in anon |-> {j \in anew : Like(vs[i], new[j])}]
  IN /\ Cardinality(nl) = Cardinality(kept \ exts) /\ Cardinality(anew) = Cardinality(anon)
     /\ Cardinality({j \in 1..Len(new) : ~new[j].loc}) = Cardinality(exts)
     /\ \A i \in named : \E j \in 1..Len(new) : new[j].n = vs[i].n /\ new[j].loc = vs[i].loc /\ new[j].t = vs[i].t /\ new[j].d = vs[i].d
                          /\ (~vs[i].loc => new[j].a = vs[i].a) /\ (i \in kept => new[j].v = vs[i].v)
     /\ \A i \in exts : vs[i].n # ""
     /\ LET byname == [i \in named |-> CHOOSE j \in 1..Len(new) : new[j].n = vs[i].n] IN
        \E f \in Matches(anon, cand) :
          LET img(i) == new[IF i \in anon THEN f[i] ELSE byname[i]]
              mapped(p) == IF p = 0 THEN 0 ELSE LET i == Holder(p) IN img(i).a + (p - vs[i].a)
          IN \A i \in kept : img(i).p = [k \in 1..Len(vs[i].p) |-> mapped(vs[i].p[k])]
Restore(sel, new) == IsCopy(sel, new) /\ vs' = new
=============================================================================
