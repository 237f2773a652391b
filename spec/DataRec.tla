------------------------------- MODULE DataRec -------------------------------
(* Data recording: what each group's rows are, and what its file holds at the end. Times are whole units (1/64 s). *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt
VARIABLES vals,   \* variable -> value (canonical text); "p" holds the name of the variable it points to
          grp     \* group -> what it is and what it has recorded
recvars == <<vals, grp>>
Val(n) == IF n = "p[0]" THEN vals[vals["p"]] ELSE vals[n]
\* how the header describes a variable: <<C type, units>>
Desc(n) == CASE n = "c" -> <<"char", "--">> [] n = "uc" -> <<"unsigned_char", "--">> [] n = "s" -> <<"short", "--">> [] n = "us" -> <<"unsigned_short", "--">>
  [] n = "i" -> <<"int", "m">> [] n \in {"e", "i2", "p[0]"} -> <<"int", "--">> [] n = "ui" -> <<"unsigned_int", "--">>
  [] n = "l" -> <<"long", "m/s">> [] n = "ul" -> <<"unsigned_long", "--">> [] n = "ll" -> <<"long_long", "kg">> [] n = "ull" -> <<"unsigned_long_long", "--">>
  [] n = "f" -> <<"float", "--">> [] n = "d" -> <<"double", "m/s2">> [] n = "b" -> <<"unsigned_char", "--">>
  [] n \in {"b1", "b3"} -> <<"int", "--">> [] n = "b2" -> <<"unsigned_int", "--">>
  [] n \in {"m[0][0]", "m[0][1]", "m[0][2]", "m[1][0]", "m[1][1]", "m[1][2]"} -> <<"double", "m">>
  [] n \in {"v[0]", "v[1]", "v[2]"} \cup {"y[" \o ToString(k) \o "]" : k \in 0..11} -> <<"double", "--">>
  [] OTHER -> <<"int", "--">>
\* --------------------------------------------------------------- schedule
NextOf(rates, t) == Min({IF r.nx <= t THEN t + r.cy - ((t - r.nx) % r.cy) ELSE r.nx : r \in Range(rates)})
Advance(rates, t) == [k \in 1..Len(rates) |-> [rates[k] EXCEPT !.nx = IF @ <= t THEN t + rates[k].cy - ((t - @) % rates[k].cy) ELSE @]]
Rate(cy, t) == [cy |-> cy, nx |-> IF t % cy = 0 THEN t ELSE (t \div cy + 1) * cy]
\* --------------------------------------------------------------- one recording opportunity at time t
Changed(g) == \E w \in DOMAIN g.seen : Val(w) # g.seen[w]
Wants(g) == g.on /\ (g.freq = "always" \/ g.rows = <<>> \/ Changed(g))
Row(g, t) == <<t>> \o [k \in 1..Len(g.vars) |-> Val(g.vars[k])]
Again(g, t) == IF g.freq = "step" /\ g.rows # <<>> THEN << <<t>> \o Tail(g.rows[Len(g.rows)]) >> ELSE <<>>
Record(g, t) == [g EXCEPT !.rows = IF Wants(g) THEN @ \o Again(g, t) \o <<Row(g, t)>> ELSE @,
                          !.seen = IF g.on /\ g.freq # "always" THEN [w \in DOMAIN @ |-> Val(w)] ELSE @,
                          !.rates = Advance(@, t), !.nx = NextOf(Advance(g.rates, t), t)]
\* every due time before t, and t itself if the caller runs after the recording jobs of time t
RECURSIVE Upto(_, _, _)
Upto(g, t, after) == IF g.alive /\ (g.nx < t \/ (g.nx = t /\ after)) THEN Upto(Record(g, g.nx), t, after) ELSE g
Catch(t, after) == [n \in DOMAIN grp |-> Upto(grp[n], t, after)]
\* --------------------------------------------------------------- commands, by a job at time t
Set(n, v, t, after) == grp' = Catch(t, after) /\ vals' = [vals EXCEPT ![n] = v]
Enable(ns, on, t, after) == grp' = [n \in DOMAIN grp |-> IF n \in ns /\ grp[n].alive THEN [Upto(grp[n], t, after) EXCEPT !.on = on] ELSE Upto(grp[n], t, after)] /\ UNCHANGED vals
RecordNow(m, t, after) == grp' = [n \in DOMAIN grp |-> LET g == Upto(grp[n], t, after) IN IF n = m /\ g.alive THEN Record(g, t) ELSE g] /\ UNCHANGED vals
Rerate(g, rates, t) == [g EXCEPT !.rates = rates, !.nx = IF @ = t THEN t ELSE NextOf(rates, t)]
SetCycle(m, cy, t, after) == grp' = [n \in DOMAIN grp |-> LET g == Upto(grp[n], t, after) IN IF n = m /\ g.alive THEN Rerate(g, [g.rates EXCEPT ![1] = Rate(cy, t)], t) ELSE g] /\ UNCHANGED vals
AddCycle(m, cy, t, after) == grp' = [n \in DOMAIN grp |-> LET g == Upto(grp[n], t, after) IN IF n = m /\ g.alive THEN Rerate(g, Append(g.rates, Rate(cy, t)), t) ELSE g] /\ UNCHANGED vals
RemoveGroup(m, t, after) == grp' = [n \in DOMAIN grp |-> LET g == Upto(grp[n], t, after) IN IF n = m THEN [g EXCEPT !.alive = FALSE] ELSE g] /\ UNCHANGED vals
\* cnt times: a counter is increased, then group m records now
RECURSIVE Bump(_, _, _, _)
Bump(g, x, k, t) == IF k = 0 THEN g ELSE Bump([g EXCEPT !.rows = IF g.on THEN Append(@, <<t>> \o [j \in 1..Len(g.vars) |-> IF g.vars[j] = x.n THEN ToString(x.v0 + x.cnt - k + 1) ELSE Val(g.vars[j])]) ELSE @], x, k - 1, t)
Burst(m, n, v0, cnt, t, after) ==
  /\ vals[n] = ToString(v0) /\ vals' = [vals EXCEPT ![n] = ToString(v0 + cnt)]
  /\ grp' = [q \in DOMAIN grp |-> LET g == Upto(grp[q], t, after) IN
        IF q # m \/ ~g.alive THEN g
        ELSE IF g.freq = "always" THEN [Bump(g, [n |-> n, v0 |-> v0, cnt |-> cnt], cnt, t) EXCEPT !.rates = Advance(@, t), !.nx = NextOf(Advance(g.rates, t), t)]
        ELSE g]
\* --------------------------------------------------------------- the file at the end
Kept(g) == IF g.ring THEN SubSeq(g.rows, IF Len(g.rows) > g.max THEN Len(g.rows) - g.max + 1 ELSE 1, Len(g.rows)) ELSE g.rows
\* a limit (in bytes, 0: none) ends the file after the row that passes it
SumTo(s, k) == FoldLeft(+, 0, SubSeq(s, 1, k))
FileIs(g, f) ==
  LET K == Kept(g) n == Len(f.rows) IN
  /\ f.names = <<"sys.exec.out.time">> \o g.names
  /\ f.units = <<"s">> \o [k \in 1..Len(g.vars) |-> Desc(g.vars[k])[2]]
  /\ f.types = <<"double">> \o [k \in 1..Len(g.vars) |-> Desc(g.vars[k])[1]]
  /\ f.hnames = f.names /\ f.hunits = f.units
  /\ f.rest = 0
  /\ IF g.lim = 0 THEN f.rows = K
     ELSE /\ n <= Len(K) /\ f.rows = SubSeq(K, 1, n)
          /\ n > 0 => f.hdr + SumTo(f.sizes, n - 1) <= g.lim
          /\ n < Len(K) => f.hdr + SumTo(f.sizes, n) > g.lim
=============================================================================
