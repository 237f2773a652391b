------------------------------- MODULE LogRead -------------------------------
(* Reading recorded logs: streams of one variable, groups of streams stepped together. Times are whole units (1/64 s); values are
   canonical texts, with the number beside them when it is a small whole number. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, FiniteSetsExt
VARIABLES logs,   \* sequence of [d, f, ext, names, units, rows : sequence of [t, v, n]]
          st,     \* stream -> [k : log, c : column, pos : next row], or a difference of two streams
          gr      \* group -> [m : members, start, stop, pres]
logvars == <<logs, st, gr>>
Inf == 1000000000
Col(k, p) == CHOOSE c \in 1..Len(logs[k].names) : logs[k].names[c] = p
Having(d, p) == {k \in 1..Len(logs) : logs[k].d = d /\ \E c \in 1..Len(logs[k].names) : logs[k].names[c] = p}
\* where a variable may be read from: binary logs before comma separated ones
Source(d, p) == LET H == Having(d, p) B == {k \in H : logs[k].ext = "trk"} IN IF B # {} THEN B ELSE H
UnitOf(u) == CASE u = "r/s" -> "rad/s" [] u = "d" -> "degree" [] u = "lbm" -> "lb" [] u = "one" -> "1" [] u = "cnt" -> "count" [] OTHER -> u
Rows(s) == logs[s.k].rows
NRows(s) == Len(Rows(s))
Left(s) == s.pos <= NRows(s)
Row(s, i) == LET r == Rows(s)[i] IN <<r.t, r.v[s.c]>>
Time(s, i) == Rows(s)[i].t
Now(s) == IF Left(s) THEN Time(s, s.pos) ELSE Inf
\* --------------------------------------------------------------- one stream
Open(x, d, p, r, f, u, tu) ==
  /\ (r = 0) = (Source(d, p) = {})
  /\ IF r = 0 THEN st' = st
     ELSE \E k \in Source(d, p) : /\ logs[k].f = f /\ u = UnitOf(logs[k].units[Col(k, p)]) /\ tu = "s"
                                  /\ st' = [y \in DOMAIN st \cup {x} |-> IF y = x THEN [k |-> k, c |-> Col(k, p), pos |-> 1] ELSE st[y]]
  /\ UNCHANGED <<logs, gr>>
Get(x, r, t, v) == /\ (r = 1) = Left(st[x]) /\ (r = 1 => <<t, v>> = Row(st[x], st[x].pos))
                   /\ st' = [st EXCEPT ![x].pos = IF r = 1 THEN @ + 1 ELSE @] /\ UNCHANGED <<logs, gr>>
Peek(x, r, t, v) == (r = 1) = Left(st[x]) /\ (r = 1 => <<t, v>> = Row(st[x], st[x].pos)) /\ UNCHANGED logvars
Step(x, r) == (r = 1) = Left(st[x]) /\ st' = [st EXCEPT ![x].pos = IF r = 1 THEN @ + 1 ELSE @] /\ UNCHANGED <<logs, gr>>
Begin(x) == st' = [st EXCEPT ![x].pos = 1] /\ UNCHANGED <<logs, gr>>
End(x, r) == (r = 1) = ~Left(st[x]) /\ UNCHANGED logvars
At(x, w, r, v) ==
  LET s == st[x] H == {i \in 1..NRows(s) : Time(s, i) = w} IN
  /\ (r = 1) = (H # {}) /\ (r = 1 => v = Row(s, Min(H))[2])
  /\ st' = [st EXCEPT ![x].pos = IF H = {} THEN NRows(s) + 1 ELSE Min(H) + 1] /\ UNCHANGED <<logs, gr>>
\* --------------------------------------------------------------- several streams
Index(s, T) == Min({i \in s.pos..NRows(s) : Time(s, i) = T})
Common(m, lo) == LET T(s) == {Time(s, i) : i \in s.pos..NRows(s)} IN {t \in T(st[m[1]]) : t >= lo /\ \A j \in 2..Len(m) : t \in T(st[m[j]])}
\* the next rows of all members that have one time
MatchTo(m, lo, hi, r, rows) ==
  LET C == {t \in Common(m, lo) : t <= hi} IN
  /\ (r = 1) = (C # {})
  /\ r = 1 => rows = [j \in 1..Len(m) |-> Row(st[m[j]], Index(st[m[j]], Min(C)))]
  /\ st' = [x \in DOMAIN st |-> IF \E j \in 1..Len(m) : m[j] = x THEN [st[x] EXCEPT !.pos = IF r = 1 THEN Index(st[x], Min(C)) + 1 ELSE NRows(st[x]) + 1] ELSE st[x]]
Match(g, r, end, rows) == MatchTo(gr[g].m, gr[g].start, gr[g].stop, r, rows) /\ end = 1 - r /\ UNCHANGED <<logs, gr>>
\* a step: the members at the earliest time advance; with equal times preserved, until all are at one time
Nows(S, m) == {Now(S[m[j]]) : j \in 1..Len(m)}
Advance(S, m) == LET T == Min(Nows(S, m)) IN [x \in DOMAIN S |-> IF (\E j \in 1..Len(m) : m[j] = x) /\ Now(S[x]) = T /\ T < Inf THEN [S[x] EXCEPT !.pos = @ + 1] ELSE S[x]]
RECURSIVE StepTo(_, _, _)
StepTo(S, m, pres) == LET A == TLCEval(Advance(S, m)) IN IF pres /\ Cardinality(Nows(A, m)) > 1 THEN StepTo(A, m, pres) ELSE A
Over(S, g) == Min(Nows(S, gr[g].m)) > gr[g].stop
GStep(g, end, rows) ==
  LET A == StepTo(st, gr[g].m, gr[g].pres) m == gr[g].m IN
  /\ (end = 1) = (gr[g].over \/ Over(A, g))
  /\ end = 0 => rows = [j \in 1..Len(m) |-> IF Left(A[m[j]]) THEN Row(A[m[j]], A[m[j]].pos) ELSE <<-1, "">>]
  /\ st' = A /\ gr' = [gr EXCEPT ![g].over = end = 1] /\ UNCHANGED logs
RECURSIVE Reach(_, _)
Reach(S, g) == IF Min(Nows(S, gr[g].m)) < gr[g].start THEN Reach(StepTo(S, gr[g].m, gr[g].pres), g) ELSE S
GBegin(g) == LET Z == [x \in DOMAIN st |-> IF \E j \in 1..Len(gr[g].m) : gr[g].m[j] = x THEN [st[x] EXCEPT !.pos = 1] ELSE st[x]]
                 R == Reach(Z, g) IN st' = R /\ gr' = [gr EXCEPT ![g].over = R # Z /\ Over(R, g)] /\ UNCHANGED logs
NewGroup(g, m) == gr' = [x \in DOMAIN gr \cup {g} |-> IF x = g THEN [m |-> m, start |-> 0, stop |-> Inf - 1, pres |-> TRUE, over |-> FALSE] ELSE gr[x]] /\ UNCHANGED <<logs, st>>
=============================================================================
