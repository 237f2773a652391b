---------------------------- MODULE Trace_LogRead ----------------------------
EXTENDS LogRead, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == <<logvars, l>>
Ev == Trace[l]
TraceInit == l = 1 /\ logs = <<>> /\ st = <<>> /\ gr = <<>>
\* a difference of two variables' streams: two hidden streams matched together
Hid(x) == <<x \o "/1", x \o "/2">>
Num(s, i) == Rows(s)[i].n[s.c]
DeltaOpen == /\ Source(Ev.d, Ev.p) # {} /\ Source(Ev.d2, Ev.p2) # {} /\ Ev.r = 1
             /\ LET F(d, p) == LET k == CHOOSE j \in Source(d, p) : TRUE IN [k |-> k, c |-> Col(k, p), pos |-> 1] IN
                st' = [y \in DOMAIN st \cup {Hid(Ev.s)[1], Hid(Ev.s)[2]} |-> IF y = Hid(Ev.s)[1] THEN F(Ev.d, Ev.p) ELSE IF y = Hid(Ev.s)[2] THEN F(Ev.d2, Ev.p2) ELSE st[y]]
             /\ UNCHANGED <<logs, gr>>
DeltaGet == LET m == Hid(Ev.s) C == Common(m, 0) A == st[m[1]] B == st[m[2]] IN
  /\ (Ev.r = 1) = (C # {})
  /\ Ev.r = 1 => Ev.t = Min(C) /\ Ev.v = ToString(Num(A, Index(A, Min(C))) - Num(B, Index(B, Min(C))))
  /\ st' = [x \in DOMAIN st |-> IF x \in {m[1], m[2]} THEN [st[x] EXCEPT !.pos = IF C # {} THEN Index(st[x], Min(C)) + 1 ELSE NRows(st[x]) + 1] ELSE st[x]]
  /\ UNCHANGED <<logs, gr>>
LogNamed(f) == CHOOSE k \in 1..Len(logs) : logs[k].f = f
TraceNext ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ CASE Ev.e = "logs" -> logs' = Ev.logs /\ st' = <<>> /\ gr' = <<>>
       [] Ev.e = "open" -> Open(Ev.s, Ev.d, Ev.p, Ev.r, Ev.f, Ev.u, Ev.tu)
       [] Ev.e = "get" -> Get(Ev.s, Ev.r, Ev.t, Ev.v)
       [] Ev.e = "peek" -> Peek(Ev.s, Ev.r, Ev.t, Ev.v)
       [] Ev.e = "step" -> Step(Ev.s, Ev.r)
       [] Ev.e = "begin" -> Begin(Ev.s)
       [] Ev.e = "end" -> End(Ev.s, Ev.r)
       [] Ev.e = "at" -> At(Ev.s, Ev.w, Ev.r, Ev.v)
       [] Ev.e = "close" -> UNCHANGED logvars
       [] Ev.e = "dopen" -> DeltaOpen
       [] Ev.e = "dget" -> DeltaGet
       [] Ev.e = "vars" -> Ev.r = 1 /\ Ev.n = logs[LogNamed(Ev.s)].names /\ Ev.u = logs[LogNamed(Ev.s)].units /\ UNCHANGED logvars
       [] Ev.e = "conv" -> LET L == logs[LogNamed(Ev.s)] IN Ev.n = L.names /\ Ev.u = L.units /\ Ev.rows = [i \in 1..Len(L.rows) |-> L.rows[i].v] /\ UNCHANGED logvars
       [] Ev.e = "group" -> NewGroup(Ev.s, Ev.m)
       [] Ev.e = "gstart" -> gr' = [gr EXCEPT ![Ev.s].start = Ev.w] /\ UNCHANGED <<logs, st>>
       [] Ev.e = "gstop" -> gr' = [gr EXCEPT ![Ev.s].stop = Ev.w] /\ UNCHANGED <<logs, st>>
       [] Ev.e = "gpres" -> gr' = [gr EXCEPT ![Ev.s].pres = Ev.w = 1] /\ UNCHANGED <<logs, st>>
       [] Ev.e = "gbegin" -> GBegin(Ev.s)
       [] Ev.e = "gmatch" -> Match(Ev.s, Ev.r, Ev.end, Ev.l)
       [] Ev.e = "gstep" -> GStep(Ev.s, Ev.end, Ev.l)
       [] OTHER -> FALSE
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Progress == TLCSet(7, IF TLCGet(7) < l THEN l ELSE TLCGet(7))
ASSUME TLCSet(7, 1)
TraceAccepted == PrintT(<<"REACHED", TLCGet(7) - 1>>) /\ TLCGet(7) - 1 = Len(Trace)
=============================================================================
