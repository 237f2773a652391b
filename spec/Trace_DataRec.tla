---------------------------- MODULE Trace_DataRec ----------------------------
EXTENDS DataRec, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == <<recvars, l>>
Ev == Trace[l]
TraceInit == l = 1 /\ vals = <<>> /\ grp = <<>>
New(g) == [alive |-> TRUE, on |-> TRUE, rates |-> [k \in 1..Len(g.cycles) |-> [cy |-> g.cycles[k], nx |-> 0]], nx |-> 0, rows |-> <<>>,
           freq |-> g.freq, ring |-> g.buf = "ring", max |-> g.max, lim |-> g.lim, vars |-> g.vars, names |-> g.names,
           seen |-> [w \in Range(g.watch) |-> IF w = "p[0]" THEN Ev.vals[Ev.vals["p"]] ELSE Ev.vals[w]]]
A == Ev.after = 1
Known(m) == m \in DOMAIN grp /\ grp[m].alive
TraceNext ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ CASE Ev.e = "scn" -> vals' = Ev.vals /\ grp' = [n \in DOMAIN Ev.groups |-> New(Ev.groups[n])]
       [] Ev.e = "set" -> Ev.r = 0 /\ Set(Ev.n, Ev.v, Ev.t, A)
       [] Ev.e = "on" -> Enable(IF Ev.g = "" THEN DOMAIN grp ELSE {Ev.g}, TRUE, Ev.t, A)
       [] Ev.e = "off" -> Enable(IF Ev.g = "" THEN DOMAIN grp ELSE {Ev.g}, FALSE, Ev.t, A)
       [] Ev.e = "now" -> RecordNow(Ev.g, Ev.t, A)
       [] Ev.e = "cycle" -> (Ev.r = 0) = Known(Ev.g) /\ SetCycle(Ev.g, Ev.cy, Ev.t, A)
       [] Ev.e = "add" -> (Ev.r = 0) = Known(Ev.g) /\ AddCycle(Ev.g, Ev.cy, Ev.t, A)
       [] Ev.e = "rem" -> (Ev.r = 0) = Known(Ev.g) /\ RemoveGroup(Ev.g, Ev.t, A)
       [] Ev.e = "burst" -> Burst(Ev.g, Ev.n, Ev.v0, Ev.cnt, Ev.t, A)
       [] Ev.e = "fin" -> grp' = Catch(Ev.t, TRUE) /\ UNCHANGED vals
       [] Ev.e = "file" -> FileIs(grp[Ev.g], Ev) /\ UNCHANGED recvars
       [] Ev.e = "end" -> UNCHANGED recvars
       [] OTHER -> FALSE
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Progress == TLCSet(7, IF TLCGet(7) < l THEN l ELSE TLCGet(7))
ASSUME TLCSet(7, 1)
TraceAccepted == PrintT(<<"REACHED", TLCGet(7) - 1>>) /\ TLCGet(7) - 1 = Len(Trace)
=============================================================================
