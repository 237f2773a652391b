--------------------------- MODULE Trace_Messages ---------------------------
EXTENDS Messages, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == <<msgvars, l>>
TraceInit == l = 1 /\ info = <<>> /\ subs = <<>> /\ time = [tics |-> 0, tps |-> 1000000]
Ev == Trace[l]
TraceNext ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ CASE Ev.e = "scn" -> info' = <<>> /\ subs' = <<>> /\ time' = [tics |-> 0, tps |-> 1000000]
       [] Ev.e = "end" -> UNCHANGED msgvars
       [] Ev.e = "new" -> NewSub(Ev.n, Ev.k, Ev.lv, Ev.col = 1)
       [] Ev.e = "open" -> Ev.r = Ev.lv /\ NewSub(Ev.n, "cfile", Ev.lv, FALSE)
       [] Ev.e = "sub" -> Subscribe(Ev.n)
       [] Ev.e = "unsub" -> Unsubscribe(Ev.n)
       [] Ev.e = "en" -> Enable(Ev.n, Ev.v = 1)
       [] Ev.e = "col" -> Colour(Ev.n, Ev.v = 1)
       [] Ev.e = "get" -> Ev.r = Find(Ev.n) /\ UNCHANGED msgvars
       [] Ev.e = "time" -> time' = [tics |-> Ev.tics, tps |-> Ev.tps] /\ UNCHANGED <<info, subs>>
       [] Ev.e = "pub" -> PublishIs(Ev.lv, Ev.t, Ev.got) /\ UNCHANGED msgvars
       [] Ev.e = "par" -> ParIs(Ev.k, Ev.cnt, Ev.lv, Ev.tog, Ev.got) /\ Toggled(Ev.tog)
       [] OTHER -> FALSE
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Progress == TLCSet(7, IF TLCGet(7) < l THEN l ELSE TLCGet(7))
ASSUME TLCSet(7, 1)
TraceAccepted == PrintT(<<"REACHED", TLCGet(7) - 1>>) /\ TLCGet(7) - 1 = Len(Trace)
=============================================================================
