------------------------- MODULE Trace_Containers -------------------------
EXTENDS Containers, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == <<vars, l>>
TraceInit == l = 1 /\ list = <<>> /\ cells = 0 /\ q = <<>> /\ st = <<>> /\ bag = <<>> /\ map = <<>> /\ col = <<>>
Ev == Trace[l]
ListOps == {"addhead", "addtail", "before", "after", "remove", "clear", "getat", "setat", "findpos", "find", "index", "sort"}
Cols(s) == {s[i][1] : i \in 1..Len(s)}
TraceNext ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ CASE Ev.e = "scn" -> Init0
       [] Ev.e = "end" -> Ev.ret = 0 /\ UNCHANGED vars
       [] Ev.e = "iter" -> IterOp(Ev.fwd, Ev.bwd, Ev.n)
       [] Ev.e = "col" -> /\ ColOp(Ev.o, Ev.c, Ev.x)
                          /\ \A i \in 1..Len(Ev.all) : Ev.all[i].n = Len(Ev.all[i].s) /\ Ev.all[i].s = (IF i \in DOMAIN col' THEN col'[i] ELSE <<>>)
       [] Ev.o \in ListOps -> ListOp(Ev.o, Ev.a, Ev.b, Ev.r) /\ Ev.fwd = list' /\ Ev.bwd = Rev(list') /\ Ev.n = Len(list')
       [] OTHER -> OtherOp(Ev.o, Ev.a, Ev.b, Ev.k, Ev.r, Ev.n, Ev.in)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Progress == TLCSet(7, IF TLCGet(7) < l THEN l ELSE TLCGet(7))
ASSUME TLCSet(7, 1)
TraceAccepted == PrintT(<<"REACHED", TLCGet(7) - 1>>) /\ TLCGet(7) - 1 = Len(Trace)
=============================================================================
