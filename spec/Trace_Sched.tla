---------------------------- MODULE Trace_Sched ----------------------------
(* Binds Sched to executions recorded from SIM_verif. A trace file holds many executions; each starts with a
   "scn" event (the job table and settings) and ends with an "end" event (the exit status). *)
EXTENDS Sched, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, idle, h
tvars == <<vars, l, idle, h>>

\* state at the start of an execution described by header s
RECURSIVE Build(_, _, _)
Build(s, i, acc) == \* acc: jobs; objects s.order[1..] already added
  IF i > Len(s.order) THEN acc
  ELSE LET dec == s.decls[s.order[i]]
           new == [n \in {dec[k].n : k \in 1..Len(dec)} |-> LET k == CHOOSE k \in 1..Len(dec) : dec[k].n = n IN MkJob(dec[k], i, 0)]
       IN Build(s, i + 1, new @@ acc)
Load(s) ==
  /\ jobs' = Build(s, 1, <<>>)
  /\ objs' = [o \in {s.order[i] : i \in 1..Len(s.order)} |-> [seq |-> (CHOOSE i \in 1..Len(s.order) : s.order[i] = o), dis |-> FALSE, saved |-> <<>>]]
  /\ nobj' = Len(s.order)
  /\ tm' = [t |-> 0, last |-> 0, nf |-> s.frame, fr |-> s.frame, term |-> s.term]
  /\ fz' = [t |-> 0, nf |-> s.ffr, fr |-> s.ffr, bound |-> s.bound, async |-> FALSE, times |-> {}]
  /\ cmd' = IF s.freezecmd THEN "Freeze" ELSE "No"
  /\ pc' = "default_data" /\ cur' = -1 /\ run' = [j |-> "", b |-> 0, a |-> 0] /\ ret' = 0
  /\ calls' = [j \in DOMAIN jobs' |-> 0]

TraceInit == /\ l = 1 /\ idle = 0 /\ h = 0
             /\ jobs = <<>> /\ objs = <<>> /\ nobj = 0
             /\ tm = [t |-> 0, last |-> 0, nf |-> 0, fr |-> 0, term |-> 0]
             /\ fz = [t |-> 0, nf |-> 0, fr |-> 0, bound |-> FALSE, async |-> FALSE, times |-> {}]
             /\ cmd = "No" /\ pc = "end" /\ cur = -1 /\ run = [j |-> "", b |-> 0, a |-> 0] /\ ret = 0 /\ calls = <<>>

Ev == Trace[l]
Step == l' = l + 1 /\ idle' = 0
InJob == run.j # "" \/ pc = "input"

TScn == Ev.e = "scn" /\ pc = "end" /\ Load(Ev) /\ h' = l
TCall == /\ Ev.e = "call" /\ Ev.j \in DOMAIN jobs
         /\ Ev.t = tm.t /\ Ev.m = Mode /\ (pc = "freeze_scheduled" => Ev.ft = fz.t)
         /\ Call(Ev.j) /\ Ev.n = calls'[Ev.j] /\ h' = h
TInstr == /\ Ev.e = "instr" /\ Ev.tgt \in DOMAIN jobs
          /\ (InstrBefore(Ev.j, Ev.tgt) \/ InstrAfter(Ev.j, Ev.tgt)) /\ h' = h
TInput0 == Ev.e = "input0" /\ DefaultDone /\ h' = h
TInput == Ev.e = "input" /\ InputDone /\ h' = h
TEnd == Ev.e = "end" /\ pc = "end" /\ Ev.ret = ret /\ UNCHANGED vars /\ h' = h

TAct ==
  /\ Ev.e = "act" /\ InJob /\ h' = h
  /\ CASE Ev.c = "on"      -> OnOff(Ev.a, FALSE, Ev.r)
       [] Ev.c = "off"     -> OnOff(Ev.a, TRUE, Ev.r)
       [] Ev.c = "objon"   -> ObjOn(Ev.a, Ev.r)
       [] Ev.c = "objoff"  -> ObjOff(Ev.a, Ev.r)
       [] Ev.c = "jobson"  -> JobsOnOff(Ev.a, FALSE, Ev.r)
       [] Ev.c = "jobsoff" -> JobsOnOff(Ev.a, TRUE, Ev.r)
       [] Ev.c = "getobj"  -> GetObj(Ev.a, Ev.r)
       [] Ev.c = "cycle"   -> SetCycle(Ev.a, Ev.v, Ev.r)
       [] Ev.c = "next"    -> SelfNext(run.j, Clk + Ev.v)
       [] Ev.c = "settime" -> SetTime(Ev.v)
       [] Ev.c = "tic"     -> SetTic
       [] Ev.c = "frame"   -> SetFrame(Ev.v)
       [] Ev.c = "freeze"  -> FreezeNow
       [] Ev.c = "freezeat"-> FreezeAt(Ev.v)
       [] Ev.c = "run"     -> SetCmd("Run")
       [] Ev.c = "stopnow" -> SetCmd("Exit")
       [] Ev.c = "stopat"  -> StopAt(Ev.v)
       [] Ev.c = "term"    -> Fail(Ev.v)
       [] Ev.c = "ret"     -> IF RetCounts /\ Ev.r # 0 THEN Fail(Ev.r) ELSE UNCHANGED vars
       [] Ev.c = "add"     -> AddObj(Ev.a, Trace[h].decls[Ev.a])
       [] Ev.c = "del"     -> DelObj(Ev.a)
       [] Ev.c = "instb"   -> Ev.r = 0 /\ AddBefore(Ev.a)
       [] Ev.c = "insta"   -> Ev.r = 0 /\ AddAfter(Ev.a)
       [] Ev.c = "instb1"  -> Ev.r = 0 /\ AddBeforeOne(Ev.a, Ev.b)
       [] Ev.c = "insta1"  -> Ev.r = 0 /\ AddAfterOne(Ev.a, Ev.b)
       [] Ev.c = "instr"   -> Ev.r = 0 /\ DelInst(Ev.a)
       [] Ev.c = "nap"     -> UNCHANGED vars
       [] Ev.c = "getterm" -> Ev.v = tm.term /\ UNCHANGED vars
       [] Ev.c = "gettime" -> Ev.v = tm.t /\ UNCHANGED vars
       [] Ev.c = "getframe"-> Ev.v = tm.fr /\ UNCHANGED vars
       [] Ev.c = "getfftics" -> Ev.v = fz.fr /\ UNCHANGED vars
       [] Ev.c = "getcyc"  -> Ev.v = jobs[Ev.a].cy /\ UNCHANGED vars
       [] OTHER -> FALSE

TraceNext == /\ l <= Len(Trace)
             /\ \/ Step /\ (TScn \/ TCall \/ TInstr \/ TInput0 \/ TInput \/ TEnd \/ TAct)
                \/ Ev.e \notin {"act", "scn", "input0", "input"} /\ idle < 300 /\ Silent /\ idle' = idle + 1 /\ UNCHANGED <<l, h>>
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Progress == TLCSet(7, IF TLCGet(7) < l THEN l ELSE TLCGet(7))
ASSUME TLCSet(7, 1)
TraceAccepted == PrintT(<<"REACHED", TLCGet(7) - 1>>) /\ TLCGet(7) - 1 = Len(Trace)
=============================================================================
