--------------------------- MODULE Trace_Threads ---------------------------
(* Binds Threads to executions recorded from SIM_verif with jobs on child threads. *)
EXTENDS Threads, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, idle
tvars == <<vars, l, idle>>

RECURSIVE Build(_, _, _)
Build(s, i, acc) ==
  IF i > Len(s.order) THEN acc
  ELSE LET dec == s.decls[s.order[i]]
           new == [n \in {dec[k].n : k \in 1..Len(dec)} |-> LET k == CHOOSE k \in 1..Len(dec) : dec[k].n = n IN MkJob(dec[k], i)]
       IN Build(s, i + 1, new @@ acc)
Load(s) ==
  /\ jobs' = Build(s, 1, <<>>)
  /\ th' = [k \in 1..s.nth |-> NewThread]
  /\ tm' = [t |-> 0, last |-> 0, nf |-> s.frame, fr |-> s.frame, term |-> s.term]
  /\ pc' = "default_data" /\ tq' = 0 /\ cur' = -1 /\ in' = "" /\ cmd' = "No"
  /\ calls' = [j \in DOMAIN jobs' |-> 0]
TraceInit == /\ l = 1 /\ idle = 0 /\ jobs = <<>> /\ th = <<>> /\ tm = [t |-> 0, last |-> 0, nf |-> 0, fr |-> 0, term |-> 0]
             /\ pc = "end" /\ tq = 0 /\ cur = -1 /\ in = "" /\ cmd = "No" /\ calls = <<>>
Ev == Trace[l]
Step == l' = l + 1 /\ idle' = 0
TScn == Ev.e = "scn" /\ pc = "end" /\ Load(Ev)
TCall == /\ Ev.e = "call" /\ Ev.j \in DOMAIN jobs
         /\ IF Ev.th = 0 THEN Ev.t = tm.t /\ MCall(Ev.j)
            ELSE Ev.th \in DOMAIN th /\ Ev.t = th[Ev.th].t /\ CCall(Ev.th, Ev.j)
         /\ Ev.n = calls'[Ev.j]
TRet == Ev.e = "ret" /\ Ev.j \in DOMAIN jobs /\ (IF Ev.th = 0 THEN MRet(Ev.j) ELSE Ev.th \in DOMAIN th /\ CRet(Ev.th, Ev.j))
TInput0 == Ev.e = "input0" /\ DefaultDone
TInput == Ev.e = "input" /\ InputDone
TEnd == Ev.e = "end" /\ pc = "end" /\ Ev.ret = 0 /\ UNCHANGED vars
Ty(n) == CASE n = 0 -> "sync" [] n = 1 -> "async" [] n = 2 -> "amf"
TAct == /\ Ev.e = "act"
        /\ CASE Ev.c = "thtype" -> SetType(Ev.k, Ty(Ev.v))
             [] Ev.c \in {"amf", "async"} -> SetThCycle(Ev.k, Ev.v)
             [] Ev.c = "wait" -> SetWait(Ev.k, Ev.v = 1)
             [] Ev.c = "then" -> SetEnabled(Ev.k, Ev.v = 1)
             [] Ev.c = "dep" -> Ev.r = 0 /\ AddDep(Ev.a, Ev.b)
             [] Ev.c = "off" -> OnOff(Ev.a, TRUE)
             [] Ev.c = "on" -> OnOff(Ev.a, FALSE)
             [] Ev.c = "stopnow" -> StopNow
             [] Ev.c = "waitdone" -> Ev.r = 0 /\ SeenDone(Ev.k)
             [] Ev.c \in {"nap", "gate", "open"} -> Ev.r = 0 /\ UNCHANGED vars
             [] OTHER -> FALSE
TraceNext == /\ l <= Len(Trace)
             /\ \/ Step /\ (TScn \/ TCall \/ TRet \/ TInput0 \/ TInput \/ TEnd \/ TAct)
                \/ Ev.e \notin {"scn", "input0", "input"} /\ idle < 400 /\ (MainSilent \/ ChildSilent) /\ idle' = idle + 1 /\ l' = l
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Progress == TLCSet(7, IF TLCGet(7) < l THEN l ELSE TLCGet(7))
ASSUME TLCSet(7, 1)
TraceAccepted == PrintT(<<"REACHED", TLCGet(7) - 1>>) /\ TLCGet(7) - 1 = Len(Trace)
View == <<vars, l>>
=============================================================================
