------------------------------ MODULE Threads ------------------------------
(* The multi-threaded executive: the main thread's step, synchronous child threads that run in lock-step, threads that
   must finish at their cycle boundary (amf), asynchronous threads with and without a cycle, job dependencies between
   threads, enabling and disabling threads, shutdown.
   A job call has a begin and an end; everything between is concurrent with the other threads. The executive's own
   bookkeeping steps between calls are one action each. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

MAXT == 2000000000
BIG == 2100000000

VARIABLES
  jobs,   \* name -> [th, qu, key, cy, st, en, nx, dis, dep, cpl]
  th,     \* thread 1.. -> [ty, cyc, nxt, en, done, wait, t, ph, cur, in]
  tm,     \* [t, last, nf, fr, term]
  pc,     \* where the main thread is
  tq,     \* thread whose frame queue the main thread is walking (0: its own)
  cur,    \* key of the last visited job in the queue being walked by the main thread
  in,     \* job in progress on the main thread, "" if none
  cmd,    \* "No" | "Exit"
  calls

vars == <<jobs, th, tm, pc, tq, cur, in, cmd, calls>>

SchedClasses == {"automatic", "random", "environment", "sensor", "sensor_emitter", "sensor_reflector", "sensor_receiver",
   "scheduled", "effector", "effector_emitter", "effector_receiver", "automatic_last", "logging", "data_record"}
Rank(c) == CASE c = "automatic" -> 1 [] c = "random" -> 2 [] c = "environment" -> 3 [] c = "sensor" -> 4
             [] c = "sensor_emitter" -> 5 [] c = "sensor_reflector" -> 6 [] c = "sensor_receiver" -> 7
             [] c = "scheduled" -> 8 [] c = "effector" -> 9 [] c = "effector_emitter" -> 10
             [] c = "effector_receiver" -> 11 [] c = "automatic_last" -> 12 [] c = "logging" -> 13
             [] c = "data_record" -> 14 [] OTHER -> 0
Key(rank, ph, seq, d) == (rank * 65536 + ph) * 1000 + seq * 20 + d
ADV == Key(16, 0, 0, 0)
MkJob(a, seq) ==
  LET s == a.c \in SchedClasses
      dis == s /\ (a.en < a.st)
  IN [th |-> IF s \/ a.c \in {"top_of_frame", "end_of_frame"} THEN a.th ELSE 0,
      qu |-> IF s THEN "sched" ELSE a.c, key |-> Key(Rank(a.c), a.ph, seq, a.d), cy |-> a.cy, st |-> a.st, en |-> a.en,
      nx |-> IF ~s THEN 0 ELSE IF dis THEN MAXT ELSE a.st, dis |-> dis, dep |-> {}, cpl |-> TRUE]
NewThread == [ty |-> "sync", cyc |-> 0, nxt |-> 0, en |-> TRUE, done |-> TRUE, wait |-> FALSE, t |-> 0, ph |-> "idle", cur |-> -1, in |-> "", pk |-> ""]

Max2(a, b) == IF a < b THEN b ELSE a
Min2(a, b) == IF a < b THEN a ELSE b
SetMin(S, d) == IF S = {} THEN d ELSE CHOOSE x \in S : \A y \in S : x <= y
InQ(k, q) == {j \in DOMAIN jobs : jobs[j].th = k /\ jobs[j].qu = q}
Next1(S) == CHOOSE j \in S : \A i \in S : jobs[j].key <= jobs[i].key
Resched(r) == LET n == r.nx + r.cy IN IF n > r.en THEN MAXT ELSE n
\* jobs of thread k due at time t with a key in (from, to] have been visited
Visit(js, k, t, from, to) == [j \in DOMAIN js |->
   IF js[j].th = k /\ js[j].qu = "sched" /\ js[j].nx = t /\ js[j].key > from /\ js[j].key <= to
   THEN [js[j] EXCEPT !.nx = Resched(js[j])] ELSE js[j]]
\* a job that was left behind goes on at its next regular time: later than t (strict) or not earlier than t
Forward(r, t, strict) ==
  IF r.nx >= MAXT \/ r.cy < 1 \/ r.nx > t \/ (~strict /\ r.nx = t) THEN r.nx
  ELSE LET n == IF strict THEN r.nx + ((t - r.nx) \div r.cy + 1) * r.cy ELSE r.nx + ((t - r.nx + r.cy - 1) \div r.cy) * r.cy
       IN IF n > r.en THEN MAXT ELSE n

-----------------------------------------------------------------------------
(* main thread *)
WalkQ == CASE pc \in {"jobs", "jobs2"} -> "sched" [] OTHER -> pc
Walking == pc \in {"default_data", "initialization", "top_of_frame", "jobs", "jobs2", "end_of_frame", "shutdown"}
Limit == IF pc = "jobs" THEN ADV ELSE BIG
Ready == {j \in InQ(tq, WalkQ) : jobs[j].key > cur /\ jobs[j].key < Limit /\ ~jobs[j].dis /\ (WalkQ = "sched" => jobs[j].nx = tm.t)}
Free == in = ""
Quiet == Free /\ (Walking => Ready = {})
DepsDone(j) == \A d \in jobs[j].dep : jobs[d].cpl
\* at shutdown the main thread first waits for the threads it was told to wait for
ShutdownOpen == pc = "shutdown" => \A k \in DOMAIN th : (th[k].wait /\ th[k].ty # "sync") => th[k].done

MCall(j) ==
  /\ Free /\ Walking /\ j \in Ready /\ j = Next1(Ready) /\ ShutdownOpen
  /\ WalkQ = "sched" => DepsDone(j)
  /\ jobs' = IF WalkQ = "sched" THEN Visit(jobs, 0, tm.t, cur, jobs[j].key) ELSE jobs
  /\ cur' = jobs[j].key /\ in' = j
  /\ calls' = [calls EXCEPT ![j] = @ + 1]
  /\ UNCHANGED <<th, tm, pc, tq, cmd>>
MRet(j) ==
  /\ in = j /\ in' = ""
  /\ jobs' = IF jobs[j].qu = "sched" THEN [jobs EXCEPT ![j].cpl = TRUE] ELSE jobs
  /\ UNCHANGED <<th, tm, pc, tq, cur, cmd, calls>>

Goto(p) == pc' = p /\ cur' = -1 /\ tq' = 0
DefaultDone == pc = "default_data" /\ Quiet /\ Goto("input") /\ UNCHANGED <<jobs, th, tm, in, cmd, calls>>
InputDone == pc = "input" /\ Goto("initialization") /\ UNCHANGED <<jobs, th, tm, in, cmd, calls>>
InitDone == /\ pc = "initialization" /\ Quiet /\ Goto("top_of_frame") /\ tm' = [tm EXCEPT !.nf = tm.fr]
            /\ UNCHANGED <<jobs, th, in, cmd, calls>>
LoopTop == pc = "top" /\ Free /\ Goto(IF tm.t = tm.nf - tm.fr THEN "top_of_frame" ELSE "sync") /\ UNCHANGED <<jobs, th, tm, in, cmd, calls>>
\* frame jobs: the main thread's, then those of each synchronous thread, all called by the main thread
NextSync == {k \in DOMAIN th : k > tq /\ th[k].ty = "sync"}
FrameNext ==
  /\ pc \in {"top_of_frame", "end_of_frame"} /\ Quiet
  /\ IF NextSync # {} THEN tq' = SetMin(NextSync, 0) /\ cur' = -1 /\ UNCHANGED <<pc, tm>>
     ELSE IF pc = "top_of_frame" THEN Goto("sync") /\ UNCHANGED tm
     ELSE Goto("top") /\ tm' = [tm EXCEPT !.nf = @ + tm.fr]
  /\ UNCHANGED <<jobs, th, in, cmd, calls>>

\* wait for threads that must finish by now; start every thread that is due
CatchAsync(n, c, t) == IF n < t /\ c > 0 THEN n + ((t - n + c - 1) \div c) * c ELSE n
\* The main thread looks at the child threads one after the other, three times, and the threads go on meanwhile: it waits
\* for those that must finish now, and an asynchronous thread that has finished goes on at its next boundary (sync); the
\* jobs of this step become incomplete (flag); the threads that are due are started (start).
ReadyToRun(k) == IF k = 0 THEN TRUE
                 ELSE th[k].en /\ CASE th[k].ty = "sync" -> TRUE
                                    [] th[k].ty = "amf" -> th[k].nxt = tm.t
                                    [] OTHER -> th[k].done /\ (th[k].cyc = 0 \/ th[k].nxt = tm.t)
Past == IF tq < Cardinality(DOMAIN th) THEN tq' = tq + 1 /\ UNCHANGED <<pc, cur>>
        ELSE CASE pc = "sync" -> pc' = "flag" /\ tq' = 0 /\ UNCHANGED cur
               [] pc = "flag" -> (IF DOMAIN th = {} THEN Goto("jobs") ELSE pc' = "start" /\ tq' = 1 /\ UNCHANGED cur)
               [] OTHER -> Goto("jobs")
Sync ==
  /\ pc = "sync" /\ Free /\ Past
  /\ LET k == tq IN IF k = 0 THEN UNCHANGED th
     ELSE /\ (th[k].ty = "amf" /\ th[k].nxt = tm.t) => th[k].done
          /\ th' = IF th[k].ty = "async" /\ th[k].done THEN [th EXCEPT ![k].nxt = CatchAsync(th[k].nxt, th[k].cyc, tm.t)] ELSE th
  /\ UNCHANGED <<jobs, tm, in, cmd, calls>>
Flag ==
  /\ pc = "flag" /\ Free /\ Past
  /\ jobs' = IF ReadyToRun(tq) THEN [j \in DOMAIN jobs |-> IF jobs[j].qu = "sched" /\ jobs[j].th = tq /\ jobs[j].nx = tm.t /\ ~jobs[j].dis
                                                         THEN [jobs[j] EXCEPT !.cpl = FALSE] ELSE jobs[j]] ELSE jobs
  /\ UNCHANGED <<th, tm, in, cmd, calls>>
Start ==
  /\ pc = "start" /\ Free /\ Past
  /\ th' = IF ReadyToRun(tq) THEN [th EXCEPT ![tq].t = tm.t, ![tq].done = FALSE, ![tq].nxt = @ + th[tq].cyc, ![tq].ph = "start", ![tq].cur = -1] ELSE th
  /\ UNCHANGED <<jobs, tm, in, cmd, calls>>

\* time advances only when every enabled synchronous thread has finished the step
Advance ==
  /\ pc = "jobs" /\ Quiet
  /\ \A k \in DOMAIN th : (th[k].en /\ th[k].ty = "sync") => th[k].done
  /\ LET v == Visit(jobs, 0, tm.t, cur, ADV)
         counted(k) == IF k = 0 THEN TRUE ELSE th[k].en /\ th[k].ty = "sync"
         c == [j \in DOMAIN v |-> IF v[j].qu = "sched" /\ counted(v[j].th) THEN [v[j] EXCEPT !.nx = Forward(v[j], tm.t, TRUE)] ELSE v[j]]
         isamf(k) == th[k].en /\ th[k].ty = "amf" /\ th[k].cyc > 0
         nn(k) == IF isamf(k) /\ th[k].nxt <= tm.t THEN th[k].nxt + ((tm.t - th[k].nxt) \div th[k].cyc + 1) * th[k].cyc ELSE th[k].nxt
         due == {c[j].nx : j \in {i \in DOMAIN c : c[i].qu = "sched" /\ counted(c[i].th) /\ c[i].nx > tm.t}}
                \cup {nn(k) : k \in {x \in DOMAIN th : isamf(x)}} \cup {tm.nf}
         nt == Max2(Min2(SetMin(due, tm.nf), tm.term), tm.t)
     IN /\ jobs' = c
        /\ th' = [k \in DOMAIN th |-> [th[k] EXCEPT !.nxt = nn(k)]]
        /\ tm' = [tm EXCEPT !.last = tm.t, !.t = nt]
  /\ pc' = "jobs2" /\ cur' = ADV
  /\ UNCHANGED <<tq, in, cmd, calls>>
Post ==
  /\ pc = "jobs2" /\ Quiet
  /\ jobs' = Visit(jobs, 0, tm.t, cur, BIG)
  /\ IF cmd = "Exit" THEN Goto("shutdown") /\ UNCHANGED tm
     ELSE IF tm.term <= tm.last THEN Goto("shutdown") /\ UNCHANGED tm
     ELSE Goto(IF tm.t = tm.nf THEN "end_of_frame" ELSE "top") /\ UNCHANGED tm
  /\ UNCHANGED <<th, in, cmd, calls>>
ShutdownDone == pc = "shutdown" /\ Quiet /\ ShutdownOpen /\ Goto("end") /\ UNCHANGED <<jobs, th, tm, in, cmd, calls>>

MainSilent == InitDone \/ LoopTop \/ FrameNext \/ Sync \/ Flag \/ Start \/ Advance \/ Post \/ ShutdownDone

-----------------------------------------------------------------------------
(* child threads *)
Own(k, q) == {j \in InQ(k, q) : ~jobs[j].dis}
Cyclic(k) == th[k].ty = "amf" \/ (th[k].ty = "async" /\ th[k].cyc > 0)
CQ(k) == CASE th[k].ph = "tof" -> "top_of_frame" [] th[k].ph = "eof" -> "end_of_frame" [] OTHER -> "sched"
CReady(k) == {j \in Own(k, CQ(k)) : jobs[j].key > th[k].cur /\ ((th[k].ph = "jobs" /\ (Cyclic(k) \/ th[k].ty = "sync")) => jobs[j].nx = th[k].t)}
CWalk(k) == th[k].ph \in {"tof", "jobs", "eof"}
CQuiet(k) == th[k].in = "" /\ CReady(k) = {}
CKeep == UNCHANGED <<tm, pc, tq, cur, in, cmd>>

CStart(k) == \* the pass begins: jobs left behind go on at the first regular time in this pass
  /\ th[k].ph = "start"
  /\ th' = [th EXCEPT ![k].ph = IF Cyclic(k) THEN "tof" ELSE "jobs", ![k].cur = -1]
  /\ jobs' = IF Cyclic(k) THEN [j \in DOMAIN jobs |-> IF j \in Own(k, "sched") THEN [jobs[j] EXCEPT !.nx = Forward(jobs[j], th[k].t, FALSE)] ELSE jobs[j]] ELSE jobs
  /\ UNCHANGED calls /\ CKeep
\* a job on an asynchronous thread that depends on others is chosen when they have finished; they may have been started
\* again by the time it runs
Slow(k, j) == th[k].ty # "sync" /\ jobs[j].dep # {} /\ th[k].ph = "jobs"
CPick(k) ==
  /\ CWalk(k) /\ th[k].in = "" /\ th[k].pk = "" /\ CReady(k) # {}
  /\ LET j == Next1(CReady(k)) IN Slow(k, j) /\ DepsDone(j) /\ th' = [th EXCEPT ![k].pk = j]
  /\ UNCHANGED <<jobs, calls>> /\ CKeep
CCall(k, j) ==
  /\ CWalk(k) /\ th[k].in = "" /\ j \in CReady(k) /\ j = Next1(CReady(k))
  /\ th[k].ph = "jobs" => (IF Slow(k, j) THEN th[k].pk = j ELSE DepsDone(j))
  /\ jobs' = IF th[k].ph = "jobs" /\ (Cyclic(k) \/ th[k].ty = "sync") THEN Visit(jobs, k, th[k].t, th[k].cur, jobs[j].key) ELSE jobs
  /\ th' = [th EXCEPT ![k].in = j, ![k].cur = jobs[j].key, ![k].pk = ""]
  /\ calls' = [calls EXCEPT ![j] = @ + 1] /\ CKeep
CRet(k, j) ==
  /\ th[k].in = j
  /\ th' = [th EXCEPT ![k].in = ""]
  /\ jobs' = IF th[k].ph = "jobs" THEN [jobs EXCEPT ![j].cpl = TRUE] ELSE jobs
  /\ UNCHANGED calls /\ CKeep
CStep(k) == \* from one queue, or one time, of the pass to the next
  /\ CWalk(k) /\ CQuiet(k)
  /\ CASE th[k].ph = "tof" -> th' = [th EXCEPT ![k].ph = "jobs", ![k].cur = -1] /\ UNCHANGED jobs
       [] th[k].ph = "jobs" /\ Cyclic(k) ->
            LET v == Visit(jobs, k, th[k].t, th[k].cur, BIG)
                nt == Min2(SetMin({v[j].nx : j \in {i \in InQ(k, "sched") : v[i].nx > th[k].t}}, th[k].nxt), th[k].nxt)
            IN /\ jobs' = v
               /\ th' = [th EXCEPT ![k].t = nt, ![k].cur = -1, ![k].ph = IF nt < th[k].nxt THEN "jobs" ELSE "eof"]
       [] OTHER -> /\ th' = [th EXCEPT ![k].ph = "idle", ![k].done = TRUE]
                   /\ jobs' = IF th[k].ph = "jobs" /\ th[k].ty = "sync" THEN Visit(jobs, k, th[k].t, th[k].cur, BIG) ELSE jobs
  /\ UNCHANGED calls /\ CKeep
ChildSilent == \E k \in DOMAIN th : CStart(k) \/ CPick(k) \/ CStep(k)

-----------------------------------------------------------------------------
(* commands *)
Keep == UNCHANGED <<tm, pc, tq, cur, in, calls>>
SetType(k, ty) == th' = [th EXCEPT ![k].ty = ty] /\ UNCHANGED <<jobs, cmd>> /\ Keep
SetThCycle(k, c) == th' = [th EXCEPT ![k].cyc = c] /\ UNCHANGED <<jobs, cmd>> /\ Keep
SetWait(k, w) == th' = [th EXCEPT ![k].wait = w] /\ UNCHANGED <<jobs, cmd>> /\ Keep
SetEnabled(k, e) == th' = [th EXCEPT ![k].en = e] /\ UNCHANGED <<jobs, cmd>> /\ Keep
AddDep(j, d) == jobs' = [jobs EXCEPT ![j].dep = @ \cup {d}] /\ UNCHANGED <<th, cmd>> /\ Keep
OnOff(j, off) == jobs' = [jobs EXCEPT ![j].dis = off] /\ UNCHANGED <<th, cmd>> /\ Keep
StopNow == cmd' = "Exit" /\ UNCHANGED <<jobs, th>> /\ Keep
SeenDone(k) == th[k].done /\ UNCHANGED vars

-----------------------------------------------------------------------------
(* properties of the design *)
LockStep == \A k \in DOMAIN th : (th[k].ty = "sync" /\ ~th[k].done /\ th[k].en) => th[k].t = tm.t
AmfWithin == \A k \in DOMAIN th : (th[k].ty = "amf" /\ ~th[k].done /\ pc \in {"jobs", "jobs2"}) => (th[k].t <= th[k].nxt)
\* main has not passed the boundary of an unfinished must-finish pass
AmfBoundary == \A k \in DOMAIN th : (th[k].ty = "amf" /\ ~th[k].done /\ th[k].en /\ pc # "end" /\ th[k].cyc > 0) => (tm.t <= th[k].nxt \/ pc = "shutdown")
\* a job in progress in the current step: everything it depends on has finished the step
NotEarly == /\ (in # "" /\ jobs[in].qu = "sched") => DepsDone(in)
            /\ \A k \in DOMAIN th : (th[k].ty = "sync" /\ th[k].in # "" /\ th[k].ph = "jobs") => DepsDone(th[k].in)
PassOnce == \A k \in DOMAIN th : th[k].done = (th[k].ph = "idle")
MainMonotone == [][pc' # "end" /\ pc # "end" => tm'.t >= tm.t]_vars
=============================================================================
