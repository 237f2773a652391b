------------------------------- MODULE Sched -------------------------------
(* The single-thread executive: job queues, simulation time, software frames, freeze, run-time control,
   dynamic objects, instrumentation, time-tic changes, shutdown.

   One action per step of the executive that another part of the system can observe: finding and calling the
   next job of the current queue, a command given from inside a job, and the silent moves between queues.
   Jobs are identified by name; a job's position in every queue is its key <<class, phase, object, declaration>>,
   coded as one integer; "cur" is the key of the last visited job of the queue being walked. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

MAXT == 2000000000            \* "never"

VARIABLES
  jobs,    \* job name -> record, see MkJob
  objs,    \* object name -> [seq, dis, saved]   (seq 0: not part of the simulation)
  nobj,    \* objects added so far
  tm,      \* [t, last, nf, fr, term]  time, time of the last pass, next frame boundary, frame length, stop time
  fz,      \* [t, nf, fr, bound, async, times]  freeze time, next freeze frame, its length, options, pending freeze times
  cmd,     \* "No" | "Freeze" | "Run" | "Exit"
  pc,      \* which queue is being walked
  cur,     \* key of the last visited job in it
  run,     \* [j, b, a]: last job called, before-/after-instruments consumed so far
  ret,     \* exit status so far
  calls    \* job -> number of calls (history)

vars == <<jobs, objs, nobj, tm, fz, cmd, pc, cur, run, ret, calls>>

Sched == <<"automatic", "random", "environment", "sensor", "sensor_emitter", "sensor_reflector", "sensor_receiver",
           "scheduled", "effector", "effector_emitter", "effector_receiver", "automatic_last", "logging", "data_record",
           "system_checkpoint", "system_advance_sim_time", "system_moding", "integ_loop">>
Rank(c) == CASE c = "automatic" -> 1 [] c = "random" -> 2 [] c = "environment" -> 3 [] c = "sensor" -> 4
             [] c = "sensor_emitter" -> 5 [] c = "sensor_reflector" -> 6 [] c = "sensor_receiver" -> 7
             [] c = "scheduled" -> 8 [] c = "effector" -> 9 [] c = "effector_emitter" -> 10
             [] c = "effector_receiver" -> 11 [] c = "automatic_last" -> 12 [] c = "logging" -> 13
             [] c = "data_record" -> 14 [] c = "system_checkpoint" -> 15 [] c = "system_advance_sim_time" -> 16
             [] c = "system_moding" -> 17 [] c = "integ_loop" -> 18 [] c = "freeze_automatic" -> 1 [] OTHER -> 0
IsSched(c) == \E i \in 1..Len(Sched) : Sched[i] = c
Queue(c) == IF IsSched(c) THEN "sched" ELSE IF c = "freeze_automatic" THEN "freeze_scheduled" ELSE c
Key(rank, ph, seq, d) == (rank * 65536 + ph) * 1000 + seq * 20 + d
ADV == Key(16, 0, 0, 0)          \* time is advanced after every class up to data_record, before system_moding
SysKey(ph) == Key(0, ph, 0, 19)  \* the executive's own job of that phase in a non-scheduled queue (its object comes first)

\* a: [n, o, c, ph, d, cy, st, en, s]  (name, object, class, phase, declaration index, cycle, start, stop tics)
MkJob(a, seq, now) ==
  LET dis == IsSched(a.c) /\ (a.en < a.st \/ a.st >= MAXT)
  IN [o |-> a.o, c |-> a.c, qu |-> Queue(a.c), key |-> Key(Rank(a.c), a.ph, seq, a.d), cy |-> a.cy, st |-> a.st, en |-> a.en,
      nx |-> IF ~IsSched(a.c) THEN 0 ELSE IF dis THEN MAXT ELSE now + a.st + (IF a.c = "integ_loop" THEN a.cy ELSE 0),
      dis |-> dis, q |-> TRUE, sys |-> a.c \in {"automatic", "automatic_last", "freeze_automatic"},
      tag |-> a.tag, ph |-> a.ph, ib |-> <<>>, ia |-> <<>>]

Mode == CASE pc \in {"default_data", "input", "initialization"} -> "init"
          [] pc \in {"freeze_init", "freeze_scheduled", "freeze"} -> "freeze"
          [] pc \in {"shutdown", "end"} -> "exit"
          [] OTHER -> "run"

InQ(qn) == {j \in DOMAIN jobs : jobs[j].q /\ jobs[j].qu = qn}
QOf == CASE pc \in {"sched", "sched2"} -> "sched" [] OTHER -> pc
Walking == pc \in {"default_data", "initialization", "top_of_frame", "end_of_frame", "shutdown", "freeze_init", "freeze",
                   "unfreeze", "sched", "sched2", "freeze_scheduled"}
Timed == pc \in {"sched", "sched2", "freeze_scheduled"}
Clk == IF pc = "freeze_scheduled" THEN fz.t ELSE tm.t
Limit == IF pc = "sched" THEN ADV ELSE MAXT + 100000000
\* jobs of the walked queue still ahead of the cursor and ready
Ahead == {j \in InQ(QOf) : jobs[j].key > cur /\ jobs[j].key < Limit /\ (Timed => jobs[j].nx = Clk)}
Ready == {j \in Ahead : ~jobs[j].dis}
MinKey(S) == CHOOSE j \in S : \A k \in S : jobs[j].key <= jobs[k].key
\* where the executive's own job that promotes a freeze command sits in the queue being walked
PromoKey == CASE pc = "end_of_frame" -> SysKey(60000) [] pc = "initialization" -> SysKey(65535) [] OTHER -> -1
PromoDue == IF PromoKey <= cur THEN FALSE ELSE \A j \in Ready : jobs[j].key > PromoKey
HasNext == Walking /\ ~PromoDue /\ Ready # {}
NextJob == MinKey(Ready)

Resched(j, now) == \* the call time after a visit at time now
  LET n == jobs[j].nx + jobs[j].cy IN IF n > jobs[j].en THEN MAXT ELSE n
\* every due job up to and including key k has been visited: it is rescheduled, called or not
Visit(k) == [j \in DOMAIN jobs |->
   IF Timed /\ jobs[j].q /\ jobs[j].qu = QOf /\ ~jobs[j].sys /\ jobs[j].key > cur /\ jobs[j].key <= k /\ jobs[j].nx = Clk
   THEN [jobs[j] EXCEPT !.nx = Resched(j, Clk)] ELSE jobs[j]]

AfterPending == run.j # "" /\ run.j \in DOMAIN jobs /\ run.a < Len(jobs[run.j].ia)
CanWalk == run.b = 0 /\ ~AfterPending

-----------------------------------------------------------------------------
(* calling jobs *)
InstrBefore(i, target) ==
  /\ ~AfterPending /\ HasNext /\ NextJob = target
  /\ run.b < Len(jobs[target].ib) /\ jobs[target].ib[run.b + 1] = i
  /\ run' = [run EXCEPT !.b = @ + 1]
  /\ UNCHANGED <<jobs, objs, nobj, tm, fz, cmd, pc, cur, ret, calls>>

Call(j) ==
  /\ ~AfterPending /\ HasNext /\ NextJob = j
  /\ run.b = Len(jobs[j].ib)
  /\ jobs' = Visit(jobs[j].key)
  /\ cur' = jobs[j].key
  /\ run' = [j |-> j, b |-> 0, a |-> 0]
  /\ calls' = [calls EXCEPT ![j] = @ + 1]
  /\ UNCHANGED <<objs, nobj, tm, fz, cmd, pc, ret>>

InstrAfter(i, target) ==
  /\ AfterPending /\ run.j = target /\ run.b = 0 /\ jobs[target].ia[run.a + 1] = i
  /\ run' = [run EXCEPT !.a = @ + 1]
  /\ UNCHANGED <<jobs, objs, nobj, tm, fz, cmd, pc, cur, ret, calls>>

-----------------------------------------------------------------------------
(* silent moves of the executive. Every one requires that nothing is left to call in the current queue. *)
Quiet == CanWalk /\ ~HasNext
Goto(p) == pc' = p /\ cur' = -1 /\ run' = [run EXCEPT !.j = "", !.a = 0]
Same(S) == UNCHANGED S

Promote == \* the executive's own job inside initialization / end_of_frame: pending freeze commands take effect
  /\ CanWalk /\ Walking /\ PromoDue
  /\ LET due == IF pc = "end_of_frame" THEN {f \in fz.times : f <= tm.t} ELSE {}
     IN /\ cmd' = IF fz.async \/ due # {} THEN "Freeze" ELSE cmd
        /\ fz' = [fz EXCEPT !.async = FALSE, !.times = @ \ due]
  /\ cur' = PromoKey
  /\ jobs' = IF pc = "initialization" /\ FALSE THEN jobs ELSE jobs
  /\ UNCHANGED <<objs, nobj, tm, pc, run, ret, calls>>

DefaultDone == pc = "default_data" /\ Quiet /\ Goto("input") /\ UNCHANGED <<jobs, objs, nobj, tm, fz, cmd, ret, calls>>
\* the input file has been read ("input" is an observed event)
InputDone == pc = "input" /\ CanWalk /\ Goto("initialization") /\ UNCHANGED <<jobs, objs, nobj, tm, fz, cmd, ret, calls>>
InitDone == /\ pc = "initialization" /\ Quiet /\ ~PromoDue /\ Goto("top")
            /\ tm' = [tm EXCEPT !.nf = tm.t + tm.fr]
            /\ jobs' = [j \in DOMAIN jobs |-> IF jobs[j].cy < 1 THEN [jobs[j] EXCEPT !.dis = TRUE, !.cy = MAXT, !.nx = MAXT] ELSE jobs[j]]
            /\ UNCHANGED <<objs, nobj, fz, cmd, ret, calls>>

EnterFreeze == /\ pc = "top" /\ CanWalk /\ cmd = "Freeze" /\ cmd' = "No" /\ Goto("freeze_init")
               /\ UNCHANGED <<jobs, objs, nobj, tm, fz, ret, calls>>
LoopTop == /\ pc = "top" /\ CanWalk /\ cmd # "Freeze"
           /\ Goto(IF tm.t = tm.nf - tm.fr THEN "top_of_frame" ELSE "sched")
           /\ UNCHANGED <<jobs, objs, nobj, tm, fz, cmd, ret, calls>>
TofDone == pc = "top_of_frame" /\ Quiet /\ Goto("sched") /\ UNCHANGED <<jobs, objs, nobj, tm, fz, cmd, ret, calls>>

\* time goes to the next time anything is due: a job (called or disabled), a frame boundary, a pending freeze, the stop time
Max2(a, b) == IF a < b THEN b ELSE a
Min2(a, b) == IF a < b THEN a ELSE b
SetMin(S, d) == IF S = {} THEN d ELSE CHOOSE x \in S : \A y \in S : x <= y
\* a job whose due time lies behind (it was added or changed after its place in the queue had been passed) goes on at
\* its next regular time
CatchUp(r, now) == IF r.nx > now \/ r.sys \/ r.cy < 1 THEN r.nx
                   ELSE LET n == r.nx + ((now - r.nx) \div r.cy + 1) * r.cy IN IF n > r.en THEN MAXT ELSE n
Advance ==
  /\ pc = "sched" /\ Quiet
  /\ LET v == Visit(ADV)
         c == [j \in DOMAIN jobs |-> IF v[j].q /\ v[j].qu = "sched" THEN [v[j] EXCEPT !.nx = CatchUp(v[j], tm.t)] ELSE v[j]]
         due == {c[j].nx : j \in {k \in DOMAIN c : c[k].q /\ c[k].qu = "sched" /\ c[k].nx > tm.t}}
                \cup {f \in fz.times : f > tm.t} \cup {tm.nf}
         nt == Max2(Min2(SetMin(due, tm.nf), tm.term), tm.t)
     IN /\ jobs' = c
        /\ tm' = [tm EXCEPT !.last = tm.t, !.t = nt]
        /\ LET fd == IF fz.bound THEN {} ELSE {f \in fz.times : f <= nt}
           IN /\ fz' = [fz EXCEPT !.times = @ \ fd]
              /\ cmd' = IF fd # {} THEN "Freeze" ELSE cmd
  /\ pc' = "sched2" /\ cur' = ADV /\ run' = [run EXCEPT !.j = "", !.a = 0]
  /\ UNCHANGED <<objs, nobj, ret, calls>>

\* after the queue: exit command, redundant run command, stop time, frame boundary
Post ==
  /\ pc = "sched2" /\ Quiet
  /\ jobs' = Visit(MAXT + 100000000)
  /\ IF cmd = "Exit" THEN Goto("shutdown") /\ UNCHANGED <<tm, cmd>>
     ELSE /\ cmd' = IF cmd = "Run" THEN "No" ELSE cmd
          /\ IF tm.term <= tm.last
             THEN Goto("shutdown") /\ UNCHANGED tm
             ELSE Goto(IF tm.t = tm.nf THEN "end_of_frame" ELSE "top") /\ UNCHANGED tm
  /\ UNCHANGED <<objs, nobj, fz, ret, calls>>
EofDone == /\ pc = "end_of_frame" /\ Quiet /\ ~PromoDue /\ Goto("top") /\ tm' = [tm EXCEPT !.nf = @ + tm.fr]
           /\ UNCHANGED <<jobs, objs, nobj, fz, cmd, ret, calls>>

FreezeInitDone == \* freeze time starts at 0 in every freeze
  /\ pc = "freeze_init" /\ Quiet /\ Goto("freeze_scheduled")
  /\ fz' = [fz EXCEPT !.t = 0, !.nf = fz.fr]
  /\ jobs' = [j \in DOMAIN jobs |-> IF jobs[j].qu = "freeze_scheduled" /\ ~jobs[j].dis THEN [jobs[j] EXCEPT !.nx = 0] ELSE jobs[j]]
  /\ UNCHANGED <<objs, nobj, tm, cmd, ret, calls>>
FreezeStep ==
  /\ pc = "freeze_scheduled" /\ Quiet
  /\ LET v == Visit(MAXT + 100000000)
         due == {v[j].nx : j \in {k \in InQ("freeze_scheduled") : v[k].nx > fz.t}} \cup {fz.nf}
         nt == Min2(SetMin(due, fz.nf), fz.nf)
     IN /\ jobs' = v
        /\ IF nt >= fz.nf THEN fz' = [fz EXCEPT !.t = fz.nf, !.nf = @ + fz.fr] /\ Goto("freeze")
           ELSE fz' = [fz EXCEPT !.t = nt] /\ Goto("freeze_scheduled")
  /\ UNCHANGED <<objs, nobj, tm, cmd, ret, calls>>
FreezeDone ==
  /\ pc = "freeze" /\ Quiet
  /\ CASE cmd = "Run"  -> Goto("unfreeze") /\ cmd' = "No"
       [] cmd = "Exit" -> Goto("shutdown") /\ cmd' = cmd
       [] OTHER        -> Goto("freeze_scheduled") /\ cmd' = "No"
  /\ UNCHANGED <<jobs, objs, nobj, tm, fz, ret, calls>>
UnfreezeDone == /\ pc = "unfreeze" /\ Quiet
                /\ Goto(IF tm.t = tm.nf - tm.fr THEN "top_of_frame" ELSE "sched")
                /\ UNCHANGED <<jobs, objs, nobj, tm, fz, cmd, ret, calls>>
ShutdownDone == /\ pc = "shutdown" /\ Quiet /\ Goto("end") /\ UNCHANGED <<jobs, objs, nobj, tm, fz, cmd, ret, calls>>

Silent == Promote \/ InitDone \/ EnterFreeze \/ LoopTop \/ TofDone \/ Advance \/ Post \/ EofDone
          \/ FreezeInitDone \/ FreezeStep \/ FreezeDone \/ UnfreezeDone \/ ShutdownDone

-----------------------------------------------------------------------------
(* commands given from inside a job (or the input file): effect on the state; each returns immediately *)
Addressed(a) == IF a \in DOMAIN jobs /\ jobs[a].q THEN {a} ELSE {j \in DOMAIN jobs : jobs[j].q /\ jobs[j].tag # "" /\ jobs[j].tag = a}
Kept == UNCHANGED <<pc, cur, run, calls>>

OnOff(a, off, r) ==
  /\ r = IF Addressed(a) = {} THEN -1 ELSE 0
  /\ jobs' = [j \in DOMAIN jobs |-> IF j \in Addressed(a) THEN [jobs[j] EXCEPT !.dis = off] ELSE jobs[j]]
  /\ UNCHANGED <<objs, nobj, tm, fz, cmd, ret>> /\ Kept

Present(o) == o \in DOMAIN objs /\ objs[o].seq > 0
JobsOf(o) == {j \in DOMAIN jobs : jobs[j].q /\ jobs[j].o = o}
ObjOff(o, r) ==
  /\ r = IF Present(o) THEN 0 ELSE -1
  /\ IF ~Present(o) THEN UNCHANGED <<jobs, objs>>
     ELSE /\ objs' = [objs EXCEPT ![o].dis = TRUE, ![o].saved = IF objs[o].dis THEN @ ELSE [j \in JobsOf(o) |-> jobs[j].dis]]
          /\ jobs' = [j \in DOMAIN jobs |-> IF j \in JobsOf(o) THEN [jobs[j] EXCEPT !.dis = TRUE] ELSE jobs[j]]
  /\ UNCHANGED <<nobj, tm, fz, cmd, ret>> /\ Kept
ObjOn(o, r) ==
  /\ r = IF Present(o) THEN 0 ELSE -1
  /\ IF ~Present(o) THEN UNCHANGED <<jobs, objs>>
     ELSE /\ jobs' = [j \in DOMAIN jobs |-> IF j \in JobsOf(o)
                        THEN [jobs[j] EXCEPT !.dis = IF j \in DOMAIN objs[o].saved THEN objs[o].saved[j] ELSE FALSE] ELSE jobs[j]]
          /\ objs' = [objs EXCEPT ![o].dis = FALSE, ![o].saved = <<>>]
  /\ UNCHANGED <<nobj, tm, fz, cmd, ret>> /\ Kept
JobsOnOff(o, off, r) ==
  /\ r = IF Present(o) THEN 0 ELSE -1
  /\ jobs' = [j \in DOMAIN jobs |-> IF j \in JobsOf(o) THEN [jobs[j] EXCEPT !.dis = off] ELSE jobs[j]]
  /\ UNCHANGED <<objs, nobj, tm, fz, cmd, ret>> /\ Kept
GetObj(o, r) == /\ r = IF ~Present(o) THEN -1 ELSE IF objs[o].dis THEN 0 ELSE 1
                /\ UNCHANGED <<jobs, objs, nobj, tm, fz, cmd, ret>> /\ Kept

NewNext(r, c, now) == LET n == IF r.nx > now THEN now - (now % c) + c ELSE now IN IF n > r.en THEN MAXT ELSE n
SetCycle(a, c, r) ==
  /\ r = IF c < 1 THEN -1 ELSE IF Addressed(a) = {} THEN -2 ELSE 0
  /\ jobs' = IF c < 1 THEN jobs ELSE [j \in DOMAIN jobs |-> IF j \in Addressed(a)
                 THEN [jobs[j] EXCEPT !.cy = c, !.nx = NewNext(jobs[j], c, tm.t)] ELSE jobs[j]]
  /\ UNCHANGED <<objs, nobj, tm, fz, cmd, ret>> /\ Kept

\* a job that schedules itself sets its next call time v from now, on the clock its queue runs on
SelfNext(j, v) == /\ jobs' = [jobs EXCEPT ![j].nx = v] /\ UNCHANGED <<objs, nobj, tm, fz, cmd, ret>> /\ Kept

FreezeNow == fz' = [fz EXCEPT !.async = TRUE] /\ UNCHANGED <<jobs, objs, nobj, tm, cmd, ret>> /\ Kept
FreezeAt(t) == fz' = [fz EXCEPT !.times = IF t > tm.t THEN @ \cup {t} ELSE @] /\ UNCHANGED <<jobs, objs, nobj, tm, cmd, ret>> /\ Kept
SetCmd(c) == cmd' = c /\ UNCHANGED <<jobs, objs, nobj, tm, fz, ret>> /\ Kept
StopAt(t) == tm' = [tm EXCEPT !.term = t] /\ UNCHANGED <<jobs, objs, nobj, fz, cmd, ret>> /\ Kept

\* the input file moves the simulation's start to another time: all starts are relative to it
SetTime(t) == /\ tm' = [tm EXCEPT !.t = t]
              /\ jobs' = [j \in DOMAIN jobs |-> IF ~jobs[j].dis /\ ~jobs[j].sys /\ jobs[j].st < MAXT
                            THEN [jobs[j] EXCEPT !.nx = @ - tm.t + t] ELSE jobs[j]]
              /\ UNCHANGED <<objs, nobj, fz, cmd, ret>> /\ Kept
\* another number of tics per second: nothing changes, all times are measured in seconds here
SetTic == UNCHANGED <<jobs, objs, nobj, tm, fz, cmd, ret>> /\ Kept
\* another frame length: from the next frame boundary on (before the run: from the first frame on)
SetFrame(f) == tm' = [tm EXCEPT !.fr = f] /\ UNCHANGED <<jobs, objs, nobj, fz, cmd, ret>> /\ Kept

\* decls: sequence of declarations of the object's jobs
AddObj(o, decls) ==
  /\ nobj' = nobj + 1
  /\ objs' = (o :> [seq |-> nobj + 1, dis |-> FALSE, saved |-> <<>>]) @@ objs
  /\ LET new == [n \in {decls[i].n : i \in 1..Len(decls)} |->
                   LET i == CHOOSE i \in 1..Len(decls) : decls[i].n = n IN MkJob(decls[i], nobj + 1, tm.t)]
     IN /\ jobs' = new @@ jobs
        /\ calls' = [n \in (DOMAIN new) \cup (DOMAIN calls) |-> IF n \in DOMAIN new THEN 0 ELSE calls[n]]
  /\ UNCHANGED <<tm, fz, cmd, ret, pc, cur, run>>
DelObj(o) ==
  /\ Present(o)
  /\ objs' = [objs EXCEPT ![o].seq = 0]
  /\ jobs' = [j \in DOMAIN jobs |-> IF jobs[j].o = o THEN [jobs[j] EXCEPT !.q = FALSE] ELSE jobs[j]]
  /\ UNCHANGED <<nobj, tm, fz, cmd, ret>> /\ Kept

\* a job returned nonzero / terminated the simulation: straight to shutdown; shutdown jobs only after initialization
Fail(r) ==
  /\ CASE pc \in {"default_data", "input", "initialization"} -> pc' = "end"
       [] pc = "shutdown" -> pc' = "end"
       [] OTHER -> pc' = "shutdown"
  /\ ret' = r /\ cur' = -1 /\ run' = [j |-> "", b |-> 0, a |-> 0]
  /\ UNCHANGED <<jobs, objs, nobj, tm, fz, cmd, calls>>
\* a nonzero return value counts in these queues only
RetCounts == pc \in {"default_data", "initialization", "top_of_frame", "end_of_frame", "sched", "sched2", "freeze_scheduled", "freeze"}

\* instruments: i is an instrumentation job; insertion by phase, after equal phases
Ins(sq, i) == LET p == jobs[i].ph
                  k == CHOOSE k \in 0..Len(sq) : /\ \A x \in 1..k : jobs[sq[x]].ph <= p
                                                 /\ (k < Len(sq) => jobs[sq[k + 1]].ph > p)
              IN SubSeq(sq, 1, k) \o <<i>> \o SubSeq(sq, k + 1, Len(sq))
Instrumentable(j) == jobs[j].q /\ jobs[j].c # "instrumentation"
AddBefore(i) == /\ jobs' = [j \in DOMAIN jobs |-> IF i \in DOMAIN jobs /\ Instrumentable(j) THEN [jobs[j] EXCEPT !.ib = Ins(@, i)] ELSE jobs[j]]
                /\ UNCHANGED <<objs, nobj, tm, fz, cmd, ret>> /\ Kept
AddAfter(i)  == /\ jobs' = [j \in DOMAIN jobs |-> IF i \in DOMAIN jobs /\ Instrumentable(j) THEN [jobs[j] EXCEPT !.ia = Ins(@, i)] ELSE jobs[j]]
                /\ UNCHANGED <<objs, nobj, tm, fz, cmd, ret>> /\ Kept
AddBeforeOne(i, k) == /\ jobs' = [jobs EXCEPT ![k].ib = Ins(@, i)] /\ UNCHANGED <<objs, nobj, tm, fz, cmd, ret>> /\ Kept
AddAfterOne(i, k)  == /\ jobs' = [jobs EXCEPT ![k].ia = Ins(@, i)] /\ UNCHANGED <<objs, nobj, tm, fz, cmd, ret>> /\ Kept
Without(sq, i) == SelectSeq(sq, LAMBDA x : x # i)
DelInst(i)   == /\ jobs' = [j \in DOMAIN jobs |-> IF jobs[j].q THEN [jobs[j] EXCEPT !.ia = Without(@, i), !.ib = Without(@, i)] ELSE jobs[j]]
                /\ UNCHANGED <<objs, nobj, tm, fz, cmd, ret>> /\ Kept

-----------------------------------------------------------------------------
(* properties of the design *)
TypeOK == /\ cmd \in {"No", "Freeze", "Run", "Exit"}
          /\ tm.t >= 0 /\ tm.last <= tm.t
\* no enabled job is left behind: whenever a pass begins, every job of the queue is due now or later
NoneLeftBehind == pc = "top" => \A j \in InQ("sched") : (jobs[j].sys \/ jobs[j].nx >= tm.t)
\* a job whose schedule was never changed sits on its grid
OnGrid == \A j \in InQ("sched") : (~jobs[j].sys /\ jobs[j].nx < MAXT /\ jobs[j].cy > 0 /\ jobs[j].c # "integ_loop" /\ objs[jobs[j].o].seq = objs[jobs[j].o].seq)
              => jobs[j].nx <= jobs[j].en
\* time never passes a frame boundary, and stops while frozen
WithinFrame == pc \in {"top", "sched", "sched2", "end_of_frame"} => (tm.t <= tm.nf \/ tm.term < tm.t)
TimeMonotone == [][pc # "end" /\ pc' # "end" => tm'.t >= tm.t]_vars
FrozenTime == [][Mode = "freeze" => tm'.t = tm.t]_vars
=============================================================================
