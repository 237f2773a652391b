------------------------------ MODULE MC_Sched ------------------------------
(* Bounded exploration of Sched: a fixed set of jobs, every sequence of at most B commands given from inside any job
   at any call. The properties are stated independently of how Sched schedules: by counting calls. *)
EXTENDS Sched
CONSTANT B
VARIABLES left, touched, tainted   \* commands left; jobs a command addressed; everything's schedule was altered (settime)
mvars == <<vars, left, touched, tainted>>

D(n, o, c, ph, d, cy, st, en, tag) == [n |-> n, o |-> o, c |-> c, ph |-> ph, d |-> d, cy |-> cy, st |-> st, en |-> en, tag |-> tag]
Decls == [oa |-> <<D("oa.l", "oa", "logging", 5, 1, 3, 1, 7, ""), D("oa.s", "oa", "scheduled", 5, 2, 2, 0, MAXT, "t"), D("oa.e", "oa", "end_of_frame", 5, 3, 1, 0, MAXT, "")>>,
          ob |-> <<D("ob.s", "ob", "scheduled", 3, 1, 4, 2, MAXT, "t"), D("ob.f", "ob", "freeze", 5, 2, 1, 0, MAXT, ""), D("ob.z", "ob", "shutdown", 5, 3, 1, 0, MAXT, "")>>,
          oc |-> <<D("oc.s", "oc", "environment", 5, 1, 3, 0, MAXT, ""), D("oc.t", "oc", "top_of_frame", 5, 2, 1, 0, MAXT, "")>>]
AllJobs == {"oa.l", "oa.s", "oa.e", "ob.s", "ob.f", "ob.z"}
Decl(n) == LET o == CHOOSE o \in DOMAIN Decls : \E i \in 1..Len(Decls[o]) : Decls[o][i].n = n
           IN CHOOSE r \in {Decls[o][i] : i \in 1..Len(Decls[o])} : r.n = n

MInit == /\ jobs = [n \in AllJobs |-> MkJob(Decl(n), IF Decl(n).o = "oa" THEN 1 ELSE 2, 0)]
         /\ objs = [o \in {"oa", "ob"} |-> [seq |-> IF o = "oa" THEN 1 ELSE 2, dis |-> FALSE, saved |-> <<>>]]
         /\ nobj = 2
         /\ tm = [t |-> 0, last |-> 0, nf |-> 4, fr |-> 4, term |-> 9]
         /\ fz \in {[t |-> 0, nf |-> 2, fr |-> 2, bound |-> b, async |-> FALSE, times |-> {}] : b \in BOOLEAN}
         /\ cmd = "No" /\ pc = "default_data" /\ cur = -1 /\ run = [j |-> "", b |-> 0, a |-> 0] /\ ret = 0
         /\ calls = [j \in AllJobs |-> 0] /\ left = B /\ touched = {} /\ tainted = FALSE

InJob == run.j # "" /\ pc # "end"
Keep == UNCHANGED <<tainted>>
Command ==
  /\ InJob /\ left > 0 /\ left' = left - 1
  /\ \/ \E a \in {"oa.s", "ob.s", "t", "oa.l"}, off \in BOOLEAN : OnOff(a, off, 0) /\ touched' = touched \cup Addressed(a) /\ Keep
     \/ \E o \in {"oa", "ob"} : (ObjOff(o, 0) \/ ObjOn(o, 0)) /\ touched' = touched \cup JobsOf(o) /\ Keep
     \/ \E a \in {"oa.s", "ob.s", "oa.l"}, c \in {2, 3} : SetCycle(a, c, 0) /\ touched' = touched \cup Addressed(a) /\ Keep
     \/ FreezeNow /\ UNCHANGED <<touched, tainted>>
     \/ \E t \in {3, 5} : FreezeAt(t) /\ UNCHANGED <<touched, tainted>>
     \/ SetCmd("Run") /\ UNCHANGED <<touched, tainted>>
     \/ SetCmd("Exit") /\ UNCHANGED <<touched, tainted>>
     \/ StopAt(5) /\ UNCHANGED <<touched, tainted>>
     \/ ~Present("oc") /\ AddObj("oc", Decls["oc"]) /\ touched' = touched \cup {"oc.s", "oc.t"} /\ Keep
     \/ \E o \in {"oa", "ob"} : DelObj(o) /\ touched' = touched \cup JobsOf(o) /\ Keep
\* every freeze is left again: the freeze job runs the simulation when no command is left
Thaw == InJob /\ pc = "freeze" /\ cmd # "Run" /\ SetCmd("Run") /\ UNCHANGED <<left, touched, tainted>>
Step == /\ \/ Silent \/ DefaultDone \/ InputDone \/ \E j \in DOMAIN jobs : Call(j)
        /\ UNCHANGED <<left, touched, tainted>>
MNext == Command \/ Thaw \/ Step
MSpec == MInit /\ [][MNext]_mvars

\* number of times S, S+C, ... below t and not above the stop time
Grid(d, t) == Cardinality({x \in 0..(t - 1) : x >= d.st /\ (x - d.st) % d.cy = 0 /\ x <= d.en})
\* a job that no command ever addressed has been called exactly once at each of its times, whatever else happened
Exact == pc = "top" => \A j \in AllJobs \ touched : (j \in DOMAIN jobs /\ jobs[j].q /\ jobs[j].qu = "sched") => calls[j] = Grid(Decl(j), tm.t)
\* a removed or disabled job is not called; frame jobs run once per frame
NoCallRemoved == [][\A j \in DOMAIN calls : (j \in DOMAIN calls' /\ calls'[j] > calls[j]) => jobs[j].q /\ ~jobs[j].dis]_mvars
Frames == (pc = "top" /\ "oa.e" \notin touched) => calls["oa.e"] = (tm.nf \div 4) - 1
ShutdownOnce == calls["ob.z"] <= 1 /\ (pc = "end" /\ "ob.z" \notin touched => calls["ob.z"] = 1)
Bounded == fz.t <= 4
=============================================================================
