----------------------------- MODULE MC_Threads -----------------------------
(* Exhaustive exploration of the multi-threaded executive: two child threads of every pair of types, jobs with
   dependencies in both directions, threads switched off and on and a stop command at every point. *)
EXTENDS Threads
CONSTANTS Budget, Term
VARIABLES b
mvars == <<vars, b>>

J(t, c, seq, cy, st) == [o |-> "o", c |-> c, ph |-> 60000, d |-> seq, cy |-> cy, st |-> st, en |-> MAXT, tag |-> "", th |-> t]
Kinds == {[ty |-> "sync", cyc |-> 0], [ty |-> "amf", cyc |-> 2], [ty |-> "amf", cyc |-> 3], [ty |-> "async", cyc |-> 0], [ty |-> "async", cyc |-> 2]}
Jobs0 == [m1 |-> MkJob(J(0, "environment", 1, 1, 0), 1), m2 |-> MkJob(J(0, "logging", 2, 2, 0), 1),
          a1 |-> MkJob(J(1, "scheduled", 3, 1, 0), 1), a2 |-> MkJob(J(1, "end_of_frame", 4, 1, 0), 1),
          b1 |-> MkJob(J(2, "scheduled", 5, 2, 1), 1)]
Deps == {{}, {<<"a1", "m1">>}, {<<"m2", "a1">>}, {<<"b1", "a1">>, <<"a1", "m1">>}}
MCInit ==
  \E k1 \in Kinds, k2 \in Kinds, w \in BOOLEAN, D \in Deps :
    /\ (k1.ty = "async" => \A d \in D : d[2] # "a1")
    /\ th = [k \in 1..2 |-> LET x == IF k = 1 THEN k1 ELSE k2 IN [NewThread EXCEPT !.ty = x.ty, !.cyc = x.cyc, !.wait = w]]
    /\ jobs = [j \in DOMAIN Jobs0 |-> [Jobs0[j] EXCEPT !.dep = {d[2] : d \in {x \in D : x[1] = j}}]]
    /\ tm = [t |-> 0, last |-> 0, nf |-> 2, fr |-> 2, term |-> Term]
    /\ pc = "initialization" /\ tq = 0 /\ cur = -1 /\ in = "" /\ cmd = "No"
    /\ calls = [j \in DOMAIN Jobs0 |-> 0] /\ b = 0
\* commands come from a running main thread job, and only change a thread that is not in a pass
Command == /\ b < Budget /\ in = "m2" /\ b' = b + 1
           /\ \/ \E k \in DOMAIN th : th[k].done /\ SetEnabled(k, ~th[k].en)
              \/ cmd = "No" /\ StopNow
Act == MainSilent \/ ChildSilent \/ (\E j \in DOMAIN jobs : MCall(j) \/ MRet(j)) \/ (\E k \in DOMAIN th, j \in DOMAIN jobs : CCall(k, j) \/ CRet(k, j))
\* nothing else may be left to do at a point where no step is possible: TLC checks for deadlock
Finished == pc = "end" /\ UNCHANGED mvars
MCNext == (Act /\ b' = b) \/ Command \/ Finished
MCSpec == MCInit /\ [][MCNext]_mvars
View == <<jobs, th, tm, pc, tq, cur, in, cmd, b>>
\* a synchronous thread's job has been called once for each of its times the main thread has passed
Exact == (b = 0 /\ pc \in {"top", "top_of_frame", "end_of_frame", "end"} /\ th[1].ty = "sync" /\ th[1].en) => calls["a1"] = tm.t + (IF pc = "end" THEN 1 ELSE 0)
=============================================================================
