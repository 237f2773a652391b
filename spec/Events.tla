-------------------------------- MODULE Events --------------------------------
(* Events of the input processor (EventManager, EventProcessor, IPPythonEvent): conditions, actions, holds, enables, manual mode,
   cyclic events and events tied to jobs, and the commands on them.  All state is one record S:
     ev    name |-> event record (below)
     pend  events that wait for the top of the next frame (in the order added)
     inst  events tied to jobs: sequence of [e, j, w], w = "before" | "after"
     known events that can be named in the commands by name
     mdis  malfunction job k |-> disabled
     b     model variable k |-> truth
     stk   evaluations in progress, innermost last: [e, ph, i, acc, seen, src, open]
     ctx   what runs: [j, ph, todo]; ph = "none" | "due" (the event job) | "before" | "body" | "after" (around a job)
     cur   the cyclic event the event job processes
     t     time
   An evaluation goes on by itself (Advance) up to the next thing that can be seen from outside: a condition or action of the user that
   runs, see Need. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
Drop(s, x) == SelectSeq(s, LAMBDA y : y # x)
Some(s, x) == \E k \in 1..Len(s) : s[k] = x
NewEvent == [user |-> TRUE, active |-> FALSE, man |-> FALSE, mf |-> FALSE, mh |-> FALSE, all |-> FALSE, cyc |-> 64, nxt |-> 0, sch |-> FALSE, added |-> FALSE,
             conds |-> <<>>, acts |-> <<>>, nf |-> 0, tf |-> -1, nr |-> 0, tr |-> -1, ran |-> FALSE]
NewCond(kd, k) == [kind |-> kd, k |-> k, on |-> TRUE, hold |-> FALSE, fired |-> FALSE, n |-> 0, t |-> -1]
NewAct(kd, k) == [kind |-> kd, k |-> k, on |-> TRUE, n |-> 0, t |-> -1]
Frame(e, src) == [e |-> e, ph |-> "cond", i |-> 1, acc |-> FALSE, seen |-> FALSE, any |-> FALSE, src |-> src, open |-> FALSE]
Empty == [ev |-> <<>>, pend |-> <<>>, inst |-> <<>>, known |-> {}, mdis |-> [k \in 0..3 |-> FALSE], b |-> [k \in 0..3 |-> FALSE], stk |-> <<>>,
          ctx |-> [j |-> "", ph |-> "none", todo |-> <<>>], cur |-> "", t |-> 0]
Top(S) == S.stk[Len(S.stk)]
SetTop(S, f) == [S EXCEPT !.stk[Len(S.stk)] = f]
(* ------------------------------------------------------------ evaluation *)
(* an event is processed when it is active or manually held fired *)
Live(S, e) == S.ev[e].active \/ S.ev[e].mf
Start(S, e, src) ==
  IF S.ev[e].user THEN [S EXCEPT !.stk = Append(@, Frame(e, src)), !.ev[e].ran = FALSE]
  ELSE [S EXCEPT !.stk = Append(@, [Frame(e, src) EXCEPT !.ph = "act"]), !.ev[e].active = FALSE]
Requeue(S, e) == LET x == S.ev[e] IN
  IF S.cur = e /\ x.cyc # 0 THEN [S EXCEPT !.ev[e].sch = TRUE, !.ev[e].nxt = x.nxt + x.cyc, !.cur = ""] ELSE [S EXCEPT !.cur = ""]
Pop(S) == LET f == Top(S) IN LET S2 == [S EXCEPT !.stk = SubSeq(@, 1, Len(@) - 1)] IN IF f.src = "due" THEN Requeue(S2, f.e) ELSE S2
(* the outcome of the condition the innermost evaluation is at *)
Cond(S, v, evald) == LET f == Top(S) e == f.e i == f.i acc == IF ~f.seen THEN v ELSE IF S.ev[e].all THEN f.acc /\ v ELSE f.acc \/ v
                         S2 == SetTop(S, [f EXCEPT !.i = i + 1, !.acc = acc, !.seen = TRUE, !.open = FALSE]) IN
  IF ~evald THEN S2 ELSE [S2 EXCEPT !.ev[e].conds[i].fired = v, !.ev[e].conds[i].n = IF v THEN @ + 1 ELSE @, !.ev[e].conds[i].t = IF v THEN S.t ELSE @]
(* the action the innermost evaluation is at has run *)
Acted(S) == LET f == Top(S) e == f.e i == f.i S2 == SetTop(S, [f EXCEPT !.i = i + 1, !.any = TRUE, !.open = FALSE]) IN
  [S2 EXCEPT !.ev[e].acts[i].n = @ + 1, !.ev[e].acts[i].t = S.t, !.ev[e].ran = TRUE]
Decide(S) == LET f == Top(S) x == S.ev[f.e] IN
  IF x.mf \/ f.acc THEN [SetTop(S, [f EXCEPT !.ph = "act", !.i = 1]) EXCEPT !.ev[f.e].nf = @ + 1, !.ev[f.e].tf = S.t, !.ev[f.e].active = IF x.mf THEN @ ELSE FALSE]
  ELSE Pop(S)
Done(S) == LET f == Top(S) IN LET S2 == [S EXCEPT !.ev[f.e].mf = @ /\ S.ev[f.e].mh, !.ev[f.e].nr = IF f.any THEN @ + 1 ELSE @, !.ev[f.e].tr = IF f.any THEN S.t ELSE @] IN Pop(S2)
(* what has to be seen next of the innermost evaluation *)
Need(S) == IF S.stk = <<>> THEN "none" ELSE LET f == Top(S) x == S.ev[f.e] IN
  IF f.open THEN "open"
  ELSE IF f.ph = "cond" /\ ~x.man /\ f.i <= Len(x.conds) THEN
         LET c == x.conds[f.i] IN IF c.on /\ ~(c.hold /\ c.fired) /\ c.kind \in {"py", "job"} THEN c.kind ELSE "none"
  ELSE IF f.ph = "act" /\ f.i <= Len(x.acts) /\ x.acts[f.i].on THEN LET a == x.acts[f.i].kind IN IF a = "py" THEN "act" ELSE IF a = "call" THEN "call" ELSE "none"
  ELSE "none"
(* one step that cannot be seen *)
Step(S) == LET f == Top(S) x == S.ev[f.e] IN
  IF f.ph = "cond" THEN
     IF x.man \/ f.i > Len(x.conds) THEN Decide(IF x.man THEN SetTop(S, [f EXCEPT !.acc = FALSE]) ELSE S)
     ELSE LET c == x.conds[f.i] IN
          IF ~c.on THEN [SetTop(S, [f EXCEPT !.i = f.i + 1]) EXCEPT !.ev[f.e].conds[f.i].fired = FALSE]
          ELSE IF c.hold /\ c.fired THEN Cond(S, TRUE, FALSE)
          ELSE Cond(S, c.kind = "var" /\ S.b[c.k], TRUE)
  ELSE IF f.i > Len(x.acts) THEN Done(S)
  ELSE LET a == x.acts[f.i] IN
       IF ~a.on THEN SetTop(S, [f EXCEPT !.i = f.i + 1])
       ELSE Acted(IF a.kind = "on" THEN [S EXCEPT !.mdis[a.k] = FALSE] ELSE IF a.kind = "off" THEN [S EXCEPT !.mdis[a.k] = TRUE] ELSE S)
RECURSIVE Advance(_)
Advance(S) ==
  IF S.stk # <<>> THEN IF Need(S) = "none" THEN Advance(Step(S)) ELSE S
  ELSE IF S.ctx.ph \in {"before", "after"} /\ S.ctx.todo # <<>> THEN
       LET h == Head(S.ctx.todo) S2 == [S EXCEPT !.ctx.todo = Tail(@)] IN
       IF Some(S.inst, h) /\ Live(S, h.e) THEN Advance(Start(S2, h.e, "inst")) ELSE Advance(S2)
  ELSE S
(* ------------------------------------------------------------ the event job and the jobs with events *)
Due(S) == {e \in DOMAIN S.ev : S.ev[e].sch /\ S.ev[e].nxt = S.t}
Late(S, strict) == {e \in DOMAIN S.ev : S.ev[e].sch /\ IF strict THEN S.ev[e].nxt <= S.t ELSE S.ev[e].nxt < S.t}
(* the event job takes up one of the events that are due *)
Take(S, e) == LET S2 == [S EXCEPT !.ev[e].sch = FALSE, !.cur = e] IN IF Live(S, e) THEN Advance(Start(S2, e, "due")) ELSE Requeue(S2, e)
(* top of frame: cyclic events start now, one time events whose time has passed are dropped *)
RECURSIVE AddPending(_)
AddPending(S) == IF S.pend = <<>> THEN S ELSE LET e == Head(S.pend) x == S.ev[e] S2 == [S EXCEPT !.pend = Tail(@)] IN
  AddPending(IF x.cyc # 0 THEN [S2 EXCEPT !.ev[e].sch = TRUE, !.ev[e].nxt = S.t] ELSE IF x.nxt < S.t THEN S2 ELSE [S2 EXCEPT !.ev[e].sch = TRUE])
Tied(S, jb, wh) == SelectSeq(S.inst, LAMBDA x : x.j = jb /\ x.w = wh)
Enter(S, jb, wh) == Advance([S EXCEPT !.ctx = [j |-> jb, ph |-> wh, todo |-> Tied(S, jb, wh)]])
(* ------------------------------------------------------------ commands: of jobs, of the input file, or inside conditions and actions *)
Remove(S, e) == [S EXCEPT !.pend = Drop(@, e), !.ev[e].sch = FALSE, !.ev[e].added = FALSE, !.inst = SelectSeq(@, LAMBDA x : x.e # e), !.cur = IF @ = e THEN "" ELSE @]
Add(S, e) == [S EXCEPT !.pend = Append(@, e), !.ev[e].added = TRUE, !.known = @ \cup {e}]
Tie(S, e, jb, wh) == [S EXCEPT !.inst = Append(@, [e |-> e, j |-> jb, w |-> wh]), !.ev[e].added = TRUE, !.known = @ \cup {e}]
PutCond(S, e, i, c) == LET x == S.ev[e].conds IN
  IF i = Len(x) + 1 THEN [S EXCEPT !.ev[e].conds = Append(x, c)]
  ELSE IF i \in 1..Len(x) THEN [S EXCEPT !.ev[e].conds[i] = [c EXCEPT !.n = x[i].n, !.t = x[i].t]] ELSE S
PutAct(S, e, i, a) == LET x == S.ev[e].acts IN
  IF i = Len(x) + 1 THEN [S EXCEPT !.ev[e].acts = Append(x, a)]
  ELSE IF i \in 1..Len(x) THEN [S EXCEPT !.ev[e].acts[i] = [a EXCEPT !.n = x[i].n, !.t = x[i].t]] ELSE S
CondSet(S, e, i, f, v) == IF i \notin 1..Len(S.ev[e].conds) THEN S ELSE IF f = "on" THEN [S EXCEPT !.ev[e].conds[i].on = v] ELSE [S EXCEPT !.ev[e].conds[i].hold = v]
Manual(S, e, m) == CASE m = "on" -> [S EXCEPT !.ev[e].man = TRUE, !.ev[e].mf = TRUE, !.ev[e].mh = TRUE]
                     [] m = "off" -> [S EXCEPT !.ev[e].man = TRUE, !.ev[e].mf = FALSE, !.ev[e].mh = FALSE]
                     [] m = "done" -> [S EXCEPT !.ev[e].man = FALSE, !.ev[e].mf = FALSE, !.ev[e].mh = FALSE]
                     [] m = "fire" -> Start([S EXCEPT !.ev[e].man = TRUE, !.ev[e].mf = TRUE, !.ev[e].mh = FALSE], e, "fire")
(* c: op, ev, i (numbers from 1), k, kind, j, w, v *)
Command(S, c) ==
  CASE c.op = "new" -> [S EXCEPT !.ev = @ @@ (c.ev :> NewEvent)]
    [] c.op = "read" -> [S EXCEPT !.ev = @ @@ (c.ev :> [NewEvent EXCEPT !.user = FALSE, !.active = TRUE, !.cyc = 0, !.nxt = c.v, !.acts = <<NewAct("py", 0)>>, !.added = TRUE]), !.pend = Append(@, c.ev)]
    [] c.op = "add" -> Add(S, c.ev)
    [] c.op = "tie" -> Tie(S, c.ev, c.j, c.w)
    [] c.op = "rem" -> Remove(S, c.ev)
    [] c.op = "del" -> [Remove(S, c.ev) EXCEPT !.known = @ \ {c.ev}]
    [] c.op = "active" -> [S EXCEPT !.ev[c.ev].active = c.v = 1]
    [] c.op = "cond" -> PutCond(IF c.kind = "job" THEN [S EXCEPT !.mdis[c.k] = FALSE] ELSE S, c.ev, c.i, NewCond(c.kind, c.k))
    [] c.op = "act" -> PutAct(IF c.kind = "call" THEN [S EXCEPT !.mdis[c.k] = FALSE] ELSE S, c.ev, c.i, NewAct(c.kind, c.k))
    [] c.op = "con" -> CondSet(S, c.ev, c.i, "on", c.v = 1)
    [] c.op = "chold" -> CondSet(S, c.ev, c.i, "hold", c.v = 1)
    [] c.op = "aon" -> IF c.i \in 1..Len(S.ev[c.ev].acts) THEN [S EXCEPT !.ev[c.ev].acts[c.i].on = c.v = 1] ELSE S
    [] c.op = "all" -> [S EXCEPT !.ev[c.ev].all = c.v = 1]
    [] c.op = "cyc" -> [S EXCEPT !.ev[c.ev].cyc = c.v]
    [] c.op = "man" -> Manual(S, c.ev, c.kind)
    [] c.op = "nman" -> IF c.ev \in S.known THEN Manual(S, c.ev, c.kind) ELSE S
    [] c.op = "setb" -> [S EXCEPT !.b[c.k] = c.v = 1]
    [] c.op = "none" -> S
===============================================================================
