------------------------------ MODULE MC_Events ------------------------------
(* Two events under any commands and any truth of their conditions; g: what has been seen, for the properties. *)
EXTENDS Events
CONSTANTS MaxT, MaxCmd, Hold
VARIABLES st, g
E == {"e0", "e1"}
Jb == "job"
vars == <<st, g>>
Acts == <<NewAct("py", 0), NewAct("py", 0)>>
Ev0 == [NewEvent EXCEPT !.active = TRUE, !.cyc = 1, !.conds = <<NewCond("py", 0), NewCond("py", 0)>>, !.acts = Acts]
Ev1 == [NewEvent EXCEPT !.cyc = 2, !.conds = <<NewCond("py", 0)>>, !.acts = <<NewAct("py", 0)>>]
NoE == [e \in E |-> 0]
Init == /\ \E a \in BOOLEAN, h \in (IF Hold THEN BOOLEAN ELSE {FALSE}) : st = [Empty EXCEPT !.ev = [x \in E |-> IF x = "e0" THEN [Ev0 EXCEPT !.all = a, !.conds[1].hold = h] ELSE Ev1]]
        /\ g = [ph |-> "cmd", n |-> 0, ev |-> NoE, took |-> {}, run |-> [e \in E |-> <<>>], pre |-> [e \in E |-> TRUE], bad |-> {}]
(* which commands a job gives *)
Cmds == {[op |-> o, ev |-> e, i |-> 1, v |-> v, kind |-> "", k |-> 0, j |-> "", w |-> ""] : o \in {"add", "rem"}, e \in E, v \in {0}}
        \cup {[op |-> "tie", ev |-> e, i |-> 1, v |-> 0, kind |-> "", k |-> 0, j |-> Jb, w |-> w] : e \in {"e1"}, w \in {"before", "after"}}
        \cup {[op |-> o, ev |-> e, i |-> 1, v |-> v, kind |-> "", k |-> 0, j |-> "", w |-> ""] : o \in {"active", "con", "aon"}, e \in {"e0"}, v \in {0, 1}}
        \cup {[op |-> "man", ev |-> e, i |-> 1, v |-> 0, kind |-> m, k |-> 0, j |-> "", w |-> ""] : e \in E, m \in {"on", "off", "done", "fire"}}
Inside == {c \in Cmds : c.op \in {"rem", "active"} \/ (c.op = "man" /\ c.ev = "e1")}
Quiet(S) == S.stk = <<>>
(* a command between the jobs *)
Give == /\ Quiet(st) /\ g.ph \in {"cmd", "late"} /\ g.n < MaxCmd
        /\ \E c \in Cmds : st' = Advance(Command(st, c)) /\ g' = [g EXCEPT !.n = @ + 1]
Tof == Quiet(st) /\ g.ph = "cmd" /\ st' = [AddPending(st) EXCEPT !.ctx = [j |-> "pe", ph |-> "due", todo |-> <<>>]] /\ g' = [g EXCEPT !.ph = "due", !.took = {}]
Process == /\ Quiet(st) /\ g.ph = "due"
           /\ \E e \in Due(st) : st' = Take(st, e) /\ g' = [g EXCEPT !.took = @ \cup {e}, !.bad = IF e \in g.took THEN @ \cup {"twice"} ELSE @]
Job == /\ Quiet(st) /\ g.ph = "due" /\ Due(st) = {} /\ st' = Enter(st, Jb, "before") /\ g' = [g EXCEPT !.ph = "before"]
After == /\ Quiet(st) /\ g.ph = "before" /\ st.ctx.todo = <<>> /\ st' = Enter(st, Jb, "after") /\ g' = [g EXCEPT !.ph = "after"]
Late1 == /\ Quiet(st) /\ g.ph = "after" /\ st.ctx.todo = <<>> /\ st' = [st EXCEPT !.ctx.ph = "none"] /\ g' = [g EXCEPT !.ph = "late"]
Tick == /\ Quiet(st) /\ g.ph = "late" /\ st.t < MaxT /\ st' = [st EXCEPT !.t = @ + 1] /\ g' = [g EXCEPT !.ph = "cmd"]
(* the innermost evaluation: a condition is evaluated, an action begins, gives a command, ends *)
CondEv == /\ Need(st) = "py" /\ \E v \in BOOLEAN : st' = Advance(Cond(st, v, TRUE))
          /\ g' = LET f == Top(st) x == st.ev[f.e] IN [g EXCEPT !.bad = @ \cup (IF x.man THEN {"manual"} ELSE {}) \cup (IF ~x.conds[f.i].on THEN {"disabled"} ELSE {})]
ActB == /\ Need(st) = "act" /\ st' = SetTop(st, [Top(st) EXCEPT !.open = TRUE])
        /\ g' = LET f == Top(st) x == st.ev[f.e] IN [g EXCEPT
                   !.run[f.e] = IF f.any THEN Append(@, f.i) ELSE <<f.i>>,
                   !.bad = @ \cup (IF ~x.acts[f.i].on THEN {"off"} ELSE {}) \cup (IF f.any /\ \E k \in 1..Len(g.run[f.e]) : g.run[f.e][k] >= f.i THEN {"order"} ELSE {})]
Cmd == /\ Need(st) = "open" /\ g.n < MaxCmd /\ \E c \in Inside : (c.op = "man" => Top(st).e = "e0") /\ st' = Advance(Command(st, c)) /\ g' = [g EXCEPT !.n = @ + 1]
ActE == Need(st) = "open" /\ st' = Advance(Acted(st)) /\ g' = g
Next == Give \/ Tof \/ Process \/ Job \/ After \/ Late1 \/ Tick \/ CondEv \/ ActB \/ Cmd \/ ActE
Spec == Init /\ [][Next]_vars
(* ------------------------------------------------------------ properties *)
TypeOK == \A e \in E : /\ st.ev[e].nf \in Nat /\ Cardinality({k \in 1..Len(st.pend) : st.pend[k] = e}) <= MaxCmd
(* no condition is evaluated in manual mode or while disabled, no disabled action runs, the actions run in order, an event is processed once per time *)
NothingBad == g.bad = {}
(* nobody misses a cycle: what is scheduled lies in the future once the event job has run *)
OnTime == Late(st, g.ph \in {"before", "after", "late"}) = {}
(* a removed event is nowhere, and is not processed *)
Gone == \A e \in E : ~st.ev[e].added => ~st.ev[e].sch /\ ~Some(st.pend, e) /\ (\A k \in 1..Len(st.inst) : st.inst[k].e # e) /\ st.cur # e
(* an evaluation of an event is in progress only if it was processed while live, or fired by a command *)
FiredOnce == \A e \in E : st.ev[e].nr <= st.ev[e].nf /\ \A k \in 1..Len(st.ev[e].acts) : st.ev[e].acts[k].n <= st.ev[e].nf
(* held and fired: stays fired while it is enabled and held *)
HoldStays == [][\A e \in E : \A k \in 1..Len(st.ev[e].conds) : LET c == st.ev[e].conds[k] d == st'.ev[e].conds[k] IN (c.hold /\ c.fired /\ d.hold /\ c.on) => d.fired]_vars
(* normal mode: firing makes an event inactive; only a command makes it active again *)
Deact == [][\A e \in E : (st'.ev[e].nf > st.ev[e].nf /\ ~st.ev[e].man /\ ~st'.ev[e].man /\ Need(st) \in {"py"} /\ Top(st).e = e) => ~st'.ev[e].active]_vars
Bound == g.n <= MaxCmd
===============================================================================
