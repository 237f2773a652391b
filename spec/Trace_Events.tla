---------------------------- MODULE Trace_Events ----------------------------
EXTENDS Events, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES st, l
Ev == Trace[l]
TraceInit == l = 1 /\ st = Empty
Now(S) == [S EXCEPT !.t = Ev.t]
Idle(S) == S.stk = <<>>
(* the recorded state of every event is the one of the specification *)
Same(S) == \A n \in DOMAIN Ev.ev : LET x == S.ev[n] y == Ev.ev[n] IN
  /\ y.active = x.active /\ y.added = x.added
  /\ x.user => /\ y.man = x.man /\ y.nf = x.nf /\ y.tf = x.tf /\ y.nr = x.nr /\ y.tr = x.tr /\ y.ran = x.ran
               /\ y.c = [k \in 1..Len(x.conds) |-> [on |-> x.conds[k].on, f |-> x.conds[k].fired, n |-> x.conds[k].n, t |-> x.conds[k].t]]
               /\ y.a = [k \in 1..Len(x.acts) |-> [on |-> x.acts[k].on, n |-> x.acts[k].n, t |-> x.acts[k].t]]
  /\ \A k \in 0..3 : Ev.m[k + 1] = S.mdis[k]
InFrame(S, what) == ~Idle(S) /\ Need(S) = what /\ Top(S).e = Ev.ev /\ Top(S).i = Ev.i
Open(S) == SetTop(S, [Top(S) EXCEPT !.open = TRUE])
Next1(S) ==
  CASE Ev.e = "scn" -> st' = Empty
    [] Ev.e = "pr" /\ Ev.j = "tof" /\ Ev.w = "b" -> Idle(S) /\ S.ctx.ph = "none" /\ Late(S, FALSE) = {} /\ st' = AddPending(S)
    [] Ev.e = "pr" /\ Ev.j = "tof" -> Idle(S) /\ st' = S
    [] Ev.e = "pr" /\ Ev.j = "pe" /\ Ev.w = "b" -> Idle(S) /\ S.ctx.ph = "none" /\ Late(S, FALSE) = {} /\ st' = [S EXCEPT !.ctx = [j |-> "pe", ph |-> "due", todo |-> <<>>]]
    [] Ev.e = "pr" /\ Ev.j = "pe" -> Idle(S) /\ S.ctx.ph = "due" /\ Due(S) = {} /\ Same(S) /\ st' = [S EXCEPT !.ctx.ph = "none"]
    [] Ev.e = "pr" /\ Ev.w = "b" -> Idle(S) /\ S.ctx.ph = "none" /\ Late(S, TRUE) = {} /\ st' = Enter(S, Ev.j, "before")
    [] Ev.e = "pr" /\ Ev.w = "m" -> Idle(S) /\ S.ctx.ph = "body" /\ S.ctx.j = Ev.j /\ st' = Enter(S, Ev.j, "after")
    [] Ev.e = "pr" -> Idle(S) /\ S.ctx.ph = "after" /\ S.ctx.j = Ev.j /\ Same(S) /\ st' = [S EXCEPT !.ctx.ph = "none"]
    [] Ev.e = "call" -> Idle(S) /\ Late(S, Ev.lax = 0) = {} /\ IF Ev.tgt = 1 THEN S.ctx.ph = "before" /\ S.ctx.j = Ev.j /\ st' = [S EXCEPT !.ctx.ph = "body"] ELSE S.ctx.ph = "none" /\ st' = S
    [] Ev.e = "cb" -> InFrame(S, "py") /\ st' = Open(S)
    [] Ev.e = "ce" -> InFrame(S, "open") /\ Top(S).ph = "cond" /\ st' = Advance(Cond(S, Ev.v = 1, TRUE))
    [] Ev.e = "ab" -> InFrame(S, "act") /\ st' = Open(S)
    [] Ev.e = "ae" -> InFrame(S, "open") /\ Top(S).ph = "act" /\ st' = Advance(Acted(S))
    [] Ev.e = "mj" -> /\ ~Idle(S)
                      /\ IF Need(S) = "job" THEN S.ev[Top(S).e].conds[Top(S).i].k = Ev.k /\ st' = Advance(Cond(S, Ev.v = 1, TRUE))
                         ELSE Need(S) = "call" /\ S.ev[Top(S).e].acts[Top(S).i].k = Ev.k /\ st' = Advance(Acted(S))
    [] Ev.e = "cmd" -> (Idle(S) => S.ctx.ph \in {"none", "body"}) /\ (~Idle(S) => Top(S).open) /\ st' = Advance(Command(S, Ev))
    [] Ev.e = "end" -> Idle(S) /\ st' = S
    [] OTHER -> FALSE
(* the event job takes up the events that are due in any order *)
Hidden == l <= Len(Trace) /\ Idle(st) /\ st.ctx.ph = "due" /\ (\E e \in Due(st) : st' = Take(st, e)) /\ l' = l
TraceNext == Hidden \/ (l <= Len(Trace) /\ l' = l + 1 /\ Next1(Now(st)))
TraceSpec == TraceInit /\ [][TraceNext]_<<st, l>>
Progress == TLCSet(7, IF TLCGet(7) < l THEN l ELSE TLCGet(7))
ASSUME TLCSet(7, 1)
TraceAccepted == PrintT(<<"REACHED", TLCGet(7) - 1>>) /\ TLCGet(7) - 1 = Len(Trace)
=============================================================================
