----------------------------- MODULE MC_DataRec -----------------------------
(* Small recordings: jobs before and after the recording jobs of each instant change a value, toggle, re-rate and record at once. *)
EXTENDS DataRec
CONSTANTS Tmax, Budget, Freq
VARIABLES now, pos, left, log       \* log: what happened to the value: <<t, after, value>>; and whether anything but values changed
vars == <<recvars, now, pos, left, log>>
G0 == [alive |-> TRUE, on |-> TRUE, rates |-> <<[cy |-> 2, nx |-> 0], [cy |-> 3, nx |-> 0]>>, nx |-> 0, rows |-> <<>>, freq |-> Freq, ring |-> FALSE, max |-> 9, lim |-> 0,
       vars |-> <<"i", "d">>, names |-> <<"i", "d">>, seen |-> [w \in {"i"} |-> "0"]]
Init == vals = [i |-> "0", d |-> "0"] /\ grp = [g |-> G0] /\ now = 0 /\ pos = FALSE /\ left = Budget /\ log = [ch |-> <<>>, cmd |-> FALSE]
\* "i" and "d" always change together: a row with different values mixes instants
SetBoth(v) == /\ grp' = Catch(now, pos) /\ vals' = [i |-> v, d |-> v] /\ log' = [log EXCEPT !.ch = Append(@, <<now, pos, v>>)] /\ UNCHANGED <<now, pos>>
Cmd == /\ \/ \E on \in BOOLEAN : Enable({"g"}, on, now, pos)
          \/ RecordNow("g", now, pos) \/ RemoveGroup("g", now, pos)
          \/ \E cy \in {1, 2, 4} : SetCycle("g", cy, now, pos) \/ AddCycle("g", cy, now, pos)
       /\ log' = [log EXCEPT !.cmd = TRUE] /\ UNCHANGED <<now, pos>>
Tick == /\ now < Tmax /\ (IF pos THEN now' = now + 1 /\ pos' = FALSE ELSE now' = now /\ pos' = TRUE) /\ grp' = Catch(now, pos) /\ UNCHANGED <<vals, left, log>>
Next == Tick \/ (left > 0 /\ left' = left - 1 /\ ((\E v \in {"0", "1"} : v # vals.i /\ SetBoth(v)) \/ Cmd))
Spec == Init /\ [][Next]_vars
R == grp.g.rows
ValueAt(t) == LET S == SelectSeq(log.ch, LAMBDA c : c[1] < t \/ (c[1] = t /\ ~c[2])) IN IF S = <<>> THEN "0" ELSE S[Len(S)][3]
Ordered == \A k \in 1..(Len(R) - 1) : R[k][1] <= R[k + 1][1]
Whole == \A k \in 1..Len(R) : R[k][2] = R[k][3]
DueBy == {t \in 0..now : (t < now \/ pos) /\ (t % 2 = 0 \/ t % 3 = 0)}
\* without commands: exactly the union of the cycles, each with the values of its time
EveryDue == (Freq = "always" /\ ~log.cmd) => {R[k][1] : k \in 1..Len(R)} = {t \in DueBy : t < grp.g.nx} /\ Len(R) = Cardinality({R[k][1] : k \in 1..Len(R)})
                                             /\ \A k \in 1..Len(R) : R[k][2] = ValueAt(R[k][1])
\* rows of changes differ from the row before; those of steps come in pairs at one time
OnlyChanges == (Freq = "changes" /\ ~log.cmd) => \A k \in 2..Len(R) : R[k][2] # R[k - 1][2]
Steps == (Freq = "step" /\ ~log.cmd) => /\ Len(R) > 0 => Len(R) % 2 = 1
   /\ \A k \in 2..Len(R) : IF k % 2 = 0 THEN Tail(R[k]) = Tail(R[k - 1]) /\ R[k][1] = R[k + 1][1] ELSE R[k][2] # R[k - 1][2]
Future == grp.g.alive => grp.g.nx >= now
=============================================================================
