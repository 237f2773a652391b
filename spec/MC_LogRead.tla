----------------------------- MODULE MC_LogRead -----------------------------
(* Every short use of two logs: what has been delivered since the beginning is the rows in order; groups deliver the common times. *)
EXTENDS LogRead, SequencesExt
CONSTANTS MaxT, Kind
VARIABLES got, ms, fresh
vars == <<logvars, got, ms, fresh>>
Log(f, c, S) == LET T == SetToSortSeq(S, <) IN [d |-> "d", f |-> f, ext |-> "trk", names |-> <<"time", c>>, units |-> <<"s", "--">>,
                  rows |-> [i \in 1..Len(T) |-> [t |-> T[i], v |-> <<ToString(T[i]), c \o ToString(i)>>, n |-> <<0, 0>>]]]
Init == /\ \E A, B \in SUBSET (0..MaxT) : logs = <<Log("f", "a", A), Log("g", "b", B)>>
        /\ st = [x \in {"a", "b"} |-> [k |-> IF x = "a" THEN 1 ELSE 2, c |-> 2, pos |-> 1]]
        /\ gr = [g \in {"g"} |-> [m |-> <<"a", "b">>, start |-> 0, stop |-> Inf - 1, pres |-> Kind = "pres", over |-> FALSE]]
        /\ got = [x \in {"a", "b"} |-> <<>>] /\ ms = <<>> /\ fresh = TRUE
Some(x) == IF Left(st[x]) THEN Row(st[x], st[x].pos) ELSE <<0, "">>
G(x) == LET r == IF Left(st[x]) THEN 1 ELSE 0 IN Get(x, r, Some(x)[1], Some(x)[2]) /\ got' = (IF r = 1 THEN [got EXCEPT ![x] = Append(@, Some(x))] ELSE got) /\ fresh' = FALSE /\ UNCHANGED ms
S(x) == LET r == IF Left(st[x]) THEN 1 ELSE 0 IN Step(x, r) /\ got' = (IF r = 1 THEN [got EXCEPT ![x] = Append(@, Some(x))] ELSE got) /\ fresh' = FALSE /\ UNCHANGED ms
B(x) == Begin(x) /\ got' = [got EXCEPT ![x] = <<>>] /\ fresh' = FALSE /\ UNCHANGED ms
M == /\ fresh /\ (IF ms = <<>> THEN TRUE ELSE ms[Len(ms)] # -1)
     /\ \/ Match("g", 0, 1, <<>>) /\ ms' = Append(ms, -1)
        \/ \E i \in 1..NRows(st["a"]), j \in 1..NRows(st["b"]) : /\ Time(st["a"], i) = Time(st["b"], j)
              /\ Match("g", 1, 0, <<Row(st["a"], i), Row(st["b"], j)>>) /\ ms' = Append(ms, Time(st["a"], i))
     /\ UNCHANGED <<got, fresh>>
Next == (\E x \in {"a", "b"} : G(x) \/ S(x) \/ B(x)) \/ M
Spec == Init /\ [][Next]_vars
All(x) == [i \in 1..NRows(st[x]) |-> Row(st[x], i)]
Once == ms = <<>> => \A x \in {"a", "b"} : got[x] = SubSeq(All(x), 1, Len(got[x])) /\ (Left(st[x]) <=> Len(got[x]) < NRows(st[x]))
Both == {t \in 0..MaxT : \A k \in {1, 2} : \E i \in 1..Len(logs[k].rows) : logs[k].rows[i].t = t}
Matched == fresh => /\ \A i \in 1..(Len(ms) - 1) : ms[i + 1] = -1 \/ ms[i] < ms[i + 1]
                    /\ (ms # <<>> /\ ms[Len(ms)] = -1) => {ms[i] : i \in 1..(Len(ms) - 1)} = Both
=============================================================================
