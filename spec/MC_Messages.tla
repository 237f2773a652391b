---------------------------- MODULE MC_Messages ----------------------------
(* Design: threads publish under one lock, delivering to each subscriber in turn, while another thread unsubscribes and
   subscribes again. What each subscriber gets is what Messages.tla requires of a concurrent publication (ParIs). *)
EXTENDS Messages
CONSTANTS K, Cnt, Togs
Subs0 == <<"a", "b", "f">>
Kinds == [a |-> "rec", b |-> "cout", f |-> "file"]
VARIABLES lock, sent, at, got, togs
vars == <<msgvars, lock, sent, at, got, togs>>
Init == /\ info = [n \in {"a", "b", "f"} |-> [k |-> Kinds[n], lv |-> 0, en |-> TRUE, col |-> n = "b"]]
        /\ subs = Subs0 /\ time = [tics |-> 5, tps |-> 10]
        /\ lock = 0 /\ sent = [i \in 0..(K - 1) |-> 0] /\ at = 0 /\ got = [n \in {"a", "b", "f"} |-> <<>>] /\ togs = Togs
\* thread i (1..K) takes the lock for its next message; K + 1 is the thread that subscribes
Take(i) == lock = 0 /\ sent[i - 1] < Cnt /\ lock' = i /\ at' = 1 /\ UNCHANGED <<msgvars, sent, got, togs>>
Deliver == /\ lock \in 1..K /\ at <= Len(subs)
           /\ LET n == subs[at] IN got' = [got EXCEPT ![n] = IF info[n].en /\ Wants(n, 1) THEN Append(@, Form(n, 1, <<lock - 1, sent[lock - 1]>>)) ELSE @]
           /\ at' = at + 1 /\ UNCHANGED <<msgvars, lock, sent, togs>>
Release == lock \in 1..K /\ at > Len(subs) /\ sent' = [sent EXCEPT ![lock - 1] = @ + 1] /\ lock' = 0 /\ at' = 0 /\ UNCHANGED <<msgvars, got, togs>>
Toggle == lock = 0 /\ togs > 0 /\ togs' = togs - 1 /\ (IF togs % 2 = 0 THEN Unsubscribe("f") ELSE Subscribe("f")) /\ UNCHANGED <<lock, sent, at, got>>
Next == (\E i \in 1..K : Take(i)) \/ Deliver \/ Release \/ Toggle
Done == lock = 0 /\ togs = 0 /\ \A i \in DOMAIN sent : sent[i] = Cnt
Spec == Init /\ [][Next]_vars
Result == Done => ParIs(K, Cnt, 1, IF Togs = 0 THEN "" ELSE "f", got)
\* permanent subscribers see the same sequence
SameOrder == lock = 0 => [j \in 1..Len(got.a) |-> got.a[j][4]] = [j \in 1..Len(got.b) |-> got.b[j][4]]
NoTwice == \A n \in DOMAIN got : \A x, y \in 1..Len(got[n]) : x # y => got[n][x][4] # got[n][y][4]
Ends == Done \/ ENABLED Next
=============================================================================
