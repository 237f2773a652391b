----------------------------- MODULE MC_DataBuf -----------------------------
(* Design of the recording buffer: the simulation fills slots column by column, a writer thread empties them under a mutex; the
   simulation itself empties the buffer when only one slot is left. Rings are emptied once, at the end. *)
EXTENDS Integers, Sequences
CONSTANTS M, N, Ring     \* slots (at least 2), rows recorded, ring policy
VARIABLES bn, wn, slot, col, file, lock, goal, fin
vars == <<bn, wn, slot, col, file, lock, goal, fin>>
Init == bn = 0 /\ wn = 0 /\ slot = [k \in 0..(M - 1) |-> <<0, 0>>] /\ col = 0 /\ file = <<>> /\ lock = "" /\ goal = 0 /\ fin = FALSE
Full == ~Ring /\ bn - wn >= M - 1
\* the simulation: next row, two columns; bn moves once the row is whole
Put == /\ ~fin /\ bn < N /\ lock # "sim" /\ (col > 0 \/ ~Full)
       /\ slot' = [slot EXCEPT ![bn % M][col + 1] = bn + 1] /\ col' = (col + 1) % 2 /\ bn' = IF col = 1 THEN bn + 1 ELSE bn
       /\ UNCHANGED <<wn, file, lock, goal, fin>>
\* writing out, by either
Take(w) == lock = "" /\ lock' = w /\ goal' = bn /\ UNCHANGED <<bn, wn, slot, col, file, fin>>
SimForces == ~fin /\ col = 0 /\ Full /\ Take("sim")
WriterWakes == ~fin /\ ~Ring /\ wn < bn /\ Take("writer")
Write == lock # "" /\ wn < goal /\ file' = Append(file, slot[wn % M]) /\ wn' = wn + 1 /\ UNCHANGED <<bn, slot, col, lock, goal, fin>>
Release == lock # "" /\ wn = goal /\ lock' = "" /\ UNCHANGED <<bn, wn, slot, col, file, goal, fin>>
Shutdown == /\ ~fin /\ bn = N /\ col = 0 /\ fin' = TRUE /\ lock = "" /\ lock' = "sim" /\ goal' = bn
            /\ wn' = (IF Ring /\ bn - wn > M THEN bn - M ELSE wn) /\ UNCHANGED <<bn, slot, col, file>>
Next == Put \/ SimForces \/ WriterWakes \/ Write \/ Release \/ Shutdown
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
First == IF Ring /\ N > M THEN N - M ELSE 0
InOrder == \A k \in 1..Len(file) : file[k] = <<First + k, First + k>>
Done == fin /\ lock = ""
Complete == Done => Len(file) = N - First
Ends == Done \/ ENABLED Next
Finishes == <>Done
=============================================================================
