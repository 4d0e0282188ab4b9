----------------------------- MODULE RowAssembly -----------------------------
(* The protocol by which spasm_schur, spasm_rref and spasm_kernel assemble a sparse result: rows   *)
(* are handed out dynamically; inside a critical section a thread makes room (waiting until nobody *)
(* writes before moving the array), reserves slots and registers as a writer; it then writes its   *)
(* row outside the critical section and unregisters.  Checked: it implements RowStore, every row   *)
(* ends up once, contiguous and intact, no store goes to an array that has been moved away, and    *)
(* nobody waits for ever.  The switches turn on mistakes that these properties must reveal.        *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Threads, Lens, Cap0, LateRegister, NoWait, SharedBase, CheckBefore
ASSUME Threads \subseteq Nat /\ Lens \in Seq(Nat)
NRows == Len(Lens)
VARIABLES cap, gen, own,      \* the storage (RowStore)
          slot,               \* slot -> <<row, position>> stored there, in the current generation
          next,               \* next row to hand out
          nnz, nrow, start,   \* reservation cursors; start[k] = <<row, first slot>> of the k-th stored row
          writing, lock,
          pc, row, base, pos, ptr
vars == <<cap, gen, own, slot, next, nnz, nrow, start, writing, lock, pc, row, base, pos, ptr>>
RS == INSTANCE RowStore
Free == -1
Init == /\ RS!SInit(Cap0) /\ slot = [s \in 0..(Cap0 - 1) |-> <<>>]
        /\ next = 1 /\ nnz = 0 /\ nrow = 0 /\ start = <<>> /\ writing = 0 /\ lock = Free
        /\ pc = [t \in Threads |-> "idle"] /\ row = [t \in Threads |-> 0] /\ base = [t \in Threads |-> 0]
        /\ pos = [t \in Threads |-> 0] /\ ptr = [t \in Threads |-> 0]
Go(t, l) == pc' = [pc EXCEPT ![t] = l]
Stor == <<cap, gen, own, slot>>
Resv == <<next, nnz, nrow, start>>
Take(t) == /\ pc[t] = "idle" /\ next <= NRows
           /\ row' = [row EXCEPT ![t] = next] /\ next' = next + 1
           /\ pos' = [pos EXCEPT ![t] = 0]
           /\ Go(t, IF CheckBefore THEN "room" ELSE "enter") /\ UNCHANGED <<Stor, nnz, nrow, start, writing, lock, base, ptr>>
Enter(t) == /\ pc[t] = "enter" /\ lock = Free /\ lock' = t
            /\ Go(t, IF CheckBefore THEN "reserve" ELSE "room") /\ UNCHANGED <<Stor, Resv, writing, row, base, pos, ptr>>
Room(t) == /\ pc[t] = "room"
           /\ Go(t, IF nnz + Lens[row[t]] > cap THEN (IF NoWait THEN "grow" ELSE "wait") ELSE (IF CheckBefore THEN "enter" ELSE "reserve"))
           /\ UNCHANGED <<Stor, Resv, writing, lock, row, base, pos, ptr>>
Wait(t) == /\ pc[t] = "wait" /\ writing = 0 /\ Go(t, "grow")
           /\ UNCHANGED <<Stor, Resv, writing, lock, row, base, pos, ptr>>
Grow(t) == /\ pc[t] = "grow"
           /\ LET c == 2 * cap + Lens[row[t]] IN
              /\ RS!SGrow(c)
              /\ slot' = [s \in 0..(c - 1) |-> IF s < cap THEN slot[s] ELSE <<>>]
           /\ Go(t, IF CheckBefore THEN "enter" ELSE "reserve") /\ UNCHANGED <<Resv, writing, lock, row, base, pos, ptr>>
Reserve(t) == /\ pc[t] = "reserve"
              /\ nrow' = nrow + 1 /\ nnz' = nnz + Lens[row[t]] /\ start' = Append(start, <<row[t], nnz>>)
              /\ base' = [base EXCEPT ![t] = nnz]
              /\ Go(t, IF LateRegister THEN "leave" ELSE "register") /\ UNCHANGED <<Stor, next, writing, lock, row, pos, ptr>>
Register(t) == /\ pc[t] = "register" /\ writing' = writing + 1
               /\ Go(t, IF LateRegister THEN "load" ELSE "leave") /\ UNCHANGED <<Stor, Resv, lock, row, base, pos, ptr>>
Leave(t) == /\ pc[t] = "leave" /\ lock' = Free
            /\ Go(t, IF LateRegister THEN "register" ELSE "load") /\ UNCHANGED <<Stor, Resv, writing, row, base, pos, ptr>>
(* a store reads the shared pointer to the array, then writes through it *)
Where(t) == IF SharedBase THEN start[Len(start)][2] ELSE base[t]
LoadPtr(t) == /\ pc[t] = "load"
              /\ IF pos[t] < Lens[row[t]] THEN ptr' = [ptr EXCEPT ![t] = gen] /\ Go(t, "store") ELSE ptr' = ptr /\ Go(t, "done")
              /\ UNCHANGED <<Stor, Resv, writing, lock, row, base, pos>>
Store(t) == /\ pc[t] = "store"
            /\ LET s == Where(t) + pos[t] IN
               IF RS!CanWrite(t, ptr[t], s)
               THEN RS!SWrite(t, ptr[t], s) /\ slot' = [slot EXCEPT ![s] = <<row[t], pos[t]>>]
               ELSE FALSE                              \* excluded by Safe
            /\ pos' = [pos EXCEPT ![t] = @ + 1]
            /\ Go(t, "load") /\ UNCHANGED <<Resv, writing, lock, row, base, ptr>>
Finish(t) == /\ pc[t] = "done" /\ writing' = writing - 1 /\ Go(t, "idle")
             /\ UNCHANGED <<Stor, Resv, lock, row, base, pos, ptr>>
Terminated == next > NRows /\ \A t \in Threads : pc[t] = "idle"
Step(t) == Take(t) \/ Enter(t) \/ Room(t) \/ Wait(t) \/ Grow(t) \/ Reserve(t) \/ Register(t) \/ Leave(t) \/ LoadPtr(t) \/ Store(t) \/ Finish(t)
Next == (\E t \in Threads : Step(t)) \/ (Terminated /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : WF_vars(Step(t))
(* ---- properties ---- *)
Safe == \A t \in Threads : pc[t] = "store" => RS!CanWrite(t, ptr[t], Where(t) + pos[t])
Writers == writing = Cardinality({t \in Threads : pc[t] \in {"leave", "load", "store", "done"} \/ (LateRegister /\ pc[t] \in {})})
Exclusive == \A t \in Threads : pc[t] \in {"wait", "grow", "reserve", "register", "leave"} => lock = t
Result == Terminated =>
            /\ nrow = NRows /\ {start[k][1] : k \in 1..nrow} = 1..NRows
            /\ \A k \in 1..nrow : \A q \in 0..(Lens[start[k][1]] - 1) : slot[start[k][2] + q] = <<start[k][1], q>>
            /\ \A k \in 1..(nrow - 1) : start[k + 1][2] = start[k][2] + Lens[start[k][1]]
            /\ writing = 0 /\ lock = Free
Terminates == <>Terminated
(* every step of the protocol is a step of RowStore on the storage, or leaves it alone *)
Implements == [][\/ UNCHANGED <<cap, gen, own>>
                 \/ \E t \in Threads, s \in 0..(cap - 1) : RS!SWrite(t, gen, s)
                 \/ \E c \in cap..(3 * cap + 10) : RS!SGrow(c)]_<<cap, gen, own>>
===============================================================================
