---- MODULE Grow ----
(* Threads that put the items 1..N into one store made of parallel arrays (columns, coefficients), which a thread      *)
(* enlarges under a lock, one array after the other, when it is full; at the end the store is trimmed by one thread,   *)
(* after a barrier.  Every request for memory may be refused.  What the code does on a refusal is the constant         *)
(* OnRefusal; "stop" ends the whole process with a message and a failure status.                                       *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS T,             \* number of threads
          N,             \* items
          Arrays,        \* number of parallel arrays
          OnRefusal      \* stop, silent, ignore, null, drop, quit, keeplock
VARIABLES pc, mine, next, size, cap, len, store, lock, arr, status, said, refused, left
vars == <<pc, mine, next, size, cap, len, store, lock, arr, status, said, refused, left>>
Th == 1 .. T
Ar == 1 .. Arrays
Init == /\ pc = [t \in Th |-> "take"] /\ mine = [t \in Th |-> 0] /\ next = 1
        /\ size = [a \in Ar |-> 1] /\ cap = 1 /\ len = 0 /\ store = {} /\ lock = 0 /\ arr = 1
        /\ status = "running" /\ said = FALSE /\ refused = FALSE /\ left = {}
Running == status = "running"
Go(t, l) == pc' = [pc EXCEPT ![t] = l]
(* the next item, or the barrier when none is left *)
Take(t) == /\ Running /\ pc[t] = "take"
           /\ IF next > N THEN Go(t, "barrier") /\ UNCHANGED <<mine, next>>
              ELSE Go(t, "enter") /\ mine' = [mine EXCEPT ![t] = next] /\ next' = next + 1
           /\ UNCHANGED <<size, cap, len, store, lock, arr, status, said, refused, left>>
Enter(t) == /\ Running /\ pc[t] = "enter" /\ lock = 0 /\ lock' = t
            /\ IF len < cap THEN Go(t, "write") /\ UNCHANGED arr ELSE Go(t, "grow") /\ arr' = 1
            /\ UNCHANGED <<mine, next, size, cap, len, store, status, said, refused, left>>
(* one array is enlarged *)
Granted(t, a, want) == size' = [size EXCEPT ![a] = want] /\ UNCHANGED <<status, said, refused, left, store>>
(* what follows a refusal: TRUE when the thread goes on as if nothing had happened *)
Refused(t, a) ==
    /\ refused' = TRUE
    /\ CASE OnRefusal = "stop" -> status' = "failure" /\ said' = TRUE /\ UNCHANGED <<size, left, store>>
         [] OnRefusal = "silent" -> status' = "success" /\ UNCHANGED <<said, size, left, store>>
         [] OnRefusal = "null" -> size' = [size EXCEPT ![a] = 0] /\ UNCHANGED <<status, said, left, store>>
         [] OTHER -> UNCHANGED <<size, status, said, left, store>>
Grow(t) == /\ Running /\ pc[t] = "grow"
           /\ \/ /\ Granted(t, arr, 1 + 2 * cap)
                 /\ IF arr < Arrays THEN arr' = arr + 1 /\ UNCHANGED <<pc, cap, lock>> ELSE Go(t, "write") /\ cap' = 1 + 2 * cap /\ UNCHANGED <<arr, lock>>
                 /\ UNCHANGED <<mine, next, len>>
              \/ /\ OnRefusal \notin {"drop", "quit", "keeplock"} /\ Refused(t, arr)
                 /\ IF arr < Arrays THEN arr' = arr + 1 /\ UNCHANGED <<pc, cap, lock>> ELSE Go(t, "write") /\ cap' = 1 + 2 * cap /\ UNCHANGED <<arr, lock>>
                 /\ UNCHANGED <<mine, next, len>>
              \/ /\ OnRefusal = "drop" /\ refused' = TRUE /\ lock' = 0 /\ Go(t, "take")
                 /\ UNCHANGED <<mine, next, size, cap, len, store, arr, status, said, left>>
              \/ /\ OnRefusal \in {"quit", "keeplock"} /\ refused' = TRUE /\ lock' = (IF OnRefusal = "quit" THEN 0 ELSE lock)
                 /\ left' = left \cup {t} /\ Go(t, "gone") /\ said' = TRUE
                 /\ UNCHANGED <<mine, next, size, cap, len, store, arr, status>>
Write(t) == /\ Running /\ pc[t] = "write" /\ store' = store \cup {<<len + 1, mine[t]>>} /\ len' = len + 1 /\ lock' = 0 /\ Go(t, "take")
            /\ UNCHANGED <<mine, next, size, cap, arr, status, said, refused, left>>
(* the barrier opens when all threads are there; thread 1 then trims the arrays *)
Meet == /\ Running /\ \A t \in Th : pc[t] = "barrier" /\ arr' = 1
        /\ pc' = [t \in Th |-> IF t = 1 THEN "trim" ELSE "done"]
        /\ UNCHANGED <<mine, next, size, cap, len, store, lock, status, said, refused, left>>
Trim == /\ Running /\ pc[1] = "trim"
        /\ \/ Granted(1, arr, len)
           \/ Refused(1, arr)
        /\ IF arr < Arrays THEN arr' = arr + 1 /\ UNCHANGED <<pc, cap>> ELSE Go(1, "end") /\ cap' = len /\ UNCHANGED arr
        /\ UNCHANGED <<mine, next, len, lock>>
End == /\ Running /\ pc[1] = "end" /\ status' = "success" /\ UNCHANGED <<pc, mine, next, size, cap, len, store, lock, arr, said, refused, left>>
Stay == ~Running /\ UNCHANGED vars
Next == (\E t \in Th : Take(t) \/ Enter(t) \/ Grow(t) \/ Write(t)) \/ Meet \/ Trim \/ End \/ Stay
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
(* nothing is written outside the arrays *)
Inside == \A e \in store : status = "running" => \A a \in Ar : e[1] <= size[a]
(* success: everything is there, each item once, and in every array *)
Right == status = "success" => /\ len = N /\ {e[2] : e \in store} = 1 .. N /\ \A a \in Ar : size[a] >= len
Explained == status = "failure" => refused /\ said
Terminates == <>(status # "running")
====
