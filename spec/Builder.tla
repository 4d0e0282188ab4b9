---- MODULE Builder ----
(* spasm_compress: counting sort of the triplets by row, in-place removal of duplicates with a table of last
   positions, in-place removal of zeros.  Modulo 3, N x M, every sequence of at most K entries (zero included:
   entries read from elsewhere may cancel).  Switches turn on mistakes; the first two were in the code.       *)
EXTENDS Integers, Sequences
CONSTANTS N, M, K,
          StaleBound,     \* zero removal reads the row limits it has just overwritten
          OldStart,       \* duplicates are recognised by the row's old start, not its new one
          KeepZero,       \* cancelled entries stay
          LastWins        \* duplicates overwrite
VARIABLES T, Cp, C, w, pc, i, it, nz, v, start, rowstart
vars == <<T, Cp, C, w, pc, i, it, nz, v, start, rowstart>>
R == 0 .. N - 1
Q == 0 .. M - 1
Entries == [i : R, j : Q, x : 0 .. 2]
RECURSIVE Pre(_, _)
Pre(t, r) == IF r = 0 THEN 0 ELSE Pre(t, r - 1) + Len(SelectSeq(t, LAMBDA e : e.i = r - 1))
Init == /\ T \in UNION {[1 .. k -> Entries] : k \in 0 .. K}
        /\ Cp = [r \in 0 .. N |-> Pre(T, r)]
        /\ w = [r \in R |-> Pre(T, r)]
        /\ C = [k \in 0 .. Len(T) - 1 |-> <<-1, 0>>]
        /\ pc = "dispatch" /\ i = 0 /\ it = 0 /\ nz = 0 /\ v = [j \in Q |-> -1] /\ start = 0 /\ rowstart = 0
Dispatch == /\ pc = "dispatch"
            /\ IF it = Len(T) THEN pc' = "dedup" /\ it' = 0 /\ i' = 0 /\ UNCHANGED <<C, w>>
               ELSE LET e == T[it + 1] IN
                    /\ C' = [C EXCEPT ![w[e.i]] = <<e.j, e.x>>]
                    /\ w' = [w EXCEPT ![e.i] = @ + 1]
                    /\ it' = it + 1 /\ UNCHANGED <<pc, i>>
            /\ UNCHANGED <<T, Cp, nz, v, start, rowstart>>
(* one row after the other; rowstart is the new start of row i, written when the row is finished *)
Dedup == /\ pc = "dedup"
         /\ IF i = N THEN /\ Cp' = [Cp EXCEPT ![N] = nz]
                          /\ pc' = "zeros" /\ i' = 0 /\ it' = 0 /\ nz' = 0 /\ start' = 0 /\ UNCHANGED <<C, v, rowstart>>
            ELSE IF it < Cp[i + 1] /\ it >= Cp[i]
                 THEN LET j == C[it][1] IN
                      /\ IF v[j] < (IF OldStart THEN Cp[i] ELSE rowstart)
                         THEN v' = [v EXCEPT ![j] = nz] /\ C' = [C EXCEPT ![nz] = C[it]] /\ nz' = nz + 1
                         ELSE C' = [C EXCEPT ![v[j]] = <<j, IF LastWins THEN C[it][2] ELSE (C[v[j]][2] + C[it][2]) % 3>>] /\ UNCHANGED <<v, nz>>
                      /\ it' = it + 1 /\ UNCHANGED <<Cp, pc, i, start, rowstart>>
                 ELSE /\ Cp' = [Cp EXCEPT ![i] = rowstart]
                      /\ rowstart' = nz /\ i' = i + 1 /\ it' = Cp[i + 1] /\ UNCHANGED <<C, v, nz, pc, start>>
         /\ UNCHANGED <<T, w>>
Lower == IF StaleBound THEN Cp[i] ELSE start
Zeros == /\ pc = "zeros"
         /\ IF i = N THEN pc' = "done" /\ UNCHANGED <<C, Cp, nz, i, it, start>>
            ELSE IF it < Cp[i + 1]
                 THEN /\ IF C[it][2] = 0 /\ ~KeepZero THEN UNCHANGED <<C, nz>>
                         ELSE C' = [C EXCEPT ![nz] = C[it]] /\ nz' = nz + 1
                      /\ it' = it + 1 /\ UNCHANGED <<Cp, i, pc, start>>
                 ELSE /\ start' = Cp[i + 1]
                      /\ Cp' = [Cp EXCEPT ![i + 1] = nz]
                      /\ it' = IF StaleBound THEN nz ELSE Cp[i + 1]
                      /\ i' = i + 1 /\ UNCHANGED <<C, nz, pc>>
         /\ UNCHANGED <<T, w, v, rowstart>>
Done == pc = "done" /\ UNCHANGED vars
Next == Dispatch \/ Dedup \/ Zeros \/ Done
Spec == Init /\ [][Next]_vars
RECURSIVE Sum(_, _, _)
Sum(t, r, c) == IF t = <<>> THEN 0 ELSE (Sum(Tail(t), r, c) + IF Head(t).i = r /\ Head(t).j = c THEN Head(t).x ELSE 0) % 3
Row(r) == [k \in 1 .. Cp[r + 1] - Cp[r] |-> C[Cp[r] + k - 1]]
Correct == pc = "done" =>
   /\ Cp[0] = 0 /\ \A r \in R : Cp[r] <= Cp[r + 1]
   /\ \A r \in R : LET s == Row(r) IN
        /\ \A a, b \in DOMAIN s : a /= b => s[a][1] /= s[b][1]
        /\ \A c \in Q : Sum(T, r, c) = (IF \E a \in DOMAIN s : s[a][1] = c THEN s[CHOOSE a \in DOMAIN s : s[a][1] = c][2] ELSE 0)
        /\ \A a \in DOMAIN s : s[a][2] /= 0
Ahead == nz <= it \/ pc \in {"dispatch", "done"} \/ i = N      \* in place: writes never overtake reads
====
