---- MODULE SmsReader ----
(* The matrix reader of spasm_io.c as an automaton over abstract lines, for every file of at most MaxLines lines
   of these kinds, ended by the end of the file or by a read error.
     hdr   two dimensions and a type         ban / oban  MatrixMarket banner, supported or not
     com   a comment                         t0 t1 t2    three numbers, positive indices, third number 0 1 2
     mark  0 0 0                             bad         anything else (blank, words, index out of range)
     long  a line that does not fit in the buffer
   The oracle is the grammar of the two formats, stated on the whole file.  Switches turn on mistakes.      *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS MaxLines,
          EofEnds,         \* the end of the file ends an SMS matrix
          FaultEnds,       \* a read error is taken for the end of the file
          MarkEndsMM,      \* the end marker ends a MatrixMarket matrix
          NoEmpty,          \* a MatrixMarket matrix without entries is not ended at once
          OneComment,      \* only one comment line is skipped
          DigestStops,     \* lines after the end are not digested
          Split            \* a long line is read as two lines (two entries)
Kinds == {"hdr", "ban", "oban", "com", "t0", "t1", "t2", "mark", "bad", "long"}
Triple == {"t0", "t1", "t2"}
Comment == {"com", "ban", "oban"}      \* everything that begins with a percent sign
Third(x) == CASE x \in {"t0", "mark"} -> 0 [] x = "t1" -> 1 [] x = "t2" -> 2
VARIABLES file, fault, pos, pc, mm, want, got, digest, skipped
vars == <<file, fault, pos, pc, mm, want, got, digest, skipped>>
Init == /\ file \in UNION {[1 .. k -> Kinds] : k \in 0 .. MaxLines}
        /\ fault \in BOOLEAN
        /\ pos = 0 /\ pc = "first" /\ mm = FALSE /\ want = -1 /\ got = <<>> /\ digest = <<>> /\ skipped = 0

(* what read_line gives next: a line, "eof" or "error" *)
Line == IF pos < Len(file) THEN (IF file[pos + 1] = "long" THEN (IF Split THEN "t1" ELSE "error") ELSE file[pos + 1])
        ELSE IF fault /\ ~FaultEnds THEN "error" ELSE "eof"
Take == /\ pos' = pos + 1
        /\ digest' = IF DigestStops /\ pc = "drain" THEN digest ELSE Append(digest, pos + 1)
Stay == UNCHANGED <<pos, digest>>
Refuse == pc' = "refused" /\ Stay /\ UNCHANGED <<mm, want, got, skipped>>
First == /\ pc = "first"
         /\ IF Line \in {"eof", "error", "oban", "com", "bad", "mark"} \cup Triple THEN Refuse
            ELSE /\ Take /\ mm' = (Line = "ban") /\ pc' = (IF Line = "ban" THEN "dims" ELSE "body")
                 /\ UNCHANGED <<want, got, skipped>>
         /\ UNCHANGED <<file, fault>>
Dims == /\ pc = "dims"
        /\ IF Line \in Comment /\ ~(OneComment /\ skipped = 1)
           THEN Take /\ skipped' = skipped + 1 /\ UNCHANGED <<pc, mm, want, got>>
           ELSE IF Line \in Triple \cup {"mark"}
           THEN /\ Take /\ want' = Third(Line) /\ pc' = (IF Third(Line) = 0 /\ ~NoEmpty THEN "drain" ELSE "body")
                /\ UNCHANGED <<mm, got, skipped>>
           ELSE Refuse
        /\ UNCHANGED <<file, fault>>
Body == /\ pc = "body"
        /\ IF Line \in Triple
           THEN /\ Take /\ got' = Append(got, pos + 1)
                /\ pc' = (IF mm /\ Len(got) + 1 = want THEN "drain" ELSE "body")
                /\ UNCHANGED <<mm, want, skipped>>
           ELSE IF Line = "mark" /\ (~mm \/ MarkEndsMM)
           THEN Take /\ pc' = "drain" /\ UNCHANGED <<mm, want, got, skipped>>
           ELSE IF Line = "eof" /\ EofEnds /\ ~mm
           THEN Stay /\ pc' = "ok" /\ UNCHANGED <<mm, want, got, skipped>>
           ELSE Refuse
        /\ UNCHANGED <<file, fault>>
Drain == /\ pc = "drain"
         /\ IF Line = "eof" THEN pc' = "ok" /\ Stay /\ UNCHANGED <<mm, want, got, skipped>>
            ELSE IF Line = "error" THEN Refuse
            ELSE Take /\ UNCHANGED <<pc, mm, want, got, skipped>>        \* a warning
         /\ UNCHANGED <<file, fault>>
Done == pc \in {"ok", "refused"} /\ UNCHANGED vars
Next == First \/ Dims \/ Body \/ Drain \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(First \/ Dims \/ Body \/ Drain)

(* the grammar: the last line of the matrix, 0 if the file is none *)
All(a, b, S) == \A k \in a .. b : file[k] \in S
SmsEnds == {k \in 2 .. Len(file) : file[1] = "hdr" /\ All(2, k - 1, Triple) /\ file[k] = "mark"}
MmDims == {d \in 2 .. Len(file) : file[1] = "ban" /\ All(2, d - 1, Comment) /\ file[d] \in Triple \cup {"mark"}}
MmEnds == {d + Third(file[d]) : d \in {d \in MmDims : d + Third(file[d]) <= Len(file) /\ All(d + 1, d + Third(file[d]), Triple)}}
Ends == SmsEnds \cup MmEnds
Entries == LET e == CHOOSE k \in Ends : TRUE
               s == IF file[1] = "hdr" THEN 2 ELSE (CHOOSE d \in MmDims : TRUE) + 1
               t == IF file[1] = "hdr" THEN e - 1 ELSE e IN
           [k \in 1 .. t - s + 1 |-> s + k - 1]
Unambiguous == Cardinality(Ends) <= 1
Complete == pc = "ok" => /\ Ends /= {} /\ ~fault
                         /\ got = Entries
                         /\ digest = [k \in 1 .. Len(file) |-> k]
Welcome == pc = "refused" => \/ Ends = {} \/ fault
                             \/ \E e \in Ends, k \in 1 .. Len(file) : k > e /\ file[k] = "long"   \* garbage after the matrix
Room == pc \in {"body", "drain"} /\ mm => Len(got) <= want     \* never more entries than were announced
Terminates == <>(pc \in {"ok", "refused"})
====
