---- MODULE SmsLayers ----
(* The two descriptions of the file format agree: the grammar over lines (SmsReader) and the meaning of bytes
   (Sms), which judges the real reader.  Every file of at most 4 lines, the longest without long lines.    *)
EXTENDS Sms
VARIABLE file
R == INSTANCE SmsReader WITH MaxLines <- 4, EofEnds <- FALSE, FaultEnds <- FALSE, MarkEndsMM <- FALSE, NoEmpty <- FALSE, OneComment <- FALSE,
                             DigestStops <- FALSE, Split <- FALSE, fault <- FALSE, pos <- 0, pc <- "first", mm <- FALSE, want <- -1, got <- <<>>,
                             digest <- <<>>, skipped <- 0
T(i, j, x) == <<48 + i, 32, 48 + j, 32, 48 + x>>
BannerBytes(last) == Banner \o <<32>> \o Matrix \o <<32>> \o Coordinate \o <<32>> \o Integer \o <<32>> \o last
Write(x) == CASE x = "hdr" -> <<50, 32, 50, 32, 77>>
              [] x = "ban" -> BannerBytes(General)
              [] x = "oban" -> BannerBytes(Matrix)
              [] x = "com" -> <<37, 32, 49, 32, 49, 32, 49>>
              [] x = "t0" -> T(2, 2, 0) [] x = "t1" -> T(2, 2, 1) [] x = "t2" -> T(2, 2, 2)
              [] x = "mark" -> T(0, 0, 0)
              [] x = "bad" -> <<49, 32, 120, 32, 49>>
              [] x = "long" -> T(1, 1, 1) \o [k \in 1 .. 1100 |-> 32]
Bytes == FoldLeft(LAMBDA b, x : b \o Write(x) \o <<10>>, <<>>, file)
NoRecord(r) == {}
Init == l = 0 /\ file \in UNION {[1 .. k -> R!Kinds] : k \in 0 .. 3} \cup [1 .. 4 -> R!Kinds \ {"long", "oban"}]
Next == UNCHANGED <<file, l>>
Spec == Init /\ [][Next]_<<file, l>>
Longs == \E k \in 1 .. Len(file) : file[k] = "long"
Agree == LET M == Meaning(Bytes, FALSE) IN
         IF R!Ends = {} THEN M.v = "refuse" \/ Longs
         ELSE LET e == CHOOSE k \in R!Ends : TRUE IN
              /\ M.v /= "refuse"
              /\ M.v = "accept" <=> e = Len(file)
              /\ Len(M.ent) = Len(R!Entries)
              /\ \A k \in 1 .. Len(M.ent) : M.ent[k] = [i |-> 2, j |-> 2, neg |-> FALSE, d |-> <<R!Third(file[R!Entries[k]])>>]
====
