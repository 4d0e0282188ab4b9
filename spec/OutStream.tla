---- MODULE OutStream ----
(* A writer over a buffered stream over a device that may refuse bytes, for ever or for a while.  The writer   *)
(* produces the records 1..N, then decides between success and failure; the caller then closes the stream      *)
(* (what is still buffered goes out) and reports.  Success must mean that the device holds exactly 1..N.        *)
EXTENDS Integers, Sequences
CONSTANTS N, B,          \* records; size of the buffer
          Faults,        \* how many transfers the device may refuse
          Flush,         \* the writer empties the buffer and looks at the result before deciding
          Look,          \* the writer looks at the error indicator of the stream before deciding
          Close,         \* the caller looks at the result of closing
          Sticky         \* once a transfer was refused every later one is (a full disk)
VARIABLES pc, made, buf, dev, err, left, refused, said
vars == <<pc, made, buf, dev, err, left, refused, said>>
Init == pc = "write" /\ made = 0 /\ buf = <<>> /\ dev = <<>> /\ err = FALSE /\ left = Faults /\ refused = FALSE /\ said = "none"
(* one transfer of the buffer: everything, or a part followed by an error; what was refused is lost or kept *)
Transfer(ok, out) == 
    \/ ~(Sticky /\ refused) /\ dev' = dev \o buf /\ buf' = <<>> /\ UNCHANGED <<err, left, refused>> /\ ok /\ ~out
    \/ (left > 0 \/ (Sticky /\ refused)) /\ out /\ ~ok
       /\ \E k \in 0 .. Len(buf) - 1 : \E keep \in BOOLEAN :
             /\ dev' = dev \o SubSeq(buf, 1, k)
             /\ buf' = IF keep THEN SubSeq(buf, k + 1, Len(buf)) ELSE <<>>
       /\ err' = TRUE /\ refused' = TRUE /\ left' = IF left > 0 THEN left - 1 ELSE 0
Put == pc = "write" /\ made < N /\ Len(buf) < B /\ made' = made + 1 /\ buf' = Append(buf, made + 1)
       /\ UNCHANGED <<pc, dev, err, left, refused, said>>
Drain == pc = "write" /\ Len(buf) = B /\ (\E b \in BOOLEAN : Transfer(b, ~b)) /\ UNCHANGED <<pc, made, said>>
Stop == pc = "write" /\ made = N /\ pc' = (IF Flush THEN "flush" ELSE "look") /\ UNCHANGED <<made, buf, dev, err, left, refused, said>>
DoFlush == pc = "flush" /\ pc' = "look" /\ UNCHANGED made
           /\ IF buf = <<>> THEN UNCHANGED <<buf, dev, err, left, refused, said>>
              ELSE \E b \in BOOLEAN : Transfer(b, ~b) /\ said' = IF b THEN said ELSE "failure"
DoLook == pc = "look" /\ pc' = "close" /\ said' = (IF Look /\ err THEN "failure" ELSE said) /\ UNCHANGED <<made, buf, dev, err, left, refused>>
DoClose == pc = "close" /\ pc' = "done" /\ UNCHANGED made
           /\ IF buf = <<>> THEN UNCHANGED <<buf, dev, err, left, refused>> /\ said' = IF said = "failure" THEN said ELSE "success"
              ELSE \E b \in BOOLEAN : Transfer(b, ~b) /\ said' = IF said = "failure" \/ (Close /\ ~b) THEN "failure" ELSE "success"
Done == pc = "done" /\ UNCHANGED vars
Next == Put \/ Drain \/ Stop \/ DoFlush \/ DoLook \/ DoClose \/ Done
Spec == Init /\ [][Next]_vars
Whole == [k \in 1 .. N |-> k]
SuccessMeansWhole == said = "success" => dev = Whole
NoFaultNoFailure == said = "failure" => refused
NothingInvented == \A k \in 1 .. Len(dev) : dev[k] \in 1 .. N
====
