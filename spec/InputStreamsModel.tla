-------------------------- MODULE InputStreamsModel --------------------------
(* The buffering algorithm over a windowed stream, step by step: the wrapped *)
(* stream's position ip, the buffer (cnt bytes that end at ip, bp of them    *)
(* already handed out) against the one position s.pos of the specification.  *)
(* Bytes are their own positions.                                            *)
EXTENDS InputStreams, TLC
CONSTANTS N,        \* bytes in the sequence
          Cap,      \* buffer size
          Sizes     \* request sizes
VARIABLES s, ip, cnt, bp, out, want, from, pc
vars == <<s, ip, cnt, bp, out, want, from, pc>>
TypeOK == ip \in 0..N /\ cnt \in 0..Cap /\ bp \in 0..cnt
Init == s = Stream(N) /\ ip = 0 /\ cnt = 0 /\ bp = 0 /\ out = <<>> /\ want = 0 /\ from = 0 /\ pc = "idle"
Min(a, b) == IF a < b THEN a ELSE b
Run(a, b) == [k \in 1..(b - a) |-> a + k - 1]
Read == pc = "idle" /\ \E n \in Sizes : want' = n /\ out' = <<>> /\ from' = s.pos /\ pc' = "fetch" /\ UNCHANGED <<s, ip, cnt, bp>>
Fetch ==
  /\ pc = "fetch"
  /\ LET left == want - Len(out) avail == cnt - bp IN
     IF left = 0 THEN pc' = "done" /\ s' = Seek(s, from + want) /\ UNCHANGED <<ip, cnt, bp, out>>
     ELSE IF avail = 0 /\ left >= Cap THEN          \* straight from the wrapped stream
        LET m == Min(left, N - ip) IN
        IF m = 0 THEN pc' = "refused" /\ UNCHANGED <<s, ip, cnt, bp, out>>
        ELSE out' = out \o Run(ip, ip + m) /\ ip' = ip + m /\ UNCHANGED <<s, cnt, bp, pc>>
     ELSE IF avail = 0 THEN                          \* fill
        LET m == Min(Cap, N - ip) IN
        IF m = 0 THEN pc' = "refused" /\ cnt' = 0 /\ bp' = 0 /\ UNCHANGED <<s, ip, out>>
        ELSE ip' = ip + m /\ cnt' = m /\ bp' = 0 /\ UNCHANGED <<s, out, pc>>
     ELSE LET m == Min(avail, left) IN
          /\ out' = out \o Run(ip - cnt + bp, ip - cnt + bp + m) /\ bp' = bp + m /\ UNCHANGED <<s, ip, cnt, pc>>
  /\ UNCHANGED <<want, from>>
Finish == pc \in {"done", "refused"} /\ pc' = "idle" /\ out' = <<>>
          /\ s' = (IF pc = "refused" THEN Seek(s, ip - cnt + bp) ELSE s)
          /\ UNCHANGED <<ip, cnt, bp, want, from>>
DoSeek == pc = "idle" /\ \E p \in 0..N : \E rel \in BOOLEAN :
            \* a relative seek is computed from the logical position
            /\ ip' = (IF rel THEN (ip - cnt + bp) + (p - s.pos) ELSE p) /\ cnt' = 0 /\ bp' = 0 /\ s' = Seek(s, p)
            /\ UNCHANGED <<out, want, from, pc>>
Next == Read \/ Fetch \/ Finish \/ DoSeek
Position == pc = "idle" => ip - cnt + bp = s.pos
Delivered == pc = "done" => out = Run(from, from + want)
OnlyIfShort == pc = "refused" => from + want > N
Total == pc = "fetch" => Len(out) <= want
=============================================================================
