----------------------------- MODULE MCSchedule -----------------------------
(* The ways at most three threads, each making one conversion, can share a   *)
(* processor with a bounded number of changes of thread.  A segment <<t, x>> *)
(* lets thread t run: to the end of its conversion ("rest"), for some while  *)
(* ("some"), or has it interrupted by a nested conversion ("nest").  Every   *)
(* complete behaviour is printed and replayed into the real library, with    *)
(* concrete step counts for "some".                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS NThreads, MaxSegments
VARIABLES seg, done, started

Init == seg = <<>> /\ done = {} /\ started = 0

\* threads start in order of their numbers
May(t) == t \notin done /\ t <= started + 1 /\ t <= NThreads

Run(t, x) ==
  /\ May(t) /\ Len(seg) < MaxSegments
  /\ (seg # <<>> /\ x # "nest") => (seg[Len(seg)][1] # t \/ seg[Len(seg)][2] = "nest")
  /\ x = "nest" => (seg # <<>> /\ seg[Len(seg)] = <<t, "some">>)
  /\ seg' = Append(seg, <<t, x>>)
  /\ started' = IF t > started THEN t ELSE started
  /\ done' = IF x = "rest" THEN done \cup {t} ELSE done

Complete == started > 1 /\ done = 1..started
Next == /\ \E t \in 1..NThreads, x \in {"some", "rest", "nest"} : Run(t, x)
        /\ (done' = 1..started' /\ started' > 1) => PrintT(<<"SCHEDULE", [i \in DOMAIN seg' |-> seg'[i][1]], [i \in DOMAIN seg' |-> seg'[i][2]]>>)
Spec == Init /\ [][Next]_<<seg, done, started>>

\* every schedule is one Session allows: each thread calls once and returns once
TypeOK == /\ \A i \in DOMAIN seg : seg[i][1] \in 1..NThreads
          /\ \A t \in done : Cardinality({i \in DOMAIN seg : seg[i] = <<t, "rest">>}) = 1
=============================================================================
