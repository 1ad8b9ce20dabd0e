------------------------------- MODULE Session ------------------------------
(* A process that converts: threads ask for conversions, a conversion may be *)
(* interrupted by another one on the same thread (a signal handler, or the   *)
(* caller's special-case handler) or abandoned (the handler throws), and     *)
(* every answer is the one the request gets in a process that does nothing   *)
(* else.                                                                     *)
EXTENDS Naturals, Sequences, TLC

VARIABLES alone,   \* request -> its answer in a process of its own
          busy     \* thread -> requests in progress, the innermost last

Threads == 0..63

CanLearn(a, r) == a \in DOMAIN alone => alone[a] = r
CanCall(t, a) == t \in Threads /\ a \in DOMAIN alone
CanReturn(t, a, r) == /\ t \in Threads
                      /\ busy[t] # <<>> /\ busy[t][Len(busy[t])] = a
                      /\ alone[a] = r

Learn(a, r) == /\ CanLearn(a, r)
               /\ alone' = (a :> r) @@ alone
               /\ UNCHANGED busy
Call(t, a) == /\ CanCall(t, a)
              /\ busy' = [busy EXCEPT ![t] = Append(@, a)]
              /\ UNCHANGED alone
Return(t, a, r) == /\ CanReturn(t, a, r)
                   /\ busy' = [busy EXCEPT ![t] = SubSeq(@, 1, Len(@) - 1)]
                   /\ UNCHANGED alone
\* left by an exception of the caller's handler: no answer, and no trace in later ones
CanLeave(t, a) == t \in Threads /\ busy[t] # <<>> /\ busy[t][Len(busy[t])] = a
Leave(t, a) == /\ CanLeave(t, a)
               /\ busy' = [busy EXCEPT ![t] = SubSeq(@, 1, Len(@) - 1)]
               /\ UNCHANGED alone
Begin == busy' = [t \in Threads |-> <<>>] /\ UNCHANGED alone     \* a fresh process

SessionInit == alone = <<>> /\ busy = [t \in Threads |-> <<>>]
=============================================================================
