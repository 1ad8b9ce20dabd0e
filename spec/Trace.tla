------------------------------- MODULE Trace --------------------------------
(* Checks a recorded trace of the real library against the specification.    *)
(* One step consumes one event.  An event the specification explains is      *)
(* accepted; any other is rejected, remembered, and checking goes on so that *)
(* one bad event does not hide the rest.  The trace is a behaviour of the    *)
(* specification iff nothing was rejected, which is the postcondition.       *)
(*                                                                           *)
(* TRACE names the file (one JSON object per line), PROP the property.       *)
EXTENDS Events, Json, IOUtils, TLCExt

Log == ndJsonDeserialize(IOEnv.TRACE)
Prop == IOEnv.PROP

VARIABLES l, rejected
vars == <<l, rejected>>

Init == l = 1 /\ rejected = 0

Consume ==
  /\ l <= Len(Log)
  /\ l' = l + 1
  /\ LET e == Log[l]
         ok == Explains(Prop, e)
     IN /\ IF ok THEN rejected' = rejected
           ELSE /\ rejected' = rejected + 1
                /\ (rejected < 20 => PrintT(<<"REJECT", l>>))
        /\ TLCSet(1, l)
        /\ TLCSet(2, rejected')

Spec == Init /\ [][Consume]_vars

Done == /\ TLCGet(1) = Len(Log)
        /\ PrintT(<<"TRACE", Len(Log), "REJECTED", TLCGet(2)>>)
        /\ TLCGet(2) = 0
ASSUME TLCSet(1, 0) /\ TLCSet(2, 0)
=============================================================================
