---------------------------- MODULE SessionTrace ----------------------------
(* Checks a recorded session of the real library against Session.            *)
(* Events: alone (a request a and its answer r in a process of its own),     *)
(* begin (a fresh process), call (thread t, request a), ret (t, a, answer),  *)
(* left (t, a: the handler of a threw).                                      *)
(* Anything else (crash, race, hang) is explained by no action.              *)
EXTENDS Session, Json, IOUtils, TLCExt

Log == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, rejected
vars == <<alone, busy, l, rejected>>

Init == SessionInit /\ l = 1 /\ rejected = 0

Explained(e) ==
  CASE e.k = "alone" -> CanLearn(e.a, e.r)
    [] e.k = "begin" -> TRUE
    [] e.k = "call" -> CanCall(e.t, e.a)
    [] e.k = "ret" -> CanReturn(e.t, e.a, e.r)
    [] e.k = "left" -> CanLeave(e.t, e.a)
    [] OTHER -> FALSE

Step(e) ==
  CASE e.k = "alone" -> Learn(e.a, e.r)
    [] e.k = "begin" -> Begin
    [] e.k = "call" -> Call(e.t, e.a)
    [] e.k = "ret" -> Return(e.t, e.a, e.r)
    [] e.k = "left" -> Leave(e.t, e.a)
    [] OTHER -> FALSE

\* after a rejected return the thread goes on as if the answer had been right
Skip(e) == /\ alone' = alone
           /\ busy' = IF e.k \in {"ret", "left"} /\ e.t \in Threads /\ busy[e.t] # <<>>
                      THEN [busy EXCEPT ![e.t] = SubSeq(@, 1, Len(@) - 1)] ELSE busy

Consume ==
  /\ l <= Len(Log)
  /\ l' = l + 1
  /\ LET e == Log[l]
     IN /\ IF Explained(e)
           THEN Step(e) /\ rejected' = rejected
           ELSE /\ Skip(e)
                /\ rejected' = rejected + 1
                /\ (rejected < 20 => PrintT(<<"REJECT", l>>))
        /\ TLCSet(1, l)
        /\ TLCSet(2, rejected')

Spec == Init /\ [][Consume]_vars

Done == /\ TLCGet(1) = Len(Log)
        /\ PrintT(<<"TRACE", Len(Log), "REJECTED", TLCGet(2)>>)
        /\ TLCGet(2) = 0
ASSUME TLCSet(1, 0) /\ TLCSet(2, 0)
=============================================================================
