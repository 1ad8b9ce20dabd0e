----------------------------- MODULE ToolTrace ------------------------------
(* Checks what the repository's offline programs and its big integers did    *)
(* against Tools and Big.  A step the machine cannot do, but which is one of *)
(* the outcomes Big lists as known, is reported by name; the caller decides  *)
(* whether that name is on record.                                           *)
EXTENDS Big, Json, IOUtils, TLCExt, TLC
T == INSTANCE Tools

Log == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, rejected
vars == <<cap, reg, l, rejected>>

Init == BigInit /\ l = 1 /\ rejected = 0

Explained(e) == CASE e.k = "begin" -> CanBegin(e) [] e.k = "op" -> CanDo(e) [] OTHER -> T!ExplainsTool(e)
Step(e) == CASE e.k = "begin" -> Begin(e) [] e.k = "op" -> Do(e) [] OTHER -> UNCHANGED <<cap, reg>>
\* go on with what the code says it has
Skip(e) == /\ cap' = cap
           /\ reg' = IF e.k = "op" /\ e.d \in Regs THEN LET r == [reg EXCEPT ![e.d] = e.v] IN IF e.op = "div" THEN [r EXCEPT ![e.t] = e.q] ELSE r
                   ELSE reg

Consume ==
  /\ l <= Len(Log)
  /\ l' = l + 1
  /\ LET e == Log[l]
     IN /\ IF Explained(e)
           THEN Step(e) /\ rejected' = rejected
           ELSE /\ Skip(e)
                /\ LET n == IF e.k \in {"op", "minmax"} THEN Known(e) ELSE ""
                   IN IF n # "" THEN PrintT(<<"KNOWN", n, l>>) /\ rejected' = rejected
                      ELSE /\ rejected' = rejected + 1
                           /\ (rejected < 20 => PrintT(<<"REJECT", l>>))
        /\ TLCSet(1, l)
        /\ TLCSet(2, rejected')

Spec == Init /\ [][Consume]_vars

Done == /\ TLCGet(1) = Len(Log)
        /\ PrintT(<<"TRACE", Len(Log), "REJECTED", TLCGet(2)>>)
        /\ TLCGet(2) = 0
ASSUME TLCSet(1, 0) /\ TLCSet(2, 0)
=============================================================================
