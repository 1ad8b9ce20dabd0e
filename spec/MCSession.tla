------------------------------ MODULE MCSession -----------------------------
(* How a conversion library can be built, at the grain at which it can be    *)
(* interrupted, and whether it implements Session.  A conversion loads its   *)
(* argument into working memory, transforms it there in several steps, and   *)
(* answers from it.  Where that memory lives is the parameter:               *)
(*   "frame"   in the activation itself                                      *)
(*   "thread"  one area per thread                                           *)
(*   "global"  one area for the process                                      *)
(*   "cache"   in the frame, but the last argument and answer are remembered *)
(*             per process, keyed by the argument without its mode           *)
(*   "busy"    in the frame, but a process-wide mark says that a conversion  *)
(*             is in progress, and those that find it set take a shortcut    *)
(* A conversion may be left by an exception of the caller's handler, which   *)
(* runs before the first transformation.                                     *)
(* A request is <<value, mode>>.  A scheduler runs threads step by step and  *)
(* may start a nested conversion on a thread at any step.                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Scratch, NThreads, Values, Modes, Depth, MaxCalls

VARIABLES st,      \* thread -> stack of activations
          mem,     \* shared areas
          cache,   \* <<>> or <<value, answer>>
          calls,   \* how many have been started
          wrong    \* an answer differed from the one given alone

vars == <<st, mem, cache, calls, wrong>>
T == 1..NThreads
Requests == Values \X Modes
Answer(a) == <<"answer", a[1], a[2]>>
Stages == 3

\* working memory of an activation
Area(t) == IF Scratch = "thread" THEN t ELSE 0
Local == Scratch \in {"frame", "cache", "busy"}

Init == /\ st = [t \in T |-> <<>>]
        /\ mem = [x \in 0..NThreads |-> <<>>]
        /\ cache = <<>> /\ calls = 0 /\ wrong = FALSE

Top(t) == st[t][Len(st[t])]

Start(t) == /\ Len(st[t]) < Depth /\ calls < MaxCalls
            /\ calls' = calls + 1
            /\ \E a \in Requests :
                 st' = [st EXCEPT ![t] = Append(@, [a |-> a, pc |-> 0, w |-> <<>>])]
            /\ UNCHANGED <<mem, cache, wrong>>

Get(t) == IF Local THEN Top(t).w ELSE mem[Area(t)]
Put(t, act, v) == IF Local
                  THEN /\ st' = [st EXCEPT ![t][Len(st[t])] = [act EXCEPT !.w = v]]
                       /\ UNCHANGED mem
                  ELSE /\ st' = [st EXCEPT ![t][Len(st[t])] = act]
                       /\ mem' = [mem EXCEPT ![Area(t)] = v]

Step(t) ==
  /\ st[t] # <<>>
  /\ UNCHANGED calls
  /\ LET x == Top(t) IN
     CASE x.pc = 0 -> \* load
            /\ IF Scratch = "busy" THEN cache' = <<"busy">> ELSE UNCHANGED cache
            /\ Put(t, [x EXCEPT !.pc = IF Scratch = "busy" /\ cache # <<>> THEN 2 ELSE IF Scratch = "cache" /\ cache # <<>> /\ cache[1] = x.a[1] THEN 9 ELSE 1],
                   IF Scratch = "cache" /\ cache # <<>> /\ cache[1] = x.a[1] THEN cache[2]
                   ELSE IF Scratch = "busy" /\ cache # <<>> THEN <<"short", x.a[1], "none">> ELSE <<"loaded", x.a[1], x.a[2]>>)
            /\ UNCHANGED wrong
       [] x.pc \in 1..(Stages - 1) -> \* transform in place
            /\ Put(t, [x EXCEPT !.pc = @ + 1], Get(t))
            /\ UNCHANGED <<cache, wrong>>
       [] x.pc = Stages ->
            /\ Put(t, [x EXCEPT !.pc = 9], <<"answer", Get(t)[2], Get(t)[3]>>)
            /\ cache' = IF Scratch = "cache" THEN <<x.a[1], <<"answer", Get(t)[2], Get(t)[3]>>>> ELSE cache
            /\ UNCHANGED wrong
       [] OTHER -> \* answer
            /\ wrong' = (wrong \/ Get(t) # Answer(x.a))
            /\ st' = [st EXCEPT ![t] = SubSeq(@, 1, Len(@) - 1)]
            /\ cache' = IF Scratch = "busy" THEN <<>> ELSE cache
            /\ UNCHANGED mem

Leave(t) == /\ st[t] # <<>> /\ Top(t).pc = 1
            /\ st' = [st EXCEPT ![t] = SubSeq(@, 1, Len(@) - 1)]
            /\ UNCHANGED <<mem, cache, calls, wrong>>

Next == \E t \in T : Start(t) \/ Step(t) \/ Leave(t)
Spec == Init /\ [][Next]_vars

Right == ~wrong
=============================================================================
