----------------------------- MODULE GrisuPaths -----------------------------
(* The behaviours of the algorithm machine on the real formats, one per      *)
(* input, mode and policy, as the sequence of decisions it takes.  Prints    *)
(* every sequence not printed before with the input that led to it: from     *)
(* this tools/gen_paths.py chooses corpus/paths.txt, inputs that make the    *)
(* library take every sequence the machine was seen to take.  A mode is      *)
(* represented by one of those with the same plan.                           *)
EXTENDS GrisuTrace

Represent == <<"NE", "NO", "NTZ", "NAZ", "DTZ", "DAZ">>
RECURSIVE PathFrom(_, _, _)
PathFrom(z, path, k) == IF z.pc = "done" \/ k = 0 THEN path
                        ELSE LET t == Step(z) IN PathFrom(t, Append(path, DecisionOf(z, t)), k - 1)

See(e, m, q) ==
  LET F == RealFormat(e.f)
      z == Start(F, "ok", e.b, Represent[m], q)
      path == <<F.wide, z.plan, q, PathFrom(z, <<>>, 40)>>
  IN IF path \in TLCGet(5) THEN TRUE
     ELSE TLCSet(5, TLCGet(5) \cup {path}) /\ PrintT(ToString(at[1]) \o " " \o ToString(path))

PInit == s = [pc |-> "input"] /\ n = 0 /\ at = <<1>>
PNext == /\ at[1] <= Len(Log) /\ at' = <<at[1] + 1>> /\ UNCHANGED <<s, n>>
         /\ \A m \in 1..6, q \in {"any", "even", "odd", "up", "down"} : See(Log[at[1]], m, q)
PSpec == PInit /\ [][PNext]_<<s, n, at>>
ASSUME TLCSet(5, {})
=============================================================================
