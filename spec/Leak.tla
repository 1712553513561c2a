-------------------------------- MODULE Leak --------------------------------
(***************************************************************************)
(* Secret independence as a property of pairs of executions.               *)
(*                                                                         *)
(* A run is one call: the operation, its public inputs, its secret inputs, *)
(* and what an observer of the instruction and data address streams sees,  *)
(* cut into pieces.  Two runs are low-equivalent if operation and public   *)
(* inputs agree.  The specification runs a low-equivalent pair side by     *)
(* side (self-composition); it has no step in which the two observations   *)
(* differ, so a pair that leaks cannot be consumed.                        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

Runs == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES a, b,     \* the two runs
          i         \* pieces consumed
vars == <<a, b, i>>

LowEquivalent(x, y) == Runs[x].op = Runs[y].op /\ Runs[x].pub = Runs[y].pub
(* what is observed: number of instructions and accesses, then the pieces    *)
Observation(x) == <<Runs[x].ni, Runs[x].nm>> \o Runs[x].ins \o Runs[x].mem
Length(x) == 2 + Len(Runs[x].ins) + Len(Runs[x].mem)
(* the representative of a class of low-equivalent runs                      *)
First(x) == CHOOSE y \in 1..x : LowEquivalent(x, y) /\ \A z \in 1..(y - 1) : ~LowEquivalent(x, z)

Init == /\ a \in 1..Len(Runs) /\ b = First(a) /\ i = 0

Step == /\ i < Length(a) /\ i < Length(b)
        /\ Observation(a)[i + 1] = Observation(b)[i + 1]
        /\ i' = i + 1 /\ UNCHANGED <<a, b>>
Next == Step

(* a pair is only stuck when both observations are used up                    *)
Indistinguishable ==
  \/ ENABLED Step
  \/ i = Length(a) /\ i = Length(b)

Alias == [run |-> a, reference |-> b, op |-> Runs[a].op, piece |-> i + 1,
          of |-> <<Length(a), Length(b)>>]
=============================================================================
