----------------------------- MODULE EffectTrace -----------------------------
(***************************************************************************)
(* Calls and the world outside their arguments.                            *)
(*                                                                         *)
(* The world has parts a program can change or consult through the          *)
(* operating system.  A call of the library is a step that leaves all of    *)
(* them alone: it computes.  Memory, threads and time belong to computing   *)
(* and are not part of the world here.                                      *)
(*                                                                         *)
(* Recordings give, for each call, the system calls with an effect that     *)
(* were attempted while it ran, in order.  A step marked "probe" is the     *)
(* recorder's own and shows that effects are seen.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

(* what the system calls of the recorder's filter touch                     *)
Part(nr) ==
  CASE nr \in {1, 18, 20, 296, 328} -> "output"
    [] nr = 318 -> "entropy"
    [] nr \in (41..53) \cup {288, 299, 307} -> "network"
    [] nr \in {56, 57, 58, 59, 62, 101, 200, 234, 297, 310, 311, 322} -> "processes"
    [] OTHER -> "files"
Parts == {"output", "entropy", "network", "processes", "files"}

VARIABLES s, i, world, bad
vars == <<s, i, world, bad>>

Calm == [p \in Parts |-> 0]
After(w, fx) == FoldLeft(LAMBDA u, nr : [u EXCEPT ![Part(nr)] = @ + 1], w, fx)

Init == s \in 1..Len(Trace) /\ i = 0 /\ world = Calm /\ bad = {}
Cur == Trace[s].ev[i + 1]

Probe == /\ Cur.op = "probe"
         /\ LET w == After(Calm, Cur.fx) IN
            bad' = bad \cup {<<"PROBE", p>> : p \in {p \in {"output", "files"} : w[p] < 2}}
         /\ UNCHANGED world
Call == /\ Cur.op # "probe"
        /\ world' = After(world, Cur.fx)
        /\ bad' = bad \cup {<<"C18", Cur.op \o " touches " \o p>> : p \in {p \in Parts : world'[p] # world[p]}}
Next == i < Len(Trace[s].ev) /\ i' = i + 1 /\ UNCHANGED s /\ (Probe \/ Call)

Accepted == bad = {}
(* the same, on the state rather than on the steps                          *)
Untouched == bad = {} => world = Calm
Alias == [session |-> Trace[s].id, line |-> s, call |-> i, bad |-> bad]
=============================================================================
