------------------------------- MODULE ApiMC -------------------------------
(***************************************************************************)
(* Calls at the granularity of requests to the generator, from several     *)
(* threads.  A call reads its inputs, asks its generator a fixed number of  *)
(* times, computes, writes its output buffers and returns; requests may    *)
(* fail.  Values are symbolic: the random bytes of request n to generator  *)
(* t are <<t, n>>, a result is the term of what it was computed from.      *)
(*                                                                         *)
(* This is the interleaving-level design of C11, C12 and C14: errors       *)
(* surface unchanged, the number of requests is fixed, and results depend  *)
(* on the call's own inputs only, whatever the other threads do.  As a      *)
(* whole: it refines AtomicApi, and every call returns.                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Threads, Calls,    \* calls per thread
          Cell(_)            \* where a call keeps its random bytes: its own cell, or (mutant) a shared one

Kinds == {"kp", "enc", "dec"}
Needs(k) == CASE k = "kp" -> 2 [] k = "enc" -> 1 [] k = "dec" -> 0
None == <<"untouched">>

VARIABLES pc,       \* thread -> "idle", "ask", "compute", "write", "end"
          kind,     \* thread -> kind of its current call
          asked,    \* thread -> requests made by the current call
          drawn,    \* thread -> requests made to the thread's generator so far
          scratch,  \* cell -> the bytes a call holds while it runs
          failed,   \* thread -> request that failed in the current call, 0 if none
          out,      \* thread -> output buffer
          base,     \* thread -> drawn at the start of the current call
          ret,      \* thread -> what the last call returned
          left,     \* thread -> calls still to be made
          last      \* thread -> number and result of the last finished call
vars == <<pc, kind, asked, drawn, scratch, failed, out, base, ret, left, last>>

Init ==
  /\ pc = [t \in Threads |-> "idle"] /\ kind = [t \in Threads |-> "dec"]
  /\ asked = [t \in Threads |-> 0] /\ drawn = [t \in Threads |-> 0]
  /\ scratch = [c \in {Cell(t) : t \in Threads} |-> <<>>]
  /\ failed = [t \in Threads |-> 0] /\ out = [t \in Threads |-> None]
  /\ base = [t \in Threads |-> 0] /\ ret = [t \in Threads |-> "none"] /\ left = [t \in Threads |-> Calls]
  /\ last = [t \in Threads |-> <<0, "none">>]

Begin(t) ==
  /\ pc[t] = "idle" /\ left[t] > 0
  /\ \E k \in Kinds : kind' = [kind EXCEPT ![t] = k]
                      /\ pc' = [pc EXCEPT ![t] = IF Needs(k) = 0 THEN "compute" ELSE "ask"]
  /\ asked' = [asked EXCEPT ![t] = 0] /\ failed' = [failed EXCEPT ![t] = 0]
  /\ base' = [base EXCEPT ![t] = drawn[t]] /\ out' = [out EXCEPT ![t] = None]
  /\ scratch' = [scratch EXCEPT ![Cell(t)] = <<>>]
  /\ left' = [left EXCEPT ![t] = @ - 1] /\ ret' = [ret EXCEPT ![t] = "none"]
  /\ UNCHANGED <<drawn, last>>

(* what a failed request does to the call                                    *)
OnFailure(t) == pc' = [pc EXCEPT ![t] = "end"] /\ failed' = [failed EXCEPT ![t] = asked[t] + 1]

Ask(t) ==
  /\ pc[t] = "ask"
  /\ asked' = [asked EXCEPT ![t] = @ + 1] /\ drawn' = [drawn EXCEPT ![t] = @ + 1]
  /\ \/ /\ scratch' = [scratch EXCEPT ![Cell(t)] = Append(@, <<t, drawn[t] + 1>>)]
        /\ pc' = [pc EXCEPT ![t] = IF asked[t] + 1 = Needs(kind[t]) THEN "compute" ELSE "ask"]
        /\ UNCHANGED failed
     \/ OnFailure(t) /\ UNCHANGED scratch
  /\ UNCHANGED <<kind, out, base, ret, left, last>>

Compute(t) ==
  /\ pc[t] = "compute"
  /\ out' = [out EXCEPT ![t] = <<kind[t], scratch[Cell(t)]>>]
  /\ pc' = [pc EXCEPT ![t] = "end"]
  /\ UNCHANGED <<kind, asked, drawn, scratch, failed, base, ret, left, last>>

Return(t) ==
  /\ pc[t] = "end"
  /\ ret' = [ret EXCEPT ![t] = IF failed[t] = 0 THEN "ok" ELSE "err " \o ToString(failed[t])]
  /\ pc' = [pc EXCEPT ![t] = "idle"]
  /\ last' = [last EXCEPT ![t] = <<@[1] + 1>> \o (IF failed[t] = 0 THEN <<"ok">> \o out[t] ELSE <<"err", failed[t]>>)]
  /\ UNCHANGED <<kind, asked, drawn, scratch, failed, out, base, left>>

Next == \E t \in Threads : Begin(t) \/ Ask(t) \/ Compute(t) \/ Return(t)
(* a call that has begun goes on                                             *)
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : WF_vars(Ask(t) \/ Compute(t) \/ Return(t))

-----------------------------------------------------------------------------
Returned(t) == pc[t] = "idle" /\ ret[t] # "none"
(* the result is that of the same call made alone                            *)
Pure == \A t \in Threads :
  (Returned(t) /\ ret[t] = "ok") => out[t] = <<kind[t], [n \in 1..Needs(kind[t]) |-> <<t, base[t] + n>>]>>
(* an error is returned if and only if a request failed, and it is that one   *)
Surfaced == \A t \in Threads :
  Returned(t) => /\ (ret[t] = "ok") = (failed[t] = 0)
                 /\ failed[t] # 0 => ret[t] = "err " \o ToString(asked[t])
(* nothing is written when the first request failed                          *)
Untouched == \A t \in Threads : (Returned(t) /\ failed[t] = 1) => out[t] = None
(* the number of requests is fixed                                           *)
FixedDraws == \A t \in Threads :
  Returned(t) => asked[t] = (IF failed[t] = 0 THEN Needs(kind[t]) ELSE failed[t]) /\ drawn[t] = base[t] + asked[t]

(* every call that begins returns                                            *)
Returns == \A t \in Threads : pc[t] # "idle" ~> pc[t] = "idle"
(* requests count when the call returns                                      *)
Atomic == INSTANCE AtomicApi WITH used <- [t \in Threads |-> IF pc[t] = "idle" THEN drawn[t] ELSE base[t]]
Refines == Atomic!Spec

Own(t) == t
MutShared(t) == 1                      \* one buffer for all
MutRetry(t) == /\ pc' = [pc EXCEPT ![t] = "ask"] /\ UNCHANGED failed      \* ask again until it works
MutStuck(t) == /\ pc' = [pc EXCEPT ![t] = "stuck"] /\ UNCHANGED failed     \* wait for better times
MutSwallow(t) == /\ pc' = [pc EXCEPT ![t] = "compute"] /\ UNCHANGED failed \* go on with what there is
=============================================================================
