----------------------------- MODULE AtomicApi -----------------------------
(***************************************************************************)
(* The API as its caller sees it: every call is one step.  The call makes  *)
(* its requests to the caller's generator and leaves a result that is a    *)
(* function of the call and of the bytes delivered, or the error of the    *)
(* first request that failed.  ApiMC, where calls overlap and proceed      *)
(* request by request, has to refine this.                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANTS Threads, Needs(_), Kinds
VARIABLES used,      \* thread -> requests its generator has answered or refused
          last       \* thread -> number and result of its last call

Init == used = [t \in Threads |-> 0] /\ last = [t \in Threads |-> <<0, "none">>]
Succeeds(t, k) ==
  /\ used' = [used EXCEPT ![t] = @ + Needs(k)]
  /\ last' = [last EXCEPT ![t] = <<@[1] + 1, "ok", k, [n \in 1..Needs(k) |-> <<t, used[t] + n>>]>>]
Fails(t, k, n) ==
  /\ used' = [used EXCEPT ![t] = @ + n]
  /\ last' = [last EXCEPT ![t] = <<@[1] + 1, "err", n>>]
Call(t) == \E k \in Kinds : Succeeds(t, k) \/ \E n \in 1..Needs(k) : Fails(t, k, n)
Next == \E t \in Threads : Call(t)
Spec == Init /\ [][Next]_<<used, last>>
=============================================================================
