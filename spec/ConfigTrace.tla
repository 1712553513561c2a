---------------------------- MODULE ConfigTrace ----------------------------
(***************************************************************************)
(* Validation of recorded builds, one per subset of the variant features.  *)
(***************************************************************************)
EXTENDS Config, Json, IOUtils, TLC, SequencesExt

Builds == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES b,     \* the build looked at
          bad    \* obligations it does not meet
vars == <<b, bad>>

Need(what, cond) == IF cond THEN {} ELSE {what}
Judge(e) ==
  LET v == Select(ToSet(e.features)) IN
  IF v = Refused THEN Need("contradictory features are not refused", ~e.built)
  ELSE Need("does not build", e.built) \cup
       (IF ~e.built THEN {}
        ELSE Need("another algorithm name: " \o e.name, e.name = v) \cup
             Need("public key length", e.pkb = Lengths(v).pk) \cup
             Need("secret key length", e.skb = Lengths(v).sk) \cup
             Need("ciphertext length", e.ctb = Lengths(v).ct) \cup
             Need("shared secret length", e.ssb = Lengths(v).ss))

Init == b \in 1..Len(Builds) /\ bad = {}
Next == bad = {} /\ bad' = Judge(Builds[b]) /\ UNCHANGED b
Accepted == bad = {}

(* all subsets of the features were tried                                   *)
Complete == {ToSet(Builds[k].features) : k \in 1..Len(Builds)} = SUBSET Variants
ASSUME Complete
Alias == [line |-> b, call |-> 1, bad |-> bad]
=============================================================================
