------------------------------- MODULE Config -------------------------------
(***************************************************************************)
(* Selection of the parameter set by cargo features, and what each         *)
(* parameter set prescribes.  The lengths are computed from n and q, not   *)
(* copied from the implementation.                                         *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences

Variants == {"ntruhps2048509", "ntruhps2048677", "ntruhps4096821", "ntruhrss701"}
Param == [v \in Variants |->
  CASE v = "ntruhps2048509" -> [n |-> 509, logq |-> 11]
    [] v = "ntruhps2048677" -> [n |-> 677, logq |-> 11]
    [] v = "ntruhps4096821" -> [n |-> 821, logq |-> 12]
    [] v = "ntruhrss701"    -> [n |-> 701, logq |-> 13]]

Refused == "refused"
(* the variant a set of features selects                                   *)
Select(F) == IF F = {} THEN "ntruhps2048509"
             ELSE IF Cardinality(F) = 1 THEN CHOOSE v \in F : TRUE
             ELSE Refused

CeilDiv(a, b) == (a + b - 1) \div b
QLen(v) == CeilDiv(Param[v].logq * (Param[v].n - 1), 8)
TLen(v) == CeilDiv(Param[v].n - 1, 5)
Lengths(v) == [pk |-> QLen(v), sk |-> 2 * TLen(v) + QLen(v) + 32, ct |-> QLen(v), ss |-> 32]

(* the variants are told apart by their key lengths: no two agree           *)
ASSUME \A v, w \in Variants : v # w => Lengths(v) # Lengths(w)
ASSUME Lengths("ntruhps2048509") = [pk |-> 699, sk |-> 935, ct |-> 699, ss |-> 32]
ASSUME Lengths("ntruhps2048677") = [pk |-> 930, sk |-> 1234, ct |-> 930, ss |-> 32]
ASSUME Lengths("ntruhps4096821") = [pk |-> 1230, sk |-> 1590, ct |-> 1230, ss |-> 32]
ASSUME Lengths("ntruhrss701")    = [pk |-> 1138, sk |-> 1450, ct |-> 1138, ss |-> 32]
=============================================================================
