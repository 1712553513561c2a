------------------------------ MODULE DivStepMC ------------------------------
(***************************************************************************)
(* The inversion algorithm of the library as a state machine: division     *)
(* steps on the reversed polynomials, 2(N-1)-1 of them, whatever the input  *)
(* is.  Checked against the inverse defined in Ring (exponentiation in the  *)
(* field), for every non-zero input at small N.                             *)
(*                                                                         *)
(* What this contributes to the conformance checks: the largest |delta| is  *)
(* reached by monomials and other sparse inputs (Reach below), and all      *)
(* steps are needed for some input; the input classes of the plans contain  *)
(* such polynomials at the real N.                                          *)
(***************************************************************************)
EXTENDS Ring
CONSTANTS P,          \* 2 or 3
          Steps,      \* number of division steps
          DeltaBits,  \* width of the counter (two's complement)
          Inputs      \* which polynomials are tried

VARIABLES a, f, g, v, w, delta, k, top
vars == <<a, f, g, v, w, delta, k, top>>

All == [1..(N - 1) -> 0..(P - 1)]
Sparse == {x \in [1..(N - 1) -> 0..(P - 1)] : Len(SelectSeq(x, LAMBDA c : c # 0)) <= 3}
(* without enumerating all of them                                           *)
Few == UNION {{[i \in 1..(N - 1) |-> IF i = p THEN c ELSE IF i = q THEN d ELSE e] : p, q \in 1..(N - 1), c, d \in 0..(P - 1)} : e \in 0..(P - 1)}
Full == 2 * (N - 1) - 1
OneLess == 2 * (N - 1) - 2

Zeroes == [i \in Idx |-> 0]
Wrap(x) == LET m == 2^DeltaBits y == x % m IN IF y >= m \div 2 THEN y - m ELSE y

Init == /\ a \in {x \in Inputs : \E i \in 1..(N - 1) : x[i] # 0}
        /\ f = [i \in Idx |-> 1]
        /\ g = [i \in Idx |-> IF i = N THEN 0 ELSE a[N - i]]      \* reversed
        /\ v = Zeroes /\ w = One
        /\ delta = 1 /\ k = 0 /\ top = 1

Abs(x) == IF x < 0 THEN -x ELSE x
SignFactor(c, d) == ((P - 1) * c * d) % P       \* -g0/f0, for f0 a unit of the prime field
Step ==
  /\ k < Steps
  /\ LET vs == [i \in Idx |-> IF i = 1 THEN 0 ELSE v[i - 1]]
         sg == SignFactor(g[1], f[1])
         swap == delta > 0 /\ g[1] # 0
         f1 == IF swap THEN g ELSE f
         g1 == IF swap THEN f ELSE g
         v1 == IF swap THEN w ELSE vs
         w1 == IF swap THEN vs ELSE w
         g2 == [i \in Idx |-> (g1[i] + sg * f1[i]) % P]
         w2 == [i \in Idx |-> (w1[i] + sg * v1[i]) % P]
         d == Wrap((IF swap THEN -delta ELSE delta) + 1)
     IN /\ f' = f1 /\ v' = v1 /\ w' = w2
        /\ g' = [i \in Idx |-> IF i = N THEN 0 ELSE g2[i + 1]]
        /\ delta' = d /\ top' = IF Abs(d) > top THEN Abs(d) ELSE top
  /\ k' = k + 1 /\ UNCHANGED a
Next == Step \/ (k = Steps /\ UNCHANGED vars)

Result == [i \in Idx |-> IF i = N THEN 0 ELSE (f[1] * v[N - i]) % P]
Source == Append(a, 0)

(* division steps keep f's constant term a unit, and eliminate g's            *)
Shape == f[1] # 0 /\ g[N] = 0
(* at the end f is a constant; g may have its constant term left             *)
Ends == k = Steps => delta = 0 /\ \A i \in 2..N : f[i] = 0 /\ g[i] = 0
IsInverse == k = Steps => SMul(Result, Source, P) = One /\ Result = InvP(Source, P)
DeltaFits == top <= N
(* not an invariant: shows which inputs reach the extreme                    *)
NotExtreme == top < N - 1
-----------------------------------------------------------------------------
(* Mutants                                                                  *)
MutSign(c, d) == (c * d) % P
=============================================================================
