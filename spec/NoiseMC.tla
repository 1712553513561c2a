------------------------------ MODULE NoiseMC ------------------------------
(***************************************************************************)
(* Why there are no decryption failures.  Decapsulation computes           *)
(* a = f*c in Z_q[x]/(x^n-1) and reads the integers                        *)
(*      HPS    3*g*r + f*m                                                 *)
(*      HRSS   3*(x-1)*g*r + (x-1)*f*m'      (m' = m/(x-1) modulo 3)       *)
(* off the centred residues, which is right if all coefficients stay below *)
(* q/2 in absolute value.  r, m and m' are ternary, so a coefficient of    *)
(* u*r is at most the sum of the absolute values of u, and it is that for  *)
(* some r.  The sum is WEIGHT for a g of fixed weight (and f*m is at most  *)
(* the weight of m); for (x-1)*u it depends on the correlation of u with   *)
(* its shift, which is why HRSS samples u with a correlation that is not   *)
(* negative.                                                               *)
(*                                                                         *)
(* The bound on the sum is checked for all u of a small degree, the        *)
(* consequence for the four variants by arithmetic.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC
CONSTANTS N,            \* toy degree
          Selected(_)   \* which polynomials are sampled

VARIABLE u
Init == u = <<>>
Next == Len(u) < N - 1 /\ \E c \in {-1, 0, 1} : u' = Append(u, c)

Abs(x) == IF x < 0 THEN -x ELSE x
Correlation(p) == LET RECURSIVE S(_)
                      S(k) == IF k >= Len(p) THEN 0 ELSE p[k] * p[k + 1] + S(k + 1)
                  IN S(1)
(* sum of the absolute values of (x-1)*p, the last coefficient of p being 0   *)
Spread(p) == LET q == Append(p, 0)
                 RECURSIVE S(_)
                 S(k) == IF k = 0 THEN 0 ELSE Abs(q[k] - q[(k % N) + 1]) + S(k - 1)
             IN S(N)
Plus(p) == Correlation(p) >= 0
(* ... is at most sqrt(2) * n                                                 *)
SpreadOk == (Len(u) = N - 1 /\ Selected(u)) => Spread(u) * Spread(u) <= 2 * N * N
(* sampling reaches one of u and -u' (signs of the even positions changed)    *)
Flipped(p) == [k \in 1..Len(p) |-> IF k % 2 = 1 THEN -p[k] ELSE p[k]]
OneOfTwo == Len(u) = N - 1 => (Plus(u) \/ Plus(Flipped(u))) /\ Correlation(Flipped(u)) = -Correlation(u)

(* the variants: 4*sqrt(2)*n < q/2, or four times the weight below q/2        *)
Variants == {[n |-> 509, q |-> 2048, weight |-> 254], [n |-> 677, q |-> 2048, weight |-> 254],
             [n |-> 821, q |-> 4096, weight |-> 510], [n |-> 701, q |-> 8192, weight |-> 0]}
MarginOk == u = <<>> => \A v \in Variants :
   IF v.weight > 0 THEN 4 * v.weight < v.q \div 2 /\ v.weight = 2 * (v.q \div 16 - 1)
   ELSE 2 * (4 * v.n) * (4 * v.n) < (v.q \div 2) * (v.q \div 2)

MutAll(p) == TRUE
=============================================================================
