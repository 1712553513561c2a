-------------------------------- MODULE Ring --------------------------------
(***************************************************************************)
(* Polynomial arithmetic of NTRU.                                          *)
(*                                                                         *)
(*   R   = Z[x]/(x^N - 1),   Phi = 1 + x + ... + x^(N-1),                   *)
(*   S_q = (Z/q)[x]/Phi,     S_3 = (Z/3)[x]/Phi.                            *)
(*                                                                         *)
(* A polynomial is a sequence of N naturals, the coefficient of x^i at     *)
(* index i+1.  An element of S_q or S_3 is represented with coefficient    *)
(* N-1 equal to 0.  Residues modulo 3 are 0, 1, 2, where 2 stands for -1.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC, Kernel
CONSTANTS N,          \* ring degree, a prime with 2 and 3 primitive roots
          LOGQ        \* log2 of the modulus q

Q == 2^LOGQ
Idx == 1..N

(* The ring element 1 and the constant polynomial c                         *)
Const(c) == [i \in Idx |-> IF i = 1 THEN c ELSE 0]
One == Const(1)

Add(a, b, q) == TLCEval([i \in Idx |-> (a[i] + b[i]) % q])
Sub(a, b, q) == TLCEval([i \in Idx |-> (a[i] - b[i]) % q])
Scale(c, a, q) == TLCEval([i \in Idx |-> (c * a[i]) % q])

(* Representative of a modulo Phi: subtract a[N-1] * Phi                    *)
ModPhi(a, q) == LET t == a[N] IN TLCEval([i \in Idx |-> (a[i] - t) % q])

RMul(a, b, q) == CyclicMul(a, b, q)
SMul(a, b, q) == ModPhi(RMul(a, b, q), q)

(* (x - 1) * a                                                             *)
TimesXm1(a, q) == TLCEval([i \in Idx |-> (a[IF i = 1 THEN N ELSE i - 1] - a[i]) % q])

(* Z_3 -> Z_q, sending 2 to -1, and back                                    *)
Z3ToZq(a) == TLCEval([i \in Idx |-> IF a[i] = 2 THEN Q - 1 ELSE a[i]])
ZqToZ3(a) == TLCEval([i \in Idx |-> IF a[i] = Q - 1 THEN 2 ELSE a[i]])

(* The representative of a residue modulo q in [-q/2, q/2)                  *)
Centered(c) == IF c < Q \div 2 THEN c ELSE c - Q

(* R_q -> S_3: lift to the integers symmetrically, then reduce              *)
RqToS3(a) == ModPhi([i \in Idx |-> Centered(a[i]) % 3], 3)

IsTernary(a) == \A i \in Idx : a[i] \in {0, 1, 2}
IsTernaryQ(a) == \A i \in Idx : a[i] \in {0, 1, Q - 1}

Count(a, v) == FoldLeft(LAMBDA s, c : IF c = v THEN s + 1 ELSE s, 0, a)
SumMod(a, q) == FoldLeft(LAMBDA s, c : (s + c) % q, 0, a)

(***************************************************************************)
(* Inverses, by exponentiation in the field S_p (p = 2 or 3; Phi is        *)
(* irreducible because p generates (Z/N)^star): a^(p^(N-1) - 2).           *)
(* With F(a) = a^p a permutation of the coefficients, the exponent         *)
(* p^(N-1) - 2 = (p-2) + p * (p^(N-2) - 1) is reached with the usual       *)
(* addition chain  e(i+j) = F^j(e(i)) * e(j),  e(k) = a^((p^k-1)/(p-1)).    *)
(***************************************************************************)
Frob(a, p, k) ==       \* a(x^(p^k)) = a^(p^k) in S_p: coefficient i is a[i / p^k]
  LET pinv == CHOOSE v \in 1..(N - 1) : (v * p) % N = 1
      RECURSIVE Pw(_)
      Pw(j) == IF j = 0 THEN 1 ELSE (pinv * Pw(j - 1)) % N
      e == Pw(k)
  IN TLCEval([i \in Idx |-> a[(((i - 1) * e) % N) + 1]])

RECURSIVE Chain(_, _, _)
Chain(a, p, k) ==      \* a^((p^k - 1)/(p - 1)) in S_p
  IF k = 1 THEN a
  ELSE IF k % 2 = 0
       THEN LET h == Chain(a, p, k \div 2) IN SMul(Frob(h, p, k \div 2), h, p)
       ELSE LET h == Chain(a, p, k - 1)   IN SMul(Frob(h, p, 1), a, p)

InvP(a0, p) ==
  LET a == ModPhi(a0, p)
      e == Frob(Chain(a, p, N - 2), p, 1)     \* a^(p (p^(N-2)-1)/(p-1))
  IN IF p = 2 THEN ModPhi(e, 2)
     ELSE LET s == SMul(e, e, 3) IN SMul(s, a, 3)   \* 3^(N-1)-2 = 1 + 3(3^(N-2)-1)

Inv3(a) == InvP(a, 3)
Inv2(a) == InvP([i \in Idx |-> a[i] % 2], 2)

(* Inverse in S_q: Newton iteration from the inverse modulo 2              *)
InvQ(a) ==
  LET RECURSIVE It(_, _)
      It(v, bits) == IF bits >= LOGQ THEN v
                     ELSE It(TLCEval(SMul(v, Sub(Const(2), SMul(a, v, Q), Q), Q)), 2 * bits)
  IN It(TLCEval(Inv2(a)), 1)

InvertibleS3(a) == ModPhi(a, 3) # Const(0)
InvertibleS2(a) == ModPhi([i \in Idx |-> a[i] % 2], 2) # Const(0)
=============================================================================
