------------------------------- MODULE ArithMC -------------------------------
(***************************************************************************)
(* The remaining algorithms of the library against the definitions in Ring  *)
(* and Ntru, over all inputs: branch-free reductions and range tests on     *)
(* 16-bit words, the lift of a message by recurrence, and the lifting of an *)
(* inverse modulo 2 to one modulo q.  Part selects what x ranges over.      *)
(***************************************************************************)
EXTENDS Ntru
CONSTANT Part, Rounds
VARIABLE x
vars == <<x>>

W == 65536
Shr(a, k) == a \div 2^k
Low(a, k) == a % 2^k

(* residue modulo 3 of a word, by folding                                    *)
Fold3(a) ==
  LET r1 == Shr(a, 8) + Low(a, 8)
      r2 == Shr(r1, 4) + Low(r1, 4)
      r3 == Shr(r2, 2) + Low(r2, 2)
      r4 == Shr(r3, 2) + Low(r3, 2)
  IN IF r4 < 3 THEN r4 ELSE r4 - 3
(* the short one of the inversion, for sums of one residue and one product   *)
Short3(a) == LET b == Low(Shr(a, 2) + a, 2) IN IF b < 3 THEN b ELSE b - 3

(* centred residue modulo 3 of a residue modulo q                            *)
CentreFlag(c) == LET r == Low(c, LOGQ) IN r + Shr(r, LOGQ - 1) * (2 - (LOGQ % 2))

(* coefficient test: 0 iff c is -1, 0 or 1                                   *)
And4(a) == (a \div 4) % 2
RTest(c) == \* (c + 1) & (q - 4), (c + 2) & 4
  /\ ((c + 1) % Q) \div 4 = 0
  /\ And4(c + 2) = 0

WordsOk ==
  Part = "words" =>
    /\ Fold3(x) = x % 3
    /\ x <= 6 => Short3(x) = x % 3
    /\ x < Q => /\ Fold3(CentreFlag(x)) = Centered(x) % 3
                /\ RTest(x) <=> x \in {0, 1, Q - 1}

-----------------------------------------------------------------------------
(* The lift of HRSS: a/(x-1) modulo (3, Phi) by inner products and a          *)
(* recurrence of distance three, with no reduction before the end             *)
T0 == 3 - (N % 3)
LiftRec(a) ==
  LET z(j) == (T0 * j) % 3                       \* running weight
      c(i) == a[i + 1]
      last == z(N - 3)
      sum(off) == LET RECURSIVE S(_)
                      S(i) == IF i = N THEN 0 ELSE c(i) * (z(i - 3) + off * T0) + S(i + 1)
                  IN S(3)
      b0 == c(0) * (2 - T0) + c(2) * T0 + sum(2)
      b1 == c(1) * (2 - T0) + sum(1) + c(0) * (last + T0)
      b2 == c(2) * (2 - T0) + sum(0) + c(0) * last + c(1) * (last + T0)
      RECURSIVE B(_)
      B(i) == IF i = 0 THEN b0 ELSE IF i = 1 THEN b1 ELSE IF i = 2 THEN b2
              ELSE B(i - 3) + 2 * (c(i) + c(i - 1) + c(i - 2))
      b == [i \in Idx |-> B(i - 1)]
  IN [raw |-> b, out |-> TimesXm1(Z3ToZq([i \in Idx |-> (b[i] + 2 * b[N]) % 3]), Q)]

LiftOk == Part = "lift" =>
  LET a == Append(x, 0)  l == LiftRec(a) IN
  /\ l.out = Lift(a)
  /\ \A i \in Idx : l.raw[i] >= 0 /\ 3 * l.raw[i] < W

-----------------------------------------------------------------------------
(* Newton's iteration on words, modulo x^N - 1, with -1 - a in place of -a    *)
Newton(a) ==
  LET nb == [i \in Idx |-> (W - 1 - a[i]) % W]
      RECURSIVE It(_, _)
      It(v, k) == IF k = 0 THEN v
                  ELSE LET c == CyclicMul(v, nb, W)
                           d == [c EXCEPT ![1] = (c[1] + 2) % W]
                       IN It(CyclicMul(d, v, W), k - 1)
  IN It(Inv2(a), Rounds)

NewtonOk == Part = "newton" =>
  LET a == Append(x, 0) IN
  InvertibleS2(a) =>
     LET v == Newton(a) IN
     /\ SMul(v, a, Q) = One
     /\ ModPhi(v, Q) = InvQ(a)
-----------------------------------------------------------------------------
Messages == [1..(N - 1) -> 0..2]
(* what the key generation inverts: 3 * (1, 0, -1) polynomials, modulo q     *)
Tripled == [1..(N - 1) -> {0, 3, Q - 3}]
Init == x \in (CASE Part = "words" -> 0..(W - 1)
                 [] Part = "lift" -> Messages
                 [] Part = "newton" -> Tripled)
Next == UNCHANGED vars
-----------------------------------------------------------------------------
(* Mutants                                                                  *)
NoParameters == TRUE
MutFold(a) == LET r1 == Shr(a, 8) + Low(a, 8)  r2 == Shr(r1, 4) + Low(r1, 4)  r3 == Shr(r2, 2) + Low(r2, 2)
              IN IF r3 < 3 THEN r3 ELSE r3 - 3
MutRTest(c) == ((c + 1) % Q) \div 4 = 0
MutCentre(c) == LET r == Low(c, LOGQ) IN r + Shr(r, LOGQ - 1)
MutT0 == N % 3
=============================================================================
