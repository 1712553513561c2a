-------------------------------- MODULE Ntru --------------------------------
(***************************************************************************)
(* The NTRU trapdoor function (HPS and HRSS) and the KEM built on it.      *)
(***************************************************************************)
EXTENDS Sampling
CONSTANT Hash(_)      \* SHA3-256 in the concrete instances

(* Parameters: N is a prime for which 2 and 3 are primitive roots, so that   *)
(* S_2 and S_3 are fields; the coefficients of 3gr + f Lift(m) stay in       *)
(* (-q/2, q/2), HRSS by |(x-1)g| <= sqrt(2)|g| for the sampled g; and the     *)
(* two uses of the hash have inputs of different lengths.                   *)
PrimitiveRoot(b) ==
  LET pw == FoldLeft(LAMBDA s, k : Append(s, (s[k] * b) % N), <<b>>, [k \in 1..(N - 2) |-> k])
  IN \A k \in 1..(N - 2) : pw[k] # 1
Parameters ==
  /\ \A d \in 2..(N - 1) : d * d <= N => N % d # 0
  /\ PrimitiveRoot(2) /\ PrimitiveRoot(3)
  /\ FAMILY = "HPS" => WEIGHT % 2 = 0 /\ 0 < WEIGHT /\ WEIGHT < N - 1 /\ 4 * WEIGHT < Q \div 2
  /\ FAMILY = "HRSS" => 32 * (N - 1) * (N - 1) < (Q \div 2) * (Q \div 2)
  /\ 2 * TBytes # PrfBytes + QBytes
ASSUME Parameters

(* HPS: Lift(m) is m with coefficients -1, 0, 1.                            *)
(* HRSS: Lift(m) = (x-1) * v, v ternary with (x-1) * v = m in S_3.          *)
(* 1/(x-1) = (sum i x^i) / N modulo Phi.                                    *)
InvXm1 == LET ninv == IF N % 3 = 1 THEN 1 ELSE 2 IN
          [i \in Idx |-> (ninv * ((i - 1) % 3)) % 3]
Lift(m) ==
  IF FAMILY = "HPS" THEN Z3ToZq(m)
  ELSE TimesXm1(Z3ToZq(SMul(m, InvXm1, 3)), Q)

(* The "g" that enters the key equation: 3g, or 3(x-1)g for HRSS            *)
G3(g) == LET b == Z3ToZq(g) IN Scale(3, IF FAMILY = "HPS" THEN b ELSE TimesXm1(b, Q), Q)

(***************************************************************************)
(* Keys                                                                    *)
(***************************************************************************)
(* h is the public key polynomial of (f, g): f * h = 3g (HRSS 3(x-1)g), and *)
(* h vanishes at 1.                                                        *)
IsPublicFor(h, f, g) ==
  /\ SMul(h, Z3ToZq(f), Q) = ModPhi(G3(g), Q)
  /\ SumMod(h, Q) = 0
IsInv3(u, f) == u[N] = 0 /\ IsTernary(u) /\ SMul(u, f, 3) = One
IsInvQ(u, h) == u[N] = 0 /\ SMul(u, h, Q) = One

KeyUsable(f, g) == InvertibleS3(f) /\ InvertibleS2(Z3ToZq(f)) /\ InvertibleS2(G3(g))

(* The same, computed                                                       *)
PublicOf(f, g) ==      \* in S_q, then the representative with h(1) = 0
  LET s == SMul(InvQ(Z3ToZq(f)), ModPhi(G3(g), Q), Q)
      \* a + c*Phi has coefficient sum  sum(a) + c*N  with N odd
      ninv == CHOOSE v \in 0..(Q - 1) : (v * (N % Q)) % Q = 1
      c == (-(SumMod(s, Q)) * ninv) % Q
  IN TLCEval([i \in Idx |-> (s[i] + c) % Q])

(***************************************************************************)
(* Trapdoor function and inverse, on polynomials                           *)
(***************************************************************************)
EncPoly(h, r, m) == Add(RMul(Z3ToZq(r), h, Q), Lift(m), Q)

(* Everything decapsulation derives from a ciphertext polynomial c and a    *)
(* secret key (f ternary, fp = f^-1 in S_3, hq = h^-1 in S_q)                *)
DecPoly(c, f, fp, hq) ==
  LET m == SMul(RqToS3(RMul(c, Z3ToZq(f), Q)), fp, 3)
      r == SMul(Sub(c, Lift(m), Q), hq, Q)
  IN [m |-> m, r |-> r, ok |-> IsTernaryQ(r) /\ IsMessage(m)]

(***************************************************************************)
(* Byte level                                                              *)
(***************************************************************************)
PkBytes == QBytes
CtBytes == QBytes
SkBytes == 2 * TBytes + QBytes + PrfBytes
SsBytes == 32

SkF(sk)   == UnpackT(SubSeq(sk, 1, TBytes))
SkFp(sk)  == UnpackT(SubSeq(sk, TBytes + 1, 2 * TBytes))
SkHq(sk)  == UnpackSq(SubSeq(sk, 2 * TBytes + 1, 2 * TBytes + QBytes))
SkPrf(sk) == SubSeq(sk, 2 * TBytes + QBytes + 1, SkBytes)

(* the secret key bytes with the given parts *)
SkOf(f, fp, hq, prf) == PackT(f) \o PackT(fp) \o PackQ(hq) \o prf

KeyGenBytes(seed, prf) ==
  LET s == SampleFG(seed)  h == PublicOf(s.f, s.g) IN
  [pk |-> PackQ(h), sk |-> SkOf(s.f, Inv3(s.f), InvQ(ModPhi(h, Q)), prf)]

SecretOf(r, m) == Hash(PackT(r) \o PackT(m))
RejectOf(prf, ct) == Hash(prf \o ct)

EncBytes(pk, seed) ==
  LET s == SampleRM(seed) IN
  [ct |-> PackQ(EncPoly(UnpackSumZero(pk), s.r, s.m)), ss |-> SecretOf(s.r, s.m)]

(* A ciphertext opens under sk iff its padding is clear and the recovered r *)
(* and m are in the message space.                                          *)
DecView(sk, ct) ==
  LET d == DecPoly(UnpackSumZero(ct), SkF(sk), SkFp(sk), SkHq(sk)) IN
  [m |-> d.m, r |-> d.r, valid |-> d.ok /\ PaddingClear(ct)]

DecBytes(sk, ct) ==
  LET d == DecView(sk, ct) IN
  IF d.valid THEN SecretOf(ZqToZ3(d.r), d.m) ELSE RejectOf(SkPrf(sk), ct)
=============================================================================
