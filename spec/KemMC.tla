-------------------------------- MODULE KemMC --------------------------------
(***************************************************************************)
(* The KEM as a game, over small rings, exhaustively.                      *)
(*                                                                         *)
(* An owner makes a key pair; then either an honest sender encapsulates,   *)
(* or an adversary submits any byte string; the owner decapsulates.  Every *)
(* choice (f, g, r, m, ciphertext bytes) is nondeterministic.  The hash is *)
(* symbolic: Hash(x) is the term <<"H", x>>, so that two secrets are equal *)
(* exactly if they were derived from the same bytes.                       *)
(*                                                                         *)
(* What is proved here, at these sizes, is what the obligations of         *)
(* KemTrace rest on: agreement, that a ciphertext opens exactly if it is   *)
(* the encapsulation of the recovered (r, m), and that what is returned    *)
(* otherwise is bound to the rejection key and all of the ciphertext.      *)
(***************************************************************************)
EXTENDS Ntru, FiniteSets
CONSTANTS FSet, GSet,       \* candidates for f and g (polynomials)
          Forge(_)          \* byte strings the adversary may submit, knowing the public key

SymHash(x) == <<"H", x>>

VARIABLES phase, key, ct, sent, out
vars == <<phase, key, ct, sent, out>>

Tern == {t \in [1..N -> {0, 1, 2}] : t[N] = 0}
Messages == {m \in Tern : FAMILY = "HPS" => Count(m, 1) = WEIGHT \div 2 /\ Count(m, 2) = WEIGHT \div 2}
FixedWeight == {m \in Tern : Count(m, 1) = WEIGHT \div 2 /\ Count(m, 2) = WEIGHT \div 2}
Correlation(a) == FoldLeft(LAMBDA s, i : s + SignOf(a[i]) * SignOf(a[i + 1]), 0, [i \in 1..(N - 1) |-> i])
Plus == {t \in Tern : Correlation(t) >= 0}

Prf == [i \in 1..PrfBytes |-> i]

Init == phase = "start" /\ key = <<>> /\ ct = <<>> /\ sent = <<>> /\ out = <<>>

KeyGen ==
  /\ phase = "start"
  /\ \E f \in FSet, g \in GSet :
       /\ KeyUsable(f, g)
       /\ LET h == PublicOf(f, g) IN
          key' = TLCEval([f |-> f, g |-> g, pk |-> PackQ(h), sk |-> SkOf(f, Inv3(f), InvQ(ModPhi(h, Q)), Prf)])
  /\ phase' = "ready" /\ UNCHANGED <<ct, sent, out>>

Encaps ==
  /\ phase = "ready"
  /\ \E r \in Tern, m \in Messages :
       /\ ct' = TLCEval(PackQ(EncPoly(UnpackSumZero(key.pk), r, m)))
       /\ sent' = [r |-> r, m |-> m]
  /\ phase' = "sent" /\ UNCHANGED <<key, out>>

Submit ==
  /\ phase = "ready"
  /\ \E c \in Forge(key.pk) : ct' = c
  /\ sent' = <<>> /\ phase' = "sent" /\ UNCHANGED <<key, out>>

Decaps ==
  /\ phase = "sent"
  /\ out' = TLCEval([view |-> DecView(key.sk, ct), ss |-> DecBytes(key.sk, ct)])
  /\ phase' = "done" /\ UNCHANGED <<key, ct, sent>>

Next == KeyGen \/ Encaps \/ Submit \/ Decaps

-----------------------------------------------------------------------------
Done == phase = "done"
(* the pair satisfies the key equations                                     *)
KeysOk ==
  phase = "ready" =>
    LET h == UnpackSumZero(key.pk) IN
    /\ IsPublicFor(h, key.f, key.g)
    /\ SkF(key.sk) = key.f
    /\ IsInv3(SkFp(key.sk), key.f)
    /\ IsInvQ(SkHq(key.sk), ModPhi(h, Q))
    /\ SkPrf(key.sk) = Prf
(* agreement: what was sent is recovered, and both sides have the same secret *)
Agreement ==
  (Done /\ sent # <<>>) =>
    /\ out.view.valid
    /\ ZqToZ3(out.view.r) = sent.r /\ out.view.m = sent.m
    /\ out.ss = <<"H", PackT(sent.r) \o PackT(sent.m)>>
(* a ciphertext opens only if it is the encapsulation of some (r, m), and    *)
(* then to the secret of that (r, m)                                        *)
Rigidity ==
  Done =>
    LET r == ZqToZ3(out.view.r) m == out.view.m
        opens == /\ r \in Tern /\ m \in Messages
                 /\ PackQ(EncPoly(UnpackSumZero(key.pk), r, m)) = ct
    IN /\ out.view.valid = opens
       /\ opens => out.ss = <<"H", PackT(r) \o PackT(m)>>
(* otherwise the secret is a function of rejection key and ciphertext, from  *)
(* which both can be read off, and no encapsulation has it                  *)
Rejection ==
  (Done /\ ~out.view.valid) =>
    /\ out.ss = <<"H", Prf \o ct>>
    /\ Len(out.ss[2]) # 2 * TBytes

-----------------------------------------------------------------------------
(* Instances                                                               *)
AllTern == Tern
SomeTern == {t \in Tern : t[1] = 1 /\ t[2] # 2}
TwoF == {<<1, 2, 1, 0, 0>>, <<0, 2, 0, 1, 0>>}
OneF == {<<1, 2, 1, 0, 0>>}
BalF == {<<0, 2, 0, 1, 0>>}
OneG == {CHOOSE g \in FixedWeight : g[2] = 1 /\ g[4] = 2}
TwoG == {CHOOSE g \in FixedWeight : g[2] = 1 /\ g[4] = 2, CHOOSE g \in FixedWeight : g[1] = 2 /\ g[2] = 1}
OneGPlus == {<<1, 1, 2, 0, 0>>}
TwoGPlus == {<<1, 1, 2, 0, 0>>, <<2, 2, 2, 2, 0>>}
None(pk) == {}
WithPad(p, v) == [p EXCEPT ![QBytes] = @ + 2^(8 - PadBits) * v]
PadVals == IF PadBits = 0 THEN {0} ELSE {0, 1}
(* all coefficient vectors, without and with a set padding bit               *)
AllCt(pk) ==
  {WithPad(PackQ(<<c[1], c[2], c[3], c[4], 0>>), c[5])
     : c \in (0..(Q - 1)) \X (0..(Q - 1)) \X (0..(Q - 1)) \X (0..(Q - 1)) \X PadVals}
(* a slice: two coefficients run through all values                          *)
SliceCt(pk) ==
  {WithPad(PackQ(<<c[1], c[2], c[3], c[4], 0>>), c[5])
     : c \in {0, 1, 2, Q \div 2, Q - 1, Q - 2} \X (0..(Q - 1)) \X (0..(Q - 1)) \X {0, 1, 3, Q - 1, Q - 3} \X PadVals}
ThinCt(pk) ==
  {WithPad(PackQ(<<c[1], c[2], c[3], c[4], 0>>), c[5])
     : c \in {0, Q \div 2} \X (0..(Q - 1)) \X (0..(Q - 1)) \X {1, Q - 3} \X PadVals}
(* made with the public key from any small r and any ternary m: out of range *)
(* by some coefficients of r, or by the weight of m.  The multiple of Phi    *)
(* that makes the coefficients sum to zero is invisible to a key with        *)
(* f(1) = 0.                                                                *)
SumZero(a) == LET ninv == CHOOSE v \in 0..(Q - 1) : (v * N) % Q = 1
                  k == (-(SumMod(a, Q)) * ninv) % Q
              IN [i \in Idx |-> (a[i] + k) % Q]
Crafted(h, r, m) == PackQ(SumZero(Add(RMul(Append(r, 0), h, Q), Lift(m), Q)))
CraftCt(pk) ==
  LET h == UnpackSumZero(pk) v == {0, 1, 2, Q - 1, Q - 2} IN
  {Crafted(h, r, m) : r \in v \X v \X v \X v, m \in {t \in Tern : t[1] # 2}}
FewCraft(pk) ==
  LET h == UnpackSumZero(pk) v == {0, 1, 2, Q - 1, Q - 2} IN
  {WithPad(Crafted(h, r, m), p) :
     r \in v \X {0, 1} \X {Q - 1} \X v, m \in {t \in Tern : t[1] # 2 /\ t[2] # 0}, p \in PadVals}

(* Mutants of the design: replacing the named operator, each must be refuted *)
MutAnyMessage(m) == IsTernary(m) /\ m[N] = 0
MutEqualCounts(m) == IsTernary(m) /\ m[N] = 0 /\ Count(m, 1) = Count(m, 2)
MutTotalWeight(m) == IsTernary(m) /\ m[N] = 0 /\ Count(m, 0) = N - WEIGHT
MutLooseR(a) == \A i \in Idx : a[i] \in {0, 1, 2, Q - 1}
MutFirstR(a) == \A i \in 1..(N - 2) : a[i] \in {0, 1, Q - 1}
MutNoPadding(b) == TRUE
MutCentered(c) == IF c < Q \div 4 THEN c ELSE c - Q
MutNoTail(prf, c) == Hash(prf \o SubSeq(c, 1, Len(c) - 1))
MutNoKey(prf, c) == Hash(c)
MutShortKey(prf, c) == Hash(SubSeq(prf, 1, 16) \o c)
MutLift(m) == Z3ToZq(m)
MutSecret(r, m) == Hash(PackT(m) \o PackT(r))
MutPublicOf(f, g) ==         \* the representative with last coefficient zero
  SMul(InvQ(Z3ToZq(f)), ModPhi(G3(g), Q), Q)
MutRqToS3(a) == ModPhi([i \in Idx |-> a[i] % 3], 3)
TrueParameters == TRUE
=============================================================================
