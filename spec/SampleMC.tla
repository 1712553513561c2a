------------------------------ MODULE SampleMC ------------------------------
(***************************************************************************)
(* The samplers and the byte encodings over small parameters, on all       *)
(* inputs of a finite domain.                                              *)
(***************************************************************************)
EXTENDS Ntru, FiniteSets
CONSTANTS Kind,        \* which domain
          Values       \* values a byte, word or coefficient runs through

VARIABLE x             \* the input under consideration
Init == x \in [1..(N - 1) -> Values]
Next == UNCHANGED x

Poly == Append(x, 0)                        \* x as coefficients
Corr(t) == FoldLeft(LAMBDA s, i : s + SignOf(t[i]) * SignOf(t[i + 1]), 0, [i \in 1..(N - 1) |-> i])

(* x as 30-bit words, packed little endian with ones in the unused bits       *)
WordBytes ==
  [j \in 1..FtBytes |->
     LET Bit(t) == IF t < 30 * (N - 1) THEN (x[(t \div 30) + 1] \div 2^(t % 30)) % 2 ELSE 1
         o == 8 * (j - 1)
     IN Bit(o) + 2 * Bit(o + 1) + 4 * Bit(o + 2) + 8 * Bit(o + 3) + 16 * Bit(o + 4) + 32 * Bit(o + 5) + 64 * Bit(o + 6) + 128 * Bit(o + 7)]
Signed(w) == IF w >= 2^29 THEN w - 2^30 ELSE w

Ternaries ==
  Kind = "ternary" =>
    /\ IsTernary(Ternary(x)) /\ Ternary(x)[N] = 0
    /\ \A i \in 1..(N - 1) : (x[i] - Ternary(x)[i]) % 3 = 0
PlusSigns ==
  Kind = "ternary" =>
    LET p == TernaryPlus(x) t == Ternary(x) IN
    /\ Corr(p) >= 0
    /\ \A i \in Idx : (p[i] = 0) = (t[i] = 0)
    /\ Corr(p) = (IF Corr(t) < 0 THEN -Corr(t) ELSE Corr(t))
    /\ Corr(t) >= 0 => p = t
    /\ \A i \in Idx : i % 2 = 0 => p[i] = t[i]
WordsRead ==
  Kind = "words" => \A i \in 1..(N - 1) : Word30(WordBytes, i - 1) = Signed(x[i])
(* Every outcome is a message; position k gets sign 1 exactly if the k-th     *)
(* smallest word is one of the first WEIGHT/2 (when all words differ)         *)
FixedTypes ==
  Kind = "words" =>
    LET m == FixedType(WordBytes)
        Rank(i) == 1 + Cardinality({j \in 1..(N - 1) : Signed(x[j]) < Signed(x[i])})
        distinct == Cardinality({x[i] : i \in 1..(N - 1)}) = N - 1
    IN /\ IsMessage(m)
       /\ distinct => \A i \in 1..(N - 1) : m[Rank(i)] = Tag(i - 1)

QCodec ==
  Kind = "coefficients" =>
    LET b == PackQ(Poly) u == UnpackSumZero(b) IN
    /\ Len(b) = QBytes /\ PaddingClear(b)
    /\ UnpackSq(b) = Poly
    /\ \A i \in 1..(N - 1) : u[i] = x[i]
    /\ SumMod(u, Q) = 0
    /\ PackQ(u) = b
(* every byte string decodes, and a clear padding is all that is lost          *)
QDecode ==
  Kind = "bytes" =>
    LET b == [j \in 1..QBytes |-> IF j < N THEN x[j] ELSE x[1]] u == UnpackSq(b) IN
    /\ \A i \in Idx : u[i] \in 0..(Q - 1)
    /\ (PackQ(u) = b) = PaddingClear(b)
TCodec ==
  Kind = "ternary" =>
    LET t == Ternary(x) b == PackT(t) IN
    /\ Len(b) = TBytes /\ \A j \in 1..TBytes : b[j] < 243
    /\ UnpackT(b) = t
TDecode ==
  Kind = "bytes" =>
    LET b == [j \in 1..TBytes |-> x[j]] u == UnpackT(b) IN
    /\ IsTernary(u)
    /\ PackT(u) = b <=> (\A j \in 1..(TBytes - 1) : b[j] < 243) /\ b[TBytes] < 3^((N - 1) - 5 * (TBytes - 1))
(* the lift: ternary coefficients reduce back to the message                 *)
Lifts ==
  Kind = "ternary" =>
    LET m == Ternary(x) l == Lift(m) IN
    /\ \A i \in Idx : LET c == Centered(l[i]) IN c \in -2..2
    /\ RqToS3(l) = m
    /\ FAMILY = "HRSS" => SumMod(l, Q) = 0
(* inverses in the three rings                                               *)
Fields == PrimitiveRoot(2) /\ PrimitiveRoot(3)
Inverses ==
  (Kind = "ternary" /\ Fields) =>
    LET t == Ternary(x) IN
    t # Const(0) => /\ IsInv3(Inv3(t), t)
                    /\ InvertibleS2(Z3ToZq(t)) /\ IsInvQ(InvQ(Z3ToZq(t)), ModPhi(Z3ToZq(t), Q))

(* Mutants                                                                  *)
MutDropTags(u) ==        \* the lowest bit of a word leaks into the tag
  LET words  == TLCEval([i \in 1..(N - 1) |-> 2 * Word30(u, i - 1) + Tag(i - 1)])
      sorted == SortInts(words)
  IN TLCEval([i \in Idx |-> IF i = N THEN 0 ELSE sorted[i] % 4])
NoParameters == TRUE       \* small instances whose N does not make the rings fields
MutUnsigned(u) ==
  LET W(i) == LET w == Word30(u, i) IN IF w < 0 THEN w + 2^30 ELSE w
      words  == TLCEval([i \in 1..(N - 1) |-> <<W(i - 1), Tag(i - 1)>>])
      sorted == SortSeq(words, LAMBDA p, q : p[1] < q[1] \/ (p[1] = q[1] /\ p[2] < q[2]))
  IN TLCEval([i \in Idx |-> IF i = N THEN 0 ELSE sorted[i][2]])
MutTag(i) == IF i <= WEIGHT \div 2 THEN 1 ELSE IF i < WEIGHT THEN 2 ELSE 0
MutPlus(u) ==            \* sign of odd degrees flipped too
  LET a == Ternary(u)
      corr == FoldLeft(LAMBDA s, i : s + SignOf(a[i]) * SignOf(a[i + 1]), 0, [i \in 1..(N - 1) |-> i])
  IN IF corr > 0 THEN a ELSE TLCEval([i \in Idx |-> IF i % 2 = 1 THEN (3 - a[i]) % 3 ELSE a[i]])
MutUnpackT(b) ==         \* the fifth coefficient is what is left over
  TLCEval([k \in Idx |->
     IF k = N THEN 0
     ELSE LET c == b[((k - 1) \div 5) + 1] \div 3^((k - 1) % 5) IN IF (k - 1) % 5 = 4 THEN c ELSE c % 3])
MutPadding(b) == b[QBytes] < 2^(7 - PadBits)
=============================================================================
