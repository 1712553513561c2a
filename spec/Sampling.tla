------------------------------ MODULE Sampling ------------------------------
(***************************************************************************)
(* From uniform bytes to ternary polynomials.                              *)
(***************************************************************************)
EXTENDS Encoding
CONSTANTS FAMILY,     \* "HPS" or "HRSS"
          WEIGHT      \* HPS: number of non-zero coefficients of g and m

IidBytes == N - 1
FtBytes  == (30 * (N - 1) + 7) \div 8
FGBytes  == IF FAMILY = "HPS" THEN IidBytes + FtBytes ELSE 2 * IidBytes
RMBytes  == FGBytes
PrfBytes == 32

Ternary(u) == TLCEval([i \in Idx |-> IF i = N THEN 0 ELSE u[i] % 3])

(* HRSS: flip the signs of the even-degree coefficients when the            *)
(* correlation of the polynomial with its shift is negative                *)
SignOf(t) == IF t = 2 THEN -1 ELSE t
TernaryPlus(u) ==
  LET a == Ternary(u)
      corr == FoldLeft(LAMBDA s, i : s + SignOf(a[i]) * SignOf(a[i + 1]), 0, [i \in 1..(N - 1) |-> i])
  IN IF corr >= 0 THEN a
     ELSE TLCEval([i \in Idx |-> IF i % 2 = 1 THEN (3 - a[i]) % 3 ELSE a[i]])

(* HPS: N-1 words of 30 bits, little endian; the first WEIGHT/2 get tag 1,   *)
(* the next WEIGHT/2 tag 2, the others tag 0; sorted as signed 32-bit       *)
(* numbers 4*word + tag, the tags are the coefficients.                     *)
Word30(u, i) ==        \* as a signed number, i from 0
  LET o == 30 * i
      j == o \div 8
      s == o % 8                                      \* 0, 2, 4 or 6
      At(t) == IF t < FtBytes THEN u[t + 1] ELSE 0
      \* 30 bits from bit s of bytes j..j+4, low part first
      lo == (At(j) \div 2^s) + 2^(8 - s) * (At(j + 1) + 256 * At(j + 2))     \* 24 - s bits
      hi == At(j + 3) + 256 * At(j + 4)
      w  == lo + 2^(24 - s) * (hi % 2^(6 + s))
  IN IF w >= 2^29 THEN w - 2^30 ELSE w
Tag(i) == IF i < WEIGHT \div 2 THEN 1 ELSE IF i < WEIGHT THEN 2 ELSE 0
FixedType(u) ==
  LET words  == TLCEval([i \in 1..(N - 1) |-> 4 * Word30(u, i - 1) + Tag(i - 1)])
      sorted == SortInts(words)
  IN TLCEval([i \in Idx |-> IF i = N THEN 0 ELSE sorted[i] % 4])

SampleFG(u) ==
  LET a == SubSeq(u, 1, IidBytes)  b == SubSeq(u, IidBytes + 1, FGBytes) IN
  IF FAMILY = "HPS" THEN [f |-> Ternary(a), g |-> FixedType(b)]
  ELSE [f |-> TernaryPlus(a), g |-> TernaryPlus(b)]

SampleRM(u) ==
  LET a == SubSeq(u, 1, IidBytes)  b == SubSeq(u, IidBytes + 1, RMBytes) IN
  [r |-> Ternary(a), m |-> IF FAMILY = "HPS" THEN FixedType(b) ELSE Ternary(b)]

(* Message space.  HPS: WEIGHT/2 coefficients of each sign; HRSS: all.      *)
IsMessage(m) ==
  /\ IsTernary(m) /\ m[N] = 0
  /\ FAMILY = "HPS" => Count(m, 1) = WEIGHT \div 2 /\ Count(m, 2) = WEIGHT \div 2
=============================================================================
