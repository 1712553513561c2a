------------------------------ MODULE Encoding ------------------------------
(***************************************************************************)
(* Byte encodings.  Modulo-q polynomials: the N-1 low coefficients as one  *)
(* little-endian bit string of LOGQ bits each, zero padded to a byte.      *)
(* Ternary polynomials: five coefficients per byte, base 3, low first.     *)
(***************************************************************************)
EXTENDS Ring
ASSUME LOGQ >= 4 /\ LOGQ <= 13

QBytes == (LOGQ * (N - 1) + 7) \div 8        \* public key, ciphertext, h^-1
TBytes == ((N - 1) + 4) \div 5               \* one ternary polynomial
PadBits == (8 - ((LOGQ * (N - 1)) % 8)) % 8   \* unused bits of the last byte

(* byte j (from 0) covers bits 8j..8j+7; these touch at most two            *)
(* coefficients (three if LOGQ < 8, in the small instances only)            *)
PackQ(a) ==
  TLCEval([j \in 1..QBytes |->
     LET o  == 8 * (j - 1)
         i  == o \div LOGQ                                  \* first coefficient
         lo == a[i + 1]
         hi == IF i + 1 < N - 1 THEN a[i + 2] ELSE 0
         h2 == IF LOGQ < 8 /\ i + 2 < N - 1 THEN Q * Q * a[i + 3] ELSE 0
     IN ((lo + Q * hi + h2) \div 2^(o % LOGQ)) % 256])

(* coefficient i: LOGQ bits from bit i*LOGQ, inside three bytes             *)
UnpackSq(b) ==
  TLCEval([k \in Idx |->
     IF k = N THEN 0
     ELSE LET o == (k - 1) * LOGQ
              j == o \div 8
              At(t) == IF t < QBytes THEN b[t + 1] ELSE 0
          IN ((At(j) + 256 * At(j + 1) + 65536 * At(j + 2)) \div 2^(o % 8)) % Q])

(* Public keys and ciphertexts are multiples of x - 1: the last coefficient *)
(* is the one that makes the coefficients add up to zero.                   *)
UnpackSumZero(b) ==
  LET a == UnpackSq(b) IN TLCEval([a EXCEPT ![N] = (-SumMod(a, Q)) % Q])

PaddingClear(b) == b[QBytes] < 2^(8 - PadBits)

PackT(a) ==
  TLCEval([j \in 1..TBytes |->
     LET o == 5 * (j - 1)
         At(t) == IF t < N - 1 THEN a[t + 1] ELSE 0
     IN At(o) + 3 * At(o + 1) + 9 * At(o + 2) + 27 * At(o + 3) + 81 * At(o + 4)])

UnpackT(b) ==
  TLCEval([k \in Idx |->
     IF k = N THEN 0
     ELSE (b[((k - 1) \div 5) + 1] \div 3^((k - 1) % 5)) % 3])
=============================================================================
