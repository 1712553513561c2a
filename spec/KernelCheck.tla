---------------------------- MODULE KernelCheck -----------------------------
(* Standard vectors for the kernels, and agreement of each kernel (the Java *)
(* method when the class file is on the class path) with its definition.    *)
EXTENDS Kernel, SHA3Pure, AESPure, TLC, SequencesExt
VARIABLE x

Rnd(seed, n, q) ==     \* a small deterministic generator of test data
  FoldLeft(LAMBDA acc, i : LET t == (acc.s * 1103 + 12345) % 65536 IN
                           [s |-> t, v |-> Append(acc.v, (t \div 8) % q)],
           [s |-> seed, v |-> << >>], [i \in 1..n |-> i]).v

(* the S-box is inversion in GF(2^8) followed by the affine map             *)
GMul(a, b) ==
  LET RECURSIVE G(_, _, _)
      G(u, y, s) == IF y = 0 THEN s
                    ELSE G(XTime(u), y \div 2, IF y % 2 = 1 THEN Xor8(s, u) ELSE s)
  IN G(a, b, 0)
BitsOf(a) == [i \in 0..7 |-> (a \div 2^i) % 2]
AffineInv(a, inv) ==
  LET b == BitsOf(inv) c == BitsOf(99) s == BitsOf(SBoxSeq[a + 1]) IN
  \A i \in 0..7 : s[i] = (b[i] + b[(i+4)%8] + b[(i+5)%8] + b[(i+6)%8] + b[(i+7)%8] + c[i]) % 2
ASSUME AffineInv(0, 0) /\ \A a \in 1..255 : \E v \in 1..255 : GMul(a, v) = 1 /\ AffineInv(a, v)

Iota(n) == [i \in 1..n |-> (i - 1) % 256]

(* FIPS 197 C.3, FIPS 202 empty message *)
ASSUME AES256Def(Iota(32), [i \in 1..16 |-> 17 * (i - 1)]) =
   << 142,162,183,202,81,103,69,191,234,252,73,144,75,73,96,137 >>
ASSUME SHA3_256Def(<< >>) =
   << 167,255,198,248,191,30,215,102,81,193,71,86,160,97,214,98,
      245,128,255,77,228,59,73,250,130,216,10,75,128,248,67,74 >>

ASSUME \A n \in {0, 1, 135, 136, 137, 204, 272} : LET m == Rnd(n + 7, n, 256) IN SHA3_256(m) = SHA3_256Def(m)
ASSUME \A s \in 1..8 : LET k == Rnd(s, 32, 256) b == Rnd(s + 99, 16, 256) IN AES256(k, b) = AES256Def(k, b)
ASSUME \A c \in { <<5, 32>>, <<7, 3>>, <<13, 8192>>, <<29, 4096>>, <<101, 2048>> } :
         LET a == Rnd(c[1], c[1], c[2]) b == Rnd(c[2], c[1], c[2]) IN
         CyclicMul(a, b, c[2]) = CyclicMulDef(a, b, c[2])
ASSUME LET a == Rnd(1, 509, 2048) b == Rnd(2, 509, 2048) IN CyclicMul(a, b, 2048) = CyclicMulDef(a, b, 2048)
Scramble(n) == LET r == Rnd(n + 3, n, 4000) IN [i \in 1..n |-> r[i] - 2000]
ASSUME \A n \in {0, 1, 2, 7, 100, 820} : LET a == Scramble(n) IN SortInts(a) = SortIntsDef(a)
ASSUME SortInts(<<3, -5, 2147483647, 3, -2147483647, 0>>) = <<-2147483647, -5, 0, 3, 3, 2147483647>>

Init == x = 0
Next == FALSE /\ x' = x
=============================================================================
