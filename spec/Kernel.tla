------------------------------- MODULE Kernel -------------------------------
(***************************************************************************)
(* The four computational kernels of the specification, each with a plain *)
(* TLA+ definition.  When java/Kernel.class is on TLC's class path, TLC    *)
(* evaluates CyclicMul, SHA3_256, AES256 and SortInts with the Java        *)
(* methods of the same names (a schoolbook convolution, and the JDK's own  *)
(* SHA-3, AES and sort).                                                   *)
(* The definitions below stay the meaning of the operators: module         *)
(* KernelCheck evaluates both (without the class file TLC evaluates these  *)
(* definitions) and compares them on standard test vectors.                *)
(***************************************************************************)
EXTENDS Naturals, Sequences
LOCAL INSTANCE TLC
LOCAL INSTANCE SequencesExt
LOCAL INSTANCE SHA3Pure
LOCAL INSTANCE AESPure

(* Product of a and b in Z_q[x]/(x^n - 1).  A polynomial is the sequence   *)
(* of its n coefficients, the constant term first.                         *)
CyclicMulDef(a, b, q) ==
  LET n  == Len(a)
      ix == TLCEval([i \in 1..n |-> i])
  IN  TLCEval([k \in 1..n |->
        FoldLeft(LAMBDA s, i : (s + a[i] * b[((k + n - i) % n) + 1]) % q, 0, ix)])

CyclicMul(a, b, q) == CyclicMulDef(a, b, q)

(* SHA3-256 of a sequence of bytes: 32 bytes.                              *)
SHA3_256(bytes) == SHA3_256Def(bytes)

(* A sequence of integers in increasing order.                             *)
SortIntsDef(seq) == SortSeq(seq, <)
SortInts(seq) == SortIntsDef(seq)

(* AES-256 of one 16-byte block under a 32-byte key.                       *)
AES256(key, block) == AES256Def(key, block)
=============================================================================
