-------------------------------- MODULE Drbg --------------------------------
(***************************************************************************)
(* The AES-256 counter-mode generator of the NIST PQC framework.           *)
(* State: key (32 bytes), v (16 bytes), rc (number of requests, as kept).  *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC, Kernel
LOCAL INSTANCE Bitwise

Zeros(n) == [i \in 1..n |-> 0]
DrbgNew == [key |-> Zeros(32), v |-> Zeros(16), rc |-> 0]

(* v + k modulo 2^128, v big endian                                         *)
AddV(v, k) ==
  LET RECURSIVE C(_)
      C(i) == IF i = 16 THEN k ELSE (v[i + 1] + C(i + 1)) \div 256   \* carry into byte i
  IN TLCEval([i \in 1..16 |-> (v[i] + C(i)) % 256])

(* n bytes of key stream: AES(key, v+1), AES(key, v+2), ...                 *)
Blocks(n) == (n + 15) \div 16
Stream(key, v, n) ==
  LET blk == TLCEval([b \in 1..Blocks(n) |-> AES256(key, AddV(v, b))])
  IN TLCEval([i \in 1..n |-> blk[((i - 1) \div 16) + 1][((i - 1) % 16) + 1]])

Update(key, v, data) ==
  LET s == Stream(key, v, 48)
      t == TLCEval([i \in 1..48 |-> s[i] ^^ data[i]])
  IN [key |-> SubSeq(t, 1, 32), v |-> SubSeq(t, 33, 48)]

WrapI32(x) == IF x = 2147483647 THEN -2147483647 - 1 ELSE x + 1

DrbgInit(seed) == LET u == Update(Zeros(32), Zeros(16), seed) IN
                  [key |-> u.key, v |-> u.v, rc |-> 1]

(* a request for n bytes: the bytes, and the state afterwards               *)
DrbgOut(s, n) == Stream(s.key, s.v, n)
DrbgNext(s, n) ==
  LET u == Update(s.key, AddV(s.v, Blocks(n)), Zeros(48)) IN
  [key |-> u.key, v |-> u.v, rc |-> WrapI32(s.rc)]
=============================================================================
