------------------------------ MODULE SHA3Pure ------------------------------
(* FIPS 202 SHA3-256, bit by bit.  A state is a function [0..1599 -> 0..1], *)
(* lane (x,y) bit z at 64*(5y+x)+z.                                         *)
EXTENDS Naturals, Sequences
LOCAL INSTANCE TLC

LOCAL Rot == << 0, 1, 62, 28, 27,  36, 44, 6, 55, 20,  3, 10, 43, 25, 39,
                41, 45, 15, 21, 8,  18, 2, 61, 56, 14 >>    \* index 5y+x

(* bit positions that are set in round constant RC[t], t = 1..24           *)
LOCAL RC == <<
  {0}, {1,7,15}, {1,3,7,15,63}, {15,31,63}, {0,1,3,7,15}, {0,31},
  {0,7,15,31,63}, {0,3,15,63}, {1,3,7}, {3,7}, {0,3,15,31}, {1,3,31},
  {0,1,3,7,15,31}, {0,1,3,7,63}, {0,3,7,15,63}, {0,1,15,63}, {1,15,63}, {7,63},
  {1,3,15}, {1,3,31,63}, {0,7,15,31,63}, {7,15,63}, {0,31}, {3,15,31,63} >>

LOCAL Bit(s, x, y, z) == s[64 * (5 * y + x) + z]

LOCAL Theta(s) ==
  LET C == TLCEval([i \in 0..319 |-> LET x == i \div 64 z == i % 64 IN
                      (Bit(s,x,0,z) + Bit(s,x,1,z) + Bit(s,x,2,z) + Bit(s,x,3,z) + Bit(s,x,4,z)) % 2])
  IN TLCEval([i \in 0..1599 |-> LET x == (i \div 64) % 5 z == i % 64 IN
                (s[i] + C[64 * ((x + 4) % 5) + z] + C[64 * ((x + 1) % 5) + ((z + 63) % 64)]) % 2])

(* B[y, 2x+3y] = rot(A[x,y], r[x,y])                                        *)
LOCAL RhoPi(s) ==
  TLCEval([i \in 0..1599 |->
     LET X == (i \div 64) % 5  Y == i \div 320  z == i % 64
         y == X
         \* X = y, Y = 2x+3y  =>  x = (Y - 3y) / 2 = 3(Y + 2y) mod 5
         x == (3 * (Y + 2 * y)) % 5
     IN  Bit(s, x, y, (z + 64 - (Rot[5 * y + x + 1] % 64)) % 64)])

LOCAL ChiIota(s, t) ==
  TLCEval([i \in 0..1599 |->
     LET x == (i \div 64) % 5  y == i \div 320  z == i % 64 IN
     ( s[i] + (1 - Bit(s, (x + 1) % 5, y, z)) * Bit(s, (x + 2) % 5, y, z)
       + (IF i < 64 /\ i \in RC[t] THEN 1 ELSE 0) ) % 2])

LOCAL KeccakF(s0) ==
  LET RECURSIVE Round(_, _)
      Round(s, t) == IF t > 24 THEN s
                     ELSE LET n == TLCEval(ChiIota(RhoPi(Theta(s)), t)) IN Round(n, t + 1)
  IN Round(s0, 1)

LOCAL Rate == 136

LOCAL Pad(bytes) ==
  LET k == Rate - (Len(bytes) % Rate) IN
  IF k = 1 THEN bytes \o << 134 >>                       \* 0x06 | 0x80
  ELSE bytes \o << 6 >> \o [i \in 1..(k - 2) |-> 0] \o << 128 >>

SHA3_256Def(bytes) ==
  LET p == TLCEval(Pad(bytes))
      nb == Len(p) \div Rate
      RECURSIVE Absorb(_, _)
      Absorb(s, j) ==
        IF j = nb THEN s
        ELSE LET x == TLCEval([i \in 0..1599 |->
                        IF i < 8 * Rate
                        THEN (s[i] + (p[Rate * j + (i \div 8) + 1] \div 2^(i % 8))) % 2
                        ELSE s[i]])
             IN Absorb(KeccakF(x), j + 1)
      out == TLCEval(Absorb([i \in 0..1599 |-> 0], 0))
  IN TLCEval([j \in 1..32 |-> LET o == 8 * (j - 1) IN
        out[o] + 2*out[o+1] + 4*out[o+2] + 8*out[o+3] + 16*out[o+4] + 32*out[o+5] + 64*out[o+6] + 128*out[o+7]])
=============================================================================
