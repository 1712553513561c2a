------------------------------ MODULE AESPure -------------------------------
(* FIPS 197 AES-256 encryption of one block.  Bytes are 0..255; ^^ is bitwise xor.*)
EXTENDS Naturals, Sequences
LOCAL INSTANCE TLC
LOCAL INSTANCE Bitwise

Xor8(a, b) == a ^^ b

(* The S-box, a literal; KernelCheck derives it from its definition.        *)
SBoxSeq == <<
     99, 124, 119, 123, 242, 107, 111, 197, 48, 1, 103, 43, 254, 215, 171, 118,
     202, 130, 201, 125, 250, 89, 71, 240, 173, 212, 162, 175, 156, 164, 114, 192,
     183, 253, 147, 38, 54, 63, 247, 204, 52, 165, 229, 241, 113, 216, 49, 21,
     4, 199, 35, 195, 24, 150, 5, 154, 7, 18, 128, 226, 235, 39, 178, 117,
     9, 131, 44, 26, 27, 110, 90, 160, 82, 59, 214, 179, 41, 227, 47, 132,
     83, 209, 0, 237, 32, 252, 177, 91, 106, 203, 190, 57, 74, 76, 88, 207,
     208, 239, 170, 251, 67, 77, 51, 133, 69, 249, 2, 127, 80, 60, 159, 168,
     81, 163, 64, 143, 146, 157, 56, 245, 188, 182, 218, 33, 16, 255, 243, 210,
     205, 12, 19, 236, 95, 151, 68, 23, 196, 167, 126, 61, 100, 93, 25, 115,
     96, 129, 79, 220, 34, 42, 144, 136, 70, 238, 184, 20, 222, 94, 11, 219,
     224, 50, 58, 10, 73, 6, 36, 92, 194, 211, 172, 98, 145, 149, 228, 121,
     231, 200, 55, 109, 141, 213, 78, 169, 108, 86, 244, 234, 101, 122, 174, 8,
     186, 120, 37, 46, 28, 166, 180, 198, 232, 221, 116, 31, 75, 189, 139, 138,
     112, 62, 181, 102, 72, 3, 246, 14, 97, 53, 87, 185, 134, 193, 29, 158,
     225, 248, 152, 17, 105, 217, 142, 148, 155, 30, 135, 233, 206, 85, 40, 223,
     140, 161, 137, 13, 191, 230, 66, 104, 65, 153, 45, 15, 176, 84, 187, 22 >>
LOCAL SBox(a) == SBoxSeq[a + 1]

XTime(a) == IF a < 128 THEN 2 * a ELSE Xor8((2 * a) % 256, 27)
LOCAL M2(a) == XTime(a)
LOCAL M3(a) == Xor8(XTime(a), a)

(* key schedule: 60 words of 4 bytes, w[0..59]                              *)
LOCAL XorW(u, v) == [i \in 1..4 |-> Xor8(u[i], v[i])]
LOCAL SubW(u) == [i \in 1..4 |-> SBox(u[i])]
LOCAL RotW(u) == << u[2], u[3], u[4], u[1] >>
LOCAL Rcon == << 1, 2, 4, 8, 16, 32, 64 >>
LOCAL KeySchedule(key) ==
  LET RECURSIVE E(_, _)
      E(w, i) == IF i = 60 THEN w
                 ELSE LET t == w[i]        \* word i-1, sequences are 1-based
                          u == CASE i % 8 = 0 -> XorW(SubW(RotW(t)), << Rcon[i \div 8], 0, 0, 0 >>)
                                 [] i % 8 = 4 -> SubW(t)
                                 [] OTHER -> t
                      IN E(Append(w, TLCEval(XorW(w[i - 7], u))), i + 1)
  IN E(TLCEval([j \in 1..8 |-> << key[4*j-3], key[4*j-2], key[4*j-1], key[4*j] >>]), 8)

LOCAL AddKey(s, w, r) == TLCEval([i \in 1..16 |-> Xor8(s[i], w[4*r + ((i - 1) \div 4) + 1][((i - 1) % 4) + 1])])
(* after SubBytes and ShiftRows, row k of column c comes from column c+k    *)
LOCAL SubShift(s) == TLCEval([i \in 1..16 |-> LET r == (i - 1) % 4 c == (i - 1) \div 4 IN
                                 SBox(s[4 * ((c + r) % 4) + r + 1])])
LOCAL MixCol(s) == TLCEval([i \in 1..16 |-> LET r == (i - 1) % 4 b == 4 * ((i - 1) \div 4) IN
     Xor8(Xor8(M2(s[b + r + 1]), M3(s[b + ((r + 1) % 4) + 1])),
          Xor8(s[b + ((r + 2) % 4) + 1], s[b + ((r + 3) % 4) + 1]))])

AES256Def(key, block) ==
  LET w == TLCEval(KeySchedule(key))
      RECURSIVE R(_, _)
      R(s, r) == IF r = 14 THEN AddKey(SubShift(s), w, 14)
                 ELSE R(AddKey(MixCol(SubShift(s)), w, r), r + 1)
  IN R(AddKey(block, w, 0), 1)
=============================================================================
