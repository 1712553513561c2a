-------------------------------- MODULE Plans --------------------------------
(***************************************************************************)
(* The environment: which calls are made, with which classes of inputs.    *)
(*                                                                         *)
(* A plan is a set of sessions; a session is a sequence of operations in   *)
(* the notation of the harness, separated by ";".  Input classes name a    *)
(* shape (one non-zero coefficient at position p, all sort words equal,    *)
(* a ciphertext made with one coefficient of r out of range, ...); the     *)
(* harness fills in what the class leaves open from the run's seed.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC
CONSTANTS N, LOGQ, WEIGHT, FAMILY,
          TIER,      \* "quick" or "thorough"
          SEED,      \* varies what is picked when not everything is
          LANE       \* which plan

Q == 2^LOGQ
D == N - 1                         \* coefficients that are sampled
HPS == FAMILY = "HPS"
Quick == TIER = "quick"
T(x) == ToString(x)
(* quick and thorough amounts                                               *)
Amt(q, t) == IF Quick THEN q ELSE t

(* A pick in 0..n-1 that depends on the seed                                *)
Pick(j, n) == LET x == (j % 10007) + (SEED % 997) * 13
                  y == (x * x + 5 * x + 11) % 99991
                  z == (y % 30011) * (y % 30011) + 7 * x
              IN (z % 100003) % n
(* every step-th element, starting at an offset that depends on the seed    *)
Thin(seq, step) == IF step <= 1 THEN seq
                   ELSE LET o == Pick(Len(seq), step) IN
                        SelectSeq([k \in 1..Len(seq) |-> IF k % step = o THEN seq[k] ELSE ""], LAMBDA x : x # "")
Flat(ss) == FoldLeft(LAMBDA a, b : a \o b, <<>>, ss)
Map(Op(_), seq) == [k \in 1..Len(seq) |-> Op(seq[k])]
Num(a, b) == [k \in 1..(b - a + 1) |-> a + k - 1]
Join(ops) == FoldLeft(LAMBDA a, b : IF a = "" THEN b ELSE a \o ";" \o b, "", ops)
At(seq, k) == seq[(k % Len(seq)) + 1]
W2 == WEIGHT \div 2

Edge == SetToSeq({p \in {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 63, 64, 127, 128, 129,
                  253, 254, 255, 256, 257, 511, 512, 513, D \div 2 - 1, D \div 2, D \div 2 + 1,
                  D - 10, D - 9, D - 8, D - 7, D - 6, D - 5, D - 4, D - 3, D - 2, D - 1} : p >= 0 /\ p < D})

-----------------------------------------------------------------------------
(* Classes of ternary polynomials                                          *)
Shapes ==
  <<"const:1", "const:2", "alt:1:2", "alt:2:1", "alt:1:0", "alt:0:1", "alt:0:2", "alt:2:0",
    "per:1:1:2", "per:1:2:2", "per:0:1:2", "per:2:1:0", "per:1:1:1:1:2", "per:0:0:0:0:1", "per:2:0:0:0:0",
    "prefix:1:1", "prefix:2:2", "prefix:5:1", "prefix:100:2", "suffix:1:1", "suffix:1:2", "suffix:2:2", "suffix:5:1", "suffix:100:2",
    "sparse:2:1", "sparse:3:2", "sparse:5:3", "sparse:10:4", "sparse:40:5", "dense:0:6", "dense:3:7", "dense:20:8",
    "but:1:0:0", "but:2:0:1", "raw:1", "raw:2", "raw:254", "raw:253">>
Monos == Flat(Map(LAMBDA p : <<"mono:" \o T(p) \o ":1", "mono:" \o T(p) \o ":2">>, Edge))
Buts  == Flat(Map(LAMBDA p : <<"but:1:" \o T(p) \o ":2", "but:2:" \o T(p) \o ":0">>, Edge))
Rands(a, b) == Map(LAMBDA k : "rand:" \o T(k), Num(a, b))
Corrs == IF HPS THEN <<>>
         ELSE Map(LAMBDA k : "corr:" \o T(k) \o ":" \o T(k + 300),
                  <<0, 0, 0, 1, -1, 2, -2, 3, -3, -1, 1, 10, -10, 100, -100, -200, 200, 230, -230>>)
TernAll == Shapes \o Monos \o Buts \o Corrs
Zero == <<"const:0", "raw:0", "raw:255">>

(* Classes of 30-bit words for the fixed-weight sampler                     *)
Words ==
  <<"asc", "desc", "tie:0", "tie:1", "tie:536870911", "tie:536870912", "tie:1073741823",
    "two:0:1:1", "two:536870911:536870912:2", "two:0:1073741823:3", "two:1073741823:536870912:4", "two:5:6:5",
    "ext:1", "ext:2", "ext:3", "ext:4", "few:2:1", "few:3:2", "few:4:3", "few:9:4", "few:300:5",
    "perm:1", "perm:2", "perm:3", "perm:4", "raw:0", "raw:255", "raw:85", "raw:170", "raw:1", "raw:128">>
  \o Flat(Map(LAMBDA p : <<"step:" \o T(p) \o ":0", "step:" \o T(p) \o ":1",
                           "swap:" \o T(p) \o ":" \o T((p * 7 + 3) % D),
                           "swap:" \o T(p) \o ":" \o T(p + 1),
                           "one:" \o T(p) \o ":1073741823", "one:" \o T(p) \o ":0", "one:" \o T(p) \o ":536870912">>, Edge))
  \o Map(LAMBDA b : "bit:" \o T((b * 37) % D) \o ":" \o T(b), Num(0, 29))
  \o Flat(Map(LAMBDA p : <<"bit:" \o T(p) \o ":29", "bit:" \o T(p) \o ":0">>, Num(0, 7)))
SecondAll == IF HPS THEN Words ELSE TernAll

-----------------------------------------------------------------------------
(* Operations                                                              *)
Kp(k, f, g) == "kp " \o T(k) \o " s:" \o f \o "/" \o g \o "/rnd:" \o T(k) \o " r"
Enc(e, k, r, m) == "enc " \o T(e) \o " " \o T(k) \o " s:" \o r \o "/" \o m \o " r"
Dec(k, c) == "dec " \o T(k) \o " " \o c \o " r"
DecE(k, e) == Dec(k, "e:" \o T(e))

(* One key pair, then an encapsulation and decapsulation for each (r, m)     *)
Cycle(f, g, rms) ==
  Join(<<Kp(1, f, g)>> \o
       Flat([j \in 1..Len(rms) |-> <<Enc(j, 1, rms[j][1], rms[j][2]), DecE(1, j)>>]))

RmFor(j) == << At(TernAll \o Zero, Pick(j, 100003)), At(SecondAll, Pick(j + 17, 100003)) >>

(* honest use: every class of f, g, r and m at least once                    *)
Honest ==
  LET fs == TernAll  gs == SecondAll  n == Amt(40, 400) IN
     [j \in 1..Len(fs) |-> Cycle(fs[j], "rand:" \o T(j), <<RmFor(j)>>)]
  \o [j \in 1..Len(gs) |-> Cycle("rand:" \o T(j), gs[j], <<RmFor(j + 1000)>>)]
  \o [j \in 1..Len(TernAll \o Zero) |-> Cycle("rand:" \o T(j), "rand:" \o T(j), <<<<(TernAll \o Zero)[j], "rand:" \o T(j)>>>>)]
  \o [j \in 1..Len(gs) |-> Cycle("rand:" \o T(j), "rand:" \o T(j), <<<<"rand:" \o T(j), gs[j]>>>>)]
  \o [j \in 1..n |-> Cycle("rawrnd:" \o T(j), "rawrnd:" \o T(j), <<<<"rawrnd:" \o T(j), "rawrnd:" \o T(j)>>, RmFor(j + 5000)>>)]

(* orders of the words for which the single comparisons of a sorting network    *)
(* matter; several encapsulations per key                                     *)
Sorts ==
  IF ~HPS THEN <<>>
  ELSE [j \in 1..Amt(20, 120) |->
          Join(<<Kp(1, "rand:" \o T(j), "net:" \o T(j))>> \o [e \in 1..20 |-> Enc(e, 1, "rand:" \o T(e), "net:" \o T(1000 * j + e))])]

(* key generation alone, every class of f with every kind of g               *)
Keys ==
  LET fs == TernAll  gs == SecondAll  n == Amt(100, 1500) IN
     Sorts
  \o [j \in 1..Len(fs) |-> Kp(1, fs[j], "rand:" \o T(j))]
  \o [j \in 1..Len(gs) |-> Kp(1, "rand:" \o T(j), gs[j])]
  \o [j \in 1..n |-> Kp(1, At(fs, Pick(j, 100003)), At(gs, Pick(j + 77, 100003)))]
  \o [j \in 1..n |-> Kp(1, "rawrnd:" \o T(j), "rawrnd:" \o T(j))]

(* a generator that is stuck: the same byte, or the same few bytes, for ever    *)
KpP(k, f, g, p) == "kp " \o T(k) \o " s:" \o f \o "/" \o g \o "/" \o p \o " r"
StuckAt(k, e, x, y) == <<KpP(k, x, x, y), Enc(e, k, x, x), DecE(k, e)>>
Stuck ==
     [b \in 1..256 |-> Join(StuckAt(1, 1, "raw:" \o T(b - 1), "fill:" \o T(b - 1)))]
  \o [j \in 1..Amt(30, 200) |-> LET c == "cyc:" \o T(At(<<2, 3, 4, 5, 8, 15, 16, 30, 32>>, j)) \o ":" \o T(j) IN Join(StuckAt(1, 1, c, c))]
  \* unusual rejection keys next to ordinary polynomials
  \o Map(LAMBDA p : Join(<<KpP(1, "rand:1", "rand:1", p), Enc(1, 1, "rand:1", "rand:1"), DecE(1, 1), Dec(1, "e:1,flip:1")>>),
         <<"fill:0", "fill:255", "fill:1", "fill:128", "cnt", "le:1", "bit:0", "bit:255", "byte:0:0:1", "byte:31:0:1", "cyc:16:1", "cyc:8:2", "cyc:4:3">>)

(* agreement in bulk: key pairs with several cycles each, secrets only       *)
Bulk == [j \in 1..Amt(900, 12000) |-> "burst new " \o T(IF j % 10 = 0 THEN 60 ELSE 4) \o " " \o T(j)]

(* agreement under the largest noise a key admits: r and m chosen to add up    *)
(* at one coefficient of what decapsulation reduces modulo q                  *)
Noise ==
  LET fs == <<"rand:1", "rand:2", "w:" \o T(W2) \o ":" \o T(W2) \o ":1", "dense:0:2", "alt:1:2", "per:1:1:2:2", "per:1:0:2:0", "per:1:2:0", "const:1">>
      gs == IF HPS THEN <<"rand:1", "asc", "tie:0", "perm:3", "few:2:1">>
            ELSE <<"rand:1", "per:1:0:2:0", "per:1:1:2:2", "dense:0:3", "corr:0:7", "corr:1:8", "const:2", "per:0:1:2">>
      Match(t, sg) == "match:" \o T(t) \o ":" \o T(sg)
      Rms(j) == [x \in 1..Amt(6, 12) |->
                  LET t == IF x % 3 = 0 THEN Pick(j * 50 + x, N) ELSE At(<<0, N - 1, 1, N \div 2, D \div 2>>, j + x)
                      sg == IF (x + j) % 2 = 0 THEN 1 ELSE -1
                  IN CASE x % 6 = 5 -> <<Match(t, sg), "rand:" \o T(x)>>
                       [] x % 6 = 4 -> <<"rand:" \o T(x), Match(t, sg)>>
                       [] OTHER -> <<Match(t, sg), Match(t, sg)>>]
  IN [j \in 1..(Len(fs) * Len(gs)) |-> Cycle(fs[((j - 1) % Len(fs)) + 1], gs[((j - 1) \div Len(fs)) + 1], Rms(j))]
     \o [j \in 1..Amt(10, 300) |-> Cycle("rawrnd:" \o T(j), "rawrnd:" \o T(j), Rms(j))]

(* encapsulation, for generated and arbitrary public keys                    *)
PkClasses ==
  <<"fill:0", "fill:255", "fill:1", "fill:128", "fill:85", "fill:170">>
  \o Map(LAMBDA k : "rnd:" \o T(k), Num(1, Amt(30, 300)))
  \o Map(LAMBDA k : "bit:" \o T((k * 97 + Pick(k, 97)) % (8 * ((LOGQ * D + 7) \div 8))), Num(1, Amt(40, 600)))
KSet(k, pk, sk) == "kset " \o T(k) \o " " \o pk \o " " \o sk
Encaps ==
  [j \in 1..Len(PkClasses) |->
      Join(<<KSet(1, PkClasses[j], "fill:0"), Enc(1, 1, RmFor(j)[1], RmFor(j)[2]),
             Enc(2, 1, "rand:" \o T(j), "rand:" \o T(j + 1)),
             Enc(3, 1, "mono:" \o T(Pick(j, D)) \o ":" \o T(1 + (j % 2)), "rand:" \o T(j))>>)]
  \o [j \in 1..Len(TernAll \o Zero) |-> Join(<<KSet(1, "rnd:" \o T(j), "fill:0"), Enc(1, 1, (TernAll \o Zero)[j], "rand:1")>>)]
  \o [j \in 1..Len(SecondAll) |-> Join(<<KSet(1, "rnd:" \o T(j), "fill:0"), Enc(1, 1, "rand:1", SecondAll[j])>>)]
  \o [j \in 1..Amt(25, 200) |->
        Join(<<Kp(1, "rawrnd:" \o T(j), "rawrnd:" \o T(j))>>
             \o [e \in 1..6 |-> Enc(e, 1, "rawrnd:" \o T(e), "rawrnd:" \o T(e))]
             \* the same key with set padding bits
             \o <<KSet(2, "of:1,flipend:" \o T(j % 4), "of:1"), Enc(7, 2, "rand:1", "rand:2")>>)]

-----------------------------------------------------------------------------
(* Ciphertexts that must open and ciphertexts that must not                 *)
GoodM == IF HPS THEN "w:" \o T(W2) \o ":" \o T(W2) \o ":" ELSE "rand:"
Craft(rc, mods, mc) == "craft:" \o rc \o "|" \o mods \o "|" \o mc
Set1(p, v) == T(p) \o "=" \o T(v)
BadVals == <<2, -2, 3, -3, 4, -4, 5, 7, 8, -8, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256, 257, -256,
             Q \div 2, Q \div 2 - 1, Q \div 2 + 1, Q \div 4, Q - 3, Q - 2, Q \div 2 - 2, 1023, 1025>>
PadBits == (8 - ((LOGQ * D) % 8)) % 8
Pads == IF PadBits = 0 THEN <<>> ELSE Num(1, 2^PadBits - 1)

(* message weights next to the right one, also by powers of two             *)
Pow == Map(LAMBDA k : 2^k, Num(0, LOGQ - 3))
BadWeights ==
  LET raw == {<<W2 + a, W2 + b>> : a \in {0} \cup ToSet(Pow) \cup {-x : x \in ToSet(Pow)},
                                   b \in {0} \cup ToSet(Pow) \cup {-x : x \in ToSet(Pow)}}
             \cup {<<0, 0>>, <<WEIGHT, 0>>, <<0, WEIGHT>>, <<W2, 0>>, <<0, W2>>, <<1, 1>>, <<D, 0>>, <<0, D>>, <<D - W2, W2>>, <<W2, D - W2>>}
  IN IF HPS THEN SetToSeq({x \in raw : x[1] >= 0 /\ x[2] >= 0 /\ x[1] + x[2] <= D /\ x # <<W2, W2>>}) ELSE <<>>
MOf(x, j) == "w:" \o T(x[1]) \o ":" \o T(x[2]) \o ":" \o T(j)

TwoKeys(j) == <<Kp(1, "rand:" \o T(j), "rand:" \o T(j)), Kp(2, "rand:" \o T(j + 1), "rand:" \o T(j + 1)),
                Enc(1, 1, "rand:" \o T(j), "rand:" \o T(j)), Enc(2, 2, "rand:" \o T(j), "rand:" \o T(j))>>
(* a key with f(1) = 0, for which messages of any weight can be crafted       *)
BalKey(j) == <<Kp(1, "w:" \o T(D \div 3) \o ":" \o T(D \div 3) \o ":" \o T(j), "rand:" \o T(j)), Enc(1, 1, "rand:" \o T(j), "rand:" \o T(j))>>
OneKey(j) == <<Kp(1, "rand:" \o T(j), "rand:" \o T(j)), Enc(1, 1, "rand:" \o T(j), "rand:" \o T(j))>>

(* split a long list of ciphertexts over sessions of 25                      *)
Split(cs, Head1(_)) ==
  LET n == (Len(cs) + 24) \div 25 IN
  [b \in 1..n |-> Join(Head1(b) \o Map(LAMBDA c : Dec(1, c), SubSeq(cs, 25 * (b - 1) + 1, IF 25 * b > Len(cs) THEN Len(cs) ELSE 25 * b)))]

Tampers ==
  LET step == Amt(2, 1)
      AllPos == Num(0, D - 1)
      \* one coefficient of r out of range, at every position
      r1 == Thin(Flat(Map(LAMBDA p : <<Craft("rand:" \o T(p), Set1(p, 2), GoodM \o T(p)),
                                       Craft("rand:" \o T(p), Set1(p, -2), GoodM \o T(p))>>, AllPos)), Amt(3, 1))
      \* every kind of value, at a few positions
      r2 == Flat(Map(LAMBDA v : <<Craft("rand:1", Set1(0, v), GoodM \o T(v % 7)),
                                  Craft("rand:2", Set1(Pick(v % 997, D), v), GoodM \o T(v % 5)),
                                  Craft("rand:3", Set1(D - 1, v), GoodM \o T(v % 3))>>, BadVals))
      \* all values at one position
      r2a == IF Quick THEN <<>> ELSE Map(LAMBDA v : Craft("rand:4", Set1(Pick(v, D), v), GoodM \o "4"), Num(2, Q - 2))
      \* several bad coefficients; all coefficients equal and bad; zero r with one bad
      r3 == Map(LAMBDA j : Craft("rand:" \o T(j), Set1(Pick(j, D), At(BadVals, j)) \o "+" \o Set1(Pick(j + 5, D), At(BadVals, j + 3)), GoodM \o T(j)), Num(1, Amt(20, 200)))
            \o Map(LAMBDA p : Craft("const:0", Set1(p, 2), GoodM \o T(p)), Edge)
      \* messages of wrong weight with a good r
      m1 == [j \in 1..Len(BadWeights) |-> Craft("rand:" \o T(j), "", MOf(BadWeights[j], j))]
      \* good ones
      ok == Map(LAMBDA j : Craft(At(TernAll \o Zero, j), "", GoodM \o T(j)), Num(1, Amt(40, 150)))
      \* padding
      pad == Flat(Map(LAMBDA v : <<"e:1,pad:" \o T(v), Craft("rand:5", "", GoodM \o "5") \o ",pad:" \o T(v)>>, Pads))
      \* combinations of two and three defects
      combo == Flat(Map(LAMBDA v : <<Craft("rand:6", Set1(v, 2), GoodM \o "6") \o ",pad:" \o T(v),
                                     Craft("rand:6", "", IF HPS THEN MOf(<<W2 + 1, W2 - 1>>, v) ELSE "rand:6") \o ",pad:" \o T(v),
                                     Craft("rand:6", Set1(v, 2), IF HPS THEN MOf(<<W2, W2 - 1>>, v) ELSE "rand:7") \o ",pad:" \o T(v)>>, Pads))
               \o [j \in 1..Amt(15, 100) |-> Craft("rand:7", Set1(Pick(j, D), At(BadVals, j)), IF HPS THEN MOf(At(BadWeights, j), j) ELSE "const:1")]
      \* single bits, single coefficients, small noise, garbage
      flips == Map(LAMBDA j : "e:1,flip:" \o T(Pick(j, LOGQ * D)), Num(1, Amt(60, 800)))
               \o Map(LAMBDA b : "e:1,flip:" \o T(b), Num(0, 15))
               \o Map(LAMBDA b : "e:1,flip:" \o T(LOGQ * D - 1 - b), Num(0, 15))
      noise == Flat(Map(LAMBDA p : <<"e:1,add:" \o p \o ":1", "e:1,add:" \o p \o ":-1", "e:1,add:" \o p \o ":3",
                                     "e:1,add:" \o p \o ":" \o T(Q \div 2)>>, Thin(Map(T, Edge), 4)))
      garbage == <<"fill:0", "fill:255", "fill:1", "fill:128", "fill:127", "fill:85">> \o Map(LAMBDA j : "rnd:" \o T(j), Num(1, Amt(20, 300)))
                 \o Map(LAMBDA j : "bit:" \o T(Pick(j, LOGQ * D)), Num(1, Amt(10, 100)))
                 \o <<"e:1,rot:1", "e:1,rot:7">>
  IN Split(r1, OneKey) \o Split(r2, OneKey) \o Split(r2a, OneKey) \o Split(r3, OneKey) \o Split(m1, BalKey) \o Split(ok, OneKey)
     \o Split(pad, OneKey) \o Split(combo, BalKey) \o Split(flips, OneKey) \o Split(noise, OneKey) \o Split(garbage, OneKey)
     \* ciphertexts and key parts of another pair
     \o [j \in 1..Amt(10, 60) |-> Join(TwoKeys(j) \o
           <<Dec(1, "e:1"), Dec(1, "e:2"), Dec(2, "e:1"), Dec(2, "e:2"),
             Dec(1, Craft("rand:1", "", GoodM \o "1") \o "@2"), Dec(2, Craft("rand:1", "", GoodM \o "1") \o "@2")>>)]

(* the rejection secret: other rejection keys, other ciphertexts, repeated   *)
Rejects ==
  LET skb == 2 * ((D + 4) \div 5) + (LOGQ * D + 7) \div 8 + 32
      ctbits == 8 * ((LOGQ * D + 7) \div 8)
  IN
  [b \in 1..Amt(32, 256) |->
     LET p == IF Quick THEN 8 * (b - 1) + Pick(b, 8) ELSE b - 1 IN
     Join(OneKey(b) \o <<KSet(2, "of:1", "of:1,flip:" \o T(8 * (skb - 32) + p)),
          Dec(1, "e:1,flip:3"), Dec(2, "e:1,flip:3"), "again 4 r", "again 5 0", Dec(2, "e:1"),
          Dec(1, "rnd:" \o T(b)), Dec(2, "rnd:" \o T(b)), "again 9 255">>)]
  \o [b \in 1..Amt(60, 400) |->
     Join(OneKey(b) \o <<Dec(1, "rnd:1"), Dec(1, "rnd:1,flip:" \o T((b * (ctbits \div Amt(60, 400)) + Pick(b, ctbits \div Amt(60, 400))) % ctbits)),
                         Dec(1, "fill:0,flip:" \o T(ctbits - 1 - (b % 16))), Dec(1, "fill:" \o T(b % 256))>>)]
  \* degenerate rejection keys; ciphertexts that share long parts; secret keys that differ elsewhere only
  \o [b \in 1..Amt(24, 128) |->
     Join(OneKey(b) \o <<KSet(2, "of:1", "of:1,from:" \o T(skb - 32) \o ":" \o T(At(<<0, 255, 1, 128>>, b))),
                         Dec(2, "rnd:" \o T(b)), Dec(2, "e:1,flip:" \o T(Pick(b, ctbits))), Dec(2, "fill:0"), Dec(2, "fill:255"),
                         KSet(3, "of:1", "of:1,flip:" \o T(Pick(b, 8 * (skb - 32)))),
                         Dec(3, "rnd:" \o T(b)), Dec(1, "rnd:" \o T(b)), Dec(1, "e:1,flip:" \o T(Pick(b + 9, ctbits)))>>)]

-----------------------------------------------------------------------------
(* Malformed inputs: everything must still return                           *)
Malformed ==
  LET blobs == <<"fill:0", "fill:255", "fill:242", "fill:243", "fill:254", "fill:1", "fill:127", "fill:128", "fill:121", "fill:122", "cnt">>
               \o Map(LAMBDA j : "rnd:" \o T(j), Num(1, Amt(30, 300)))
      cts == <<"fill:0", "fill:255", "fill:128", "fill:127", "fill:85">> \o Map(LAMBDA j : "rnd:" \o T(j), Num(1, Amt(3, 10)))
      tb == (D + 4) \div 5
      qb == (LOGQ * D + 7) \div 8
      parts == Flat(Map(LAMBDA c : <<"of:9,upto:" \o T(tb) \o ":" \o T(c),                 \* f
                                     "of:9,upto:" \o T(2 * tb) \o ":" \o T(c),            \* f and f^-1
                                     "of:9,from:" \o T(tb) \o ":" \o T(c),                \* all but f
                                     "of:9,from:" \o T(2 * tb) \o ":" \o T(c),            \* h^-1 and rejection key
                                     "of:9,from:" \o T(2 * tb + qb) \o ":" \o T(c)>>,     \* rejection key
                        <<0, 1, 2, 80, 121, 122, 127, 128, 161, 242, 243, 250, 254, 255>>))
  IN [j \in 1..Len(blobs) |-> Join(<<KSet(1, blobs[j], blobs[j])>>
          \o Map(LAMBDA c : Dec(1, c), cts)
          \o <<Enc(1, 1, "rand:1", "rand:1"), DecE(1, 1), Enc(2, 1, "const:2", At(SecondAll, j)), DecE(1, 2)>>)]
     \o [j \in 1..Len(parts) |-> Join(<<Kp(9, "rand:1", "rand:1"), KSet(1, "of:9", parts[j])>>
          \o Map(LAMBDA c : Dec(1, c), cts) \o <<Enc(1, 1, "rand:2", "rand:2"), DecE(1, 1)>>)]
     \* random bytes that do not make a key
     \o [j \in 1..Len(Zero) |-> Join(<<Kp(1, Zero[j], "rand:1"), Enc(1, 1, "rand:1", "rand:1"), DecE(1, 1)>>)]
     \o (IF HPS THEN <<>> ELSE [j \in 1..Len(Zero) |-> Join(<<Kp(1, "rand:1", Zero[j]), Enc(1, 1, "rand:1", "rand:1"), DecE(1, 1)>>)])

(* seeds on which key generation has been seen to go wrong                   *)
SeedCorpus ==
  IF N = 509 THEN <<579, 1797, 1988, 2177, 2374, 2558, 3782, 5889, 6252, 8058, 8134, 10856>>
  ELSE <<>>
Corpus == [j \in 1..Len(SeedCorpus) |-> Join(<<"rnew 1", "rinit 1 le:" \o T(SeedCorpus[j]), "kp 1 aes:1 r",
                                               "enc 1 1 aes:1 r", "dec 1 e:1 r">>)]
-----------------------------------------------------------------------------
(* Generators                                                              *)
Lens == Num(0, Amt(70, 300)) \o <<255, 256, 257, 511, 512, 1000, 1024, 4080, 4081, 4095, 4096, 4097, 4112, 4113, 4096 + Pick(1, 100),
                                   65535, 65536, 65537, 65552, 65553 + Pick(2, 5000)>>
        \o (IF Quick THEN <<>> ELSE <<131071, 131072, 131073, 262144, 1048576, 1048577>>)
Seeds == <<"fill:0", "fill:255", "cnt", "fill:1", "fill:128", "le:1">> \o Map(LAMBDA k : "rnd:" \o T(k), Num(1, Amt(10, 100)))
         \o Map(LAMBDA b : "bit:" \o T(b * 8 + Pick(b, 8)), Num(0, 47))
Rb(h, n) == "rb " \o T(h) \o " " \o T(n)
Carries ==
  Flat([k \in 1..17 |-> Flat([j \in 1..5 |->
     <<Join(<<"rset 1 rnd:" \o T(k) \o " carry:" \o T(k - 1) \o ":" \o T(j - 1) \o ":" \o T(j) \o " 1",
              Rb(1, At(<<0, 16, 1, 48, 33, 64, 15, 17>>, k + 3 * j)), Rb(1, 16)>>)>>])])
Counters == Map(LAMBDA c : Join(<<"rset 1 rnd:1 rnd:2 " \o T(c), Rb(1, 20), Rb(1, 0), Rb(1, 20)>>),
                <<0, 1, -1, 2147483647, 2147483646, -2147483647, 1000, 281474>> \o Map(LAMBDA k : 2^k - 1, Num(2, 30)) \o Map(LAMBDA k : 2^k, Num(7, 30)))
(* many requests in a row, small and mixed; and the same with seedings between  *)
Long == <<Join(<<"rnew 1", "rinit 1 rnd:1">> \o [k \in 1..Amt(700, 5000) |-> Rb(1, Pick(k, 40))]),
          Join(<<"rnew 1">> \o [k \in 1..Amt(300, 3000) |-> Rb(1, At(<<16, 0, 1, 48, 32>>, Pick(k, 5)))]),
          Join(<<"rnew 1">> \o Flat([k \in 1..Amt(60, 400) |-> <<"rinit 1 rnd:" \o T(k % 7), Rb(1, Pick(k, 60)), Rb(1, k % 17)>>]))>>
Rngs ==
     Map(LAMBDA n : Join(<<"rnew 1", "rinit 1 rnd:" \o T(n), Rb(1, n), Rb(1, 17), Rb(1, n)>>), Lens)
  \o Map(LAMBDA sd : Join(<<"rnew 1", Rb(1, 7), "rinit 1 " \o sd, Rb(1, 40), "rclone 2 1", Rb(1, 5), Rb(2, 5), "req 1 2",
                            Rb(2, 0), "req 1 2", Rb(1, 33), Rb(2, 64), "rinit 2 " \o sd, Rb(2, 40), "rdef 3", "rnew 4", "req 3 4", Rb(3, 9)>>), Seeds)
  \o Carries \o Counters \o Long
  \* a state that occurs in use, seeded over
  \o [j \in 1..Amt(12, 80) |-> Join(<<"rset 1 " \o At(<<"fill:255", "rnd:1", "fill:0">>, j) \o " " \o At(<<"fill:255", "rnd:2", "carry:8:0:1", "fill:0">>, j) \o " " \o T(At(<<7, -1, 2147483647, 0>>, j)),
                                      "rclone 2 1", "rinit 1 rnd:" \o T(j), "rinit 2 rnd:" \o T(j), "req 1 2", Rb(1, 20), Rb(2, 20), "rnew 3", "rinit 3 rnd:" \o T(j), Rb(3, 20), "req 1 3">>)]
  \o [j \in 1..Amt(10, 60) |-> Join(<<"rset 1 rnd:" \o T(j) \o " fill:255 7", Rb(1, Pick(j, 100)), Rb(1, 3)>>)]

(* everything that must return                                              *)
Total == Malformed \o Corpus
         \o Map(LAMBDA f : Kp(1, f, "rand:1"), TernAll) \o Map(LAMBDA g : Kp(1, "rand:1", g), SecondAll)
         \o [j \in 1..Amt(2500, 40000) |-> "burst new 1 " \o T(j)]
         \o Rngs

-----------------------------------------------------------------------------
(* Faults: every sequence of up to three calls, each failing at one of its   *)
(* requests or not at all                                                    *)
FaultOps ==
  <<"kp 2 s:rand:1/rand:2/rnd:3 r", "kp 2 s:rand:1/rand:2/rnd:3!1 r", "kp 2 s:rand:1/rand:2/rnd:3!2 r",
    "kp 2 s:rand:1/rand:2/rnd:3!1! 7", "kp 2 s:rand:1/rand:2/rnd:3!2! 0",
    "enc 2 1 s:rand:1/rand:2 r", "enc 2 1 s:rand:1/rand:2!1 r", "enc 2 1 s:rand:1/rand:2!1! 0">>
Base == <<"kp 1 s:rand:7/rand:8/rnd:9 r", "enc 1 1 s:rand:4/rand:5 r">>
Faults ==
  LET n == Len(FaultOps) IN
  [x \in 1..n |-> Join(Base \o <<FaultOps[x]>>)]
  \o [x \in 1..(n * n) |-> Join(Base \o <<FaultOps[((x - 1) % n) + 1], FaultOps[((x - 1) \div n) + 1], "dec 1 e:1 r">>)]
  \o Thin([x \in 1..(n * n * n) |-> Join(Base \o <<FaultOps[((x - 1) % n) + 1], FaultOps[(((x - 1) \div n) % n) + 1],
                                            FaultOps[((x - 1) \div (n * n)) + 1], "dec 1 e:1 r">>)], Amt(4, 1))
  \o [j \in 1..Len(Thin(TernAll, Amt(4, 1))) |-> LET f == Thin(TernAll, Amt(4, 1))[j] IN
        Join(<<Kp(1, f, "rand:1"), "kp 2 s:" \o f \o "/rand:1/fill:0!2 255", "kp 2 s:" \o f \o "/rand:1/fill:255!1 255",
               "enc 1 1 s:" \o f \o "/rand:1!1 r", "enc 1 1 s:" \o f \o "/rand:1 r">>)]

(* requests: all classes of random bytes must be consumed alike              *)
Draws ==
     [j \in 1..Len(TernAll \o Zero) |-> Join(<<Kp(1, (TernAll \o Zero)[j], "rand:1"), Enc(1, 1, (TernAll \o Zero)[j], "rand:1"), DecE(1, 1)>>)]
  \o [j \in 1..Len(SecondAll) |-> Join(<<Kp(1, "rand:1", SecondAll[j]), Enc(1, 1, "rand:1", SecondAll[j])>>)]
  \o (IF HPS THEN <<>> ELSE Map(LAMBDA z : Join(<<Kp(1, "rand:1", z), Enc(1, 1, "rand:1", z)>>), Zero))
  \o Map(LAMBDA pk : Join(<<KSet(1, pk, pk), Enc(1, 1, "rand:1", "rand:2")>>), PkClasses)
  \o [j \in 1..Amt(60, 600) |-> Join(<<"rnew 1", "rinit 1 rnd:" \o T(j), "kp 1 aes:1 r", "enc 1 1 aes:1 r", "dec 1 e:1 r", "enc 2 1 aes:1 r", "kp 2 aes:1 r">>)]
  \o Stuck

-----------------------------------------------------------------------------
(* Seeded use                                                              *)
Seeded ==
     Map(LAMBDA sd : Join(<<"rnew 1", "rinit 1 " \o sd, "kp 1 aes:1 r", "enc 1 1 aes:1 r", "dec 1 e:1 r">>), Seeds)
  \o [j \in 1..Amt(40, 400) |-> Join(<<"rnew 1", "rinit 1 rnd:" \o T(j), "rclone 2 1", "kp 1 aes:1 r", "kp 2 aes:1 r", "enc 1 2 aes:1 r",
                                     "enc 2 1 aes:2 r", "dec 2 e:1 r", "dec 1 e:2 r", "dec 1 e:1 r", Rb(1, j % 50), "enc 3 1 aes:1 r", "dec 1 e:3 r">>)]
  \* generators seeded again after use, and twice with the same seed
  \o [j \in 1..Amt(12, 100) |-> Join(<<"rnew 1", "rinit 1 rnd:" \o T(j + 1), Rb(1, 10 + j), "kp 1 aes:1 r", "rinit 1 rnd:" \o T(j), "kp 2 aes:1 r", "enc 1 2 aes:1 r",
                                        "rinit 1 rnd:" \o T(j), "kp 3 aes:1 r", "enc 2 3 aes:1 r", "dec 2 e:2 r", "dec 3 e:1 r",
                                        "rset 2 fill:255 fill:255 " \o T(At(<<2147483647, 0, -1>>, j)), "rinit 2 rnd:" \o T(j), "enc 3 1 aes:2 r", "dec 1 e:3 r">>)]
  \o <<Join(<<"rnew 1", "kp 1 aes:1 r", "enc 1 1 aes:1 r", "dec 1 e:1 r", "rnew 2", "enc 2 1 aes:2 r", "dec 1 e:2 r">>)>>
  \o Corpus

(* Encodings                                                               *)
Codec ==
  LET qb == (LOGQ * D + 7) \div 8 IN
  \* every byte position with varying values, identity-like encapsulations
  [j \in 1..qb |-> Join(<<KSet(1, "byte:" \o T(j - 1) \o ":" \o T((j * 37 + Pick(j, 256)) % 256) \o ":" \o T(j), "fill:0"),
                          Enc(1, 1, "mono:" \o T((j * 3) % D) \o ":" \o T(1 + (j % 2)), "rand:1")>>)]
  \o [j \in 1..Amt(40, 256) |-> Join(<<KSet(1, "fill:" \o T((j * 13 + Pick(j, 13)) % 256), "fill:0"), Enc(1, 1, "mono:" \o T(Pick(j, D)) \o ":1", "rand:1")>>)]
  \* ternary values in every position of f, r and m
  \o [j \in 1..Amt(60, 600) |-> Cycle("rand:" \o T(j), "rand:" \o T(j), <<<<"rand:" \o T(j), "rand:" \o T(j)>>>>)]
  \o Map(LAMBDA f : Cycle(f, "rand:1", <<<<f, "rand:2">>>>), TernAll)
  \* every byte value in the ternary parts of a secret key (also those no packing produces)
  \o [j \in 1..Amt(52, 256) |-> Join(<<Kp(9, "rand:1", "rand:1"), KSet(1, "of:9", "of:9,byte:" \o T(Pick(j, 2 * ((D + 4) \div 5))) \o ":" \o T((5 * j) % 256)),
                                    Enc(1, 9, "rand:3", "rand:3"), Dec(1, "e:1"), Dec(1, Craft("rand:1", "", GoodM \o "1") \o "@9")>>)]
  \* other bytes with the same meaning: the pair must work like the original
  \o [j \in 1..Amt(60, 400) |-> Join(<<Kp(9, At(<<"sparse:3:1", "mono:0:1", "rand:1", "per:0:0:0:0:1">>, j), "rand:1"),
                                     KSet(1, "of:9", "of:9,alias:" \o T(Pick(j, 200)) \o (IF j % 4 = 0 THEN ":last" ELSE ":x")
                                                     \o (IF j % 3 = 0 THEN ",alias:" \o T(Pick(j, 190)) \o ":x" ELSE "")),
                                     Enc(1, 9, "rand:3", "rand:3"), Dec(1, "e:1"), Dec(1, "e:1,flip:8")>>)]
  \* unused bits in the last bytes of a public key and of the last part of a secret key
  \o (LET pad == 8 * qb - LOGQ * D tb == 2 * ((D + 4) \div 5) IN
      [j \in 1..(IF pad = 0 THEN 0 ELSE pad * Amt(3, 12)) |->
         LET b == T(8 * qb - 1 - (j % pad)) c == T(8 * (tb + qb) - 1 - (j % pad)) IN
         Join(<<Kp(9, "rand:1", "rand:1"), KSet(1, "of:9,flip:" \o b, "of:9,flip:" \o c),
                Enc(1, 1, "rand:3", "rand:3"), Dec(1, "e:1"), Dec(9, "e:1"), Dec(1, "e:1,flip:" \o b)>>)])

(* Purity: repetitions in changed order and from several threads             *)
Pure ==
  [j \in 1..Amt(24, 200) |->
     Join(OneKey(j) \o <<DecE(1, 1), Dec(1, "e:1,flip:9"), Dec(1, "rnd:1"), "again 5 0", "again 3 255", "again 2 0", "again 1 r", "again 4 r",
                         Kp(2, "rand:5", "rand:6"), Enc(2, 2, "rand:1", "rand:1"), Dec(2, "e:2"), Dec(2, "e:1"),
                         "again 3 r", "again 1 255", "again 2 255", "again 13 r", "again 14 r", "again 12 0", "again 11 0">>)]
  \o [j \in 1..Amt(6, 40) |->
     Join(OneKey(j) \o <<DecE(1, 1), Dec(1, "e:1,flip:9"), Kp(2, "rand:5", "rand:6"), Enc(2, 2, "rand:1", "rand:1"), Dec(2, "e:2"),
                         "par " \o T(2 + (j % 7)) \o " 40 " \o T(j), "again 1 r", "again 2 r", "again 3 r", "again 4 r">>)]
  \* many short calls at once, on the same and on different keys
  \o [j \in 1..Amt(6, 40) |->
     Join(<<Kp(1, "rand:1", "rand:1"), Kp(2, "rand:2", "rand:2")>>
          \o [k \in 1..6 |-> Enc(k, 1 + (k % 2), "rand:" \o T(k), "rand:" \o T(k))]
          \o [k \in 1..6 |-> Dec(1 + (k % 2), "e:" \o T(k))]
          \o [k \in 1..6 |-> Dec(1 + (k % 2), "e:" \o T(k) \o ",flip:" \o T(7 * k))]
          \o <<"par 8 " \o T(<<1200, 1200, 600>>[1 + (j % 3)]) \o " " \o T(j) \o " " \o <<"e", "d", "ed">>[1 + (j % 3)],
               "par 8 " \o T(60) \o " " \o T(j) \o " k", "again 1 r", "again 4 r", "again 9 r">>)]
  \* calls made while another call waits for its random bytes
  \o [j \in 1..Amt(6, 40) |->
     Join(OneKey(j) \o <<DecE(1, 1), Dec(1, "e:1,flip:9"), Kp(2, "rand:5", "rand:6"), Enc(2, 2, "rand:1", "rand:1"), Dec(2, "e:2"),
                         "nest 1 1 5 6 7", "nest 1 2 5 6 7", "nest 2 1 1 6 7 3", "nest 6 1 2", "nest 1 2 1", "nest 2 1 2",
                         "nest 5 1 2 3", "nest 5 2 3 4", "nest 6 1 1 5", "again 1 r", "again 2 r">>)]
  \* a long history
  \o <<Join(OneKey(1) \o <<DecE(1, 1), Dec(1, "e:1,flip:9")>>
            \o [k \in 1..Amt(400, 5000) |-> "again " \o T(1 + (Pick(k, 4))) \o " r"])>>

(* Calls to be repeated under instrumentation: few, with secrets as different  *)
(* as possible and the same public inputs                                    *)
Leak ==
  LET kinds == <<"rand:1", "sparse:3:1", "dense:0:2", "const:1", "per:0:1:2", "mono:0:1", "alt:1:2", "suffix:1:2">>
      ms == IF HPS THEN <<"rand:2", "tie:0", "asc", "desc", "few:2:1", "raw:255">> ELSE <<"rand:2", "const:0", "const:1", "alt:1:2", "corr:-200:1", "raw:255">>
      gs == IF HPS THEN ms ELSE <<"rand:3", "const:1", "alt:1:2", "corr:-200:1", "corr:0:2", "raw:254">>
      skb == 2 * ((D + 4) \div 5) + (LOGQ * D + 7) \div 8 + 32
  IN <<Join([j \in 1..Amt(6, 24) |-> Kp(j, At(kinds, 3 * (j - 1)), At(gs, 5 * (j - 1)))]
            \o [j \in 1..Amt(10, 60) |-> Enc(j + 10, 1, At(kinds \o Zero, j - 1), At(ms, (j - 1) * 5))]
            \o <<Enc(1, 1, "rand:5", "rand:5"), Enc(2, 2, "rand:6", "rand:6"),
                 KSet(51, "of:1", "fill:0"), KSet(52, "of:1", "fill:255"), KSet(53, "of:1", "rnd:7"),
                 KSet(54, "of:1", "of:1,flip:" \o T(8 * skb - 100)), KSet(55, "of:1", "of:1,flip:40"),
                 KSet(56, "of:1", "of:1,from:" \o T(2 * ((D + 4) \div 5)) \o ":0")>>
            \o Flat([c \in 1..3 |-> LET ct == <<"e:1", "e:2", "rnd:4">>[c] IN
                   [k \in 1..Amt(8, 12) |-> Dec(At(<<1, 2, 51, 52, 53, 54, 55, 56, 3, 4, 5, 6>>, k - 1), ct)]])
            \o Flat([n \in 1..4 |-> LET v == <<"rnd:2", "fill:255", "carry:9:0:1", "rnd:3">>[n] IN
                   Flat([k \in 1..4 |-> <<"rset 1 " \o <<"rnd:1", "fill:0", "fill:255", "rnd:9">>[k] \o " " \o v \o " 1",
                                          Rb(1, <<0, 1, 48, 300>>[n])>>])])
            \o <<"rinit 1 fill:0", "rinit 1 fill:255", "rinit 1 rnd:3">>)>>

-----------------------------------------------------------------------------
Plan ==
  CASE LANE = "Honest" -> Honest
    [] LANE = "Keys" -> Keys
    [] LANE = "Bulk" -> Bulk
    [] LANE = "Noise" -> Noise
    [] LANE = "Leak" -> Leak
    [] LANE = "Stuck" -> Stuck
    [] LANE = "Encaps" -> Encaps
    [] LANE = "Tampers" -> Tampers
    [] LANE = "Rejects" -> Rejects
    [] LANE = "Total" -> Total
    [] LANE = "Rngs" -> Rngs
    [] LANE = "Faults" -> Faults
    [] LANE = "Draws" -> Draws
    [] LANE = "Seeded" -> Seeded
    [] LANE = "Codec" -> Codec
    [] LANE = "Pure" -> Pure
    [] LANE = "Probe" -> Map(LAMBDA k : "probe", Num(1, 20))

Emit == LET p == TLCEval(Plan) IN \A k \in 1..Len(p) : PrintT("PLAN " \o T(k) \o " " \o p[k])
ASSUME Emit
=============================================================================
