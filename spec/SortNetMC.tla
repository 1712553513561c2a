------------------------------ MODULE SortNetMC ------------------------------
(***************************************************************************)
(* The sorting network of the fixed-weight sampler, as the sequence of      *)
(* comparisons it performs.  That this is a function of the length alone is *)
(* what makes the sampler independent of its secret input (C16); that it    *)
(* sorts is checked for all 0-1 inputs, which by the 0-1 principle decides  *)
(* all inputs.  CompareBits models the branch-free comparison on small      *)
(* words, including the overflow of the difference.                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC
CONSTANTS Len0,       \* number of words
          Drop        \* comparison left out (0: none), for the mutants

VARIABLES input, x, pos
vars == <<input, x, pos>>

Top(n) == LET RECURSIVE T(_)
              T(t) == IF t < n - t THEN T(2 * t) ELSE t
          IN T(1)
Span(lo, hi) == IF hi < lo THEN <<>> ELSE [k \in 1..(hi - lo + 1) |-> lo + k - 1]
Flat(ss) == FoldLeft(LAMBDA s, t : s \o t, <<>>, ss)

(* strides q, q/2, ... above p, applied to position j + p                     *)
Ladder(j, p, q) == LET RECURSIVE L(_)
                       L(r) == IF r <= p THEN <<>> ELSE <<<<j + p, j + r>>>> \o L(r \div 2)
                   IN L(q)

(* first half of a round: compare at distance p within blocks of 2p           *)
Pairs(n, p) == LET full == n \div (2 * p) i == full * 2 * p IN
  Flat([b \in 1..full |-> [k \in 1..p |-> <<2 * p * (b - 1) + k - 1, 2 * p * (b - 1) + k - 1 + p>>]])
  \o [k \in 1..(IF n - p > i THEN n - p - i ELSE 0) |-> <<i + k - 1, i + k - 1 + p>>]

(* second half: merge, distances from Top(n) down to 2p                       *)
Merge(n, p) ==
  LET RECURSIVE Q(_, _, _), Loop(_, _, _, _), Blocks(_, _)
      \* finish the block begun with the distance before; <<comparisons, i, j, done>>
      Loop(q, i, j, acc) ==
        IF j = n - q THEN <<acc, i, j, TRUE>>
        ELSE LET a2 == acc \o Ladder(j, p, q) IN
             IF j + 1 = i + p THEN <<a2, i + 2 * p, j + 1, FALSE>> ELSE Loop(q, i, j + 1, a2)
      Blocks(q, i) == IF i + p <= n - q
                      THEN LET rest == Blocks(q, i + 2 * p)
                           IN <<Flat([k \in 1..p |-> Ladder(i + k - 1, p, q)]) \o rest[1], rest[2]>>
                      ELSE <<<<>>, i>>
      Q(q, i, j) ==
        IF q <= p THEN <<>>
        ELSE LET l == IF j # i THEN Loop(q, i, j, <<>>) ELSE <<<<>>, i, j, FALSE>> IN
             IF l[4] THEN l[1] \o Q(q \div 2, l[2], l[3])
             ELSE LET b == Blocks(q, l[2])
                      t == Span(b[2], n - q - 1)
                  IN l[1] \o b[1] \o Flat([k \in 1..Len(t) |-> Ladder(t[k], p, q)])
                     \o Q(q \div 2, b[2], IF n - q > b[2] THEN n - q ELSE b[2])
  IN Q(Top(n), 0, 0)

Network(n) == LET RECURSIVE R(_)
                  R(p) == IF p < 1 THEN <<>> ELSE Pairs(n, p) \o Merge(n, p) \o R(p \div 2)
              IN R(Top(n))

Net == TLCEval(Network(Len0))

Init == /\ input \in [1..Len0 -> {0, 1}] /\ x = input /\ pos = 0
Next == \/ /\ pos < Len(Net) /\ pos' = pos + 1 /\ UNCHANGED input
           /\ LET i == Net[pos + 1][1] + 1  j == Net[pos + 1][2] + 1 IN
              x' = IF x[i] > x[j] /\ pos + 1 # Drop THEN [x EXCEPT ![i] = x[j], ![j] = x[i]] ELSE x
        \/ pos = Len(Net) /\ UNCHANGED vars

InRange == pos = 0 => \A k \in 1..Len(Net) : 0 <= Net[k][1] /\ Net[k][1] < Net[k][2] /\ Net[k][2] < Len0
Permutes == FoldLeft(+, 0, x) = FoldLeft(+, 0, input)
Sorted == pos = Len(Net) => \A k \in 1..(Len0 - 1) : x[k] <= x[k + 1]
-----------------------------------------------------------------------------
(* the comparison, on words of B bits                                        *)
B == 4
Bits(u) == [k \in 0..(B - 1) |-> (u \div 2^k) % 2]
Num(b) == FoldLeft(LAMBDA s, k : s + b[k] * 2^k, 0, [k \in 1..B |-> k - 1])
Xor(u, t) == LET p == Bits(u) q == Bits(t) IN Num([k \in 0..(B - 1) |-> (p[k] + q[k]) % 2])
And(u, t) == LET p == Bits(u) q == Bits(t) IN Num([k \in 0..(B - 1) |-> p[k] * q[k]])
Signed(u) == IF u >= 2^(B - 1) THEN u - 2^B ELSE u
Correct(c, ab, b) == Xor(c, And(ab, Xor(c, b)))
MinMax(a, b) ==
  LET ab == Xor(a, b)
      c1 == Correct((b - a) % 2^B, ab, b)              \* sign of the true difference
      m == And(IF c1 >= 2^(B - 1) THEN 2^B - 1 ELSE 0, ab)
  IN <<Xor(a, m), Xor(b, m)>>
CompareBits == pos = 0 => \A a, b \in 0..(2^B - 1) :
  MinMax(a, b) = IF Signed(a) <= Signed(b) THEN <<a, b>> ELSE <<b, a>>
MutCorrect(c, ab, b) == c
=============================================================================
