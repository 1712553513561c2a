------------------------------- MODULE DrbgMC -------------------------------
(***************************************************************************)
(* Histories of one generator and its clone, exhaustively to a depth: what *)
(* C09 and C10 promise about the design follows from the definitions in    *)
(* Drbg (with the real block cipher).                                      *)
(***************************************************************************)
EXTENDS Drbg, FiniteSets
CONSTANTS Depth, ReqLens, InitStates(_)

VARIABLES a, b,       \* two generators
          used,       \* <<key, counter>> pairs of blocks spent on output or update
          fresh,      \* no pair was ever spent twice
          forked,     \* b is a clone made from a, and both have the same history since
          log,        \* lengths requested from a since it was seeded, newest first
          depth
vars == <<a, b, used, fresh, forked, log, depth>>

(* the blocks a request for n bytes spends: output, then three for the update *)
Spent(st, n) == {<<st.key, AddV(st.v, k)>> : k \in 1..(Blocks(n) + 3)}

Init == /\ a \in InitStates(0) /\ b = DrbgNew
        /\ used = {} /\ fresh = TRUE /\ forked = FALSE /\ log = <<>> /\ depth = 0

Request == \E n \in ReqLens :
  LET sp == TLCEval(Spent(a, n)) IN
  /\ a' = TLCEval(DrbgNext(a, n))
  /\ fresh' = (fresh /\ sp \cap used = {} /\ Cardinality(sp) = Blocks(n) + 3)
  /\ used' = used \cup sp
  /\ log' = <<n>> \o log /\ forked' = FALSE /\ UNCHANGED b

Fork == /\ ~forked /\ b' = a /\ forked' = TRUE /\ UNCHANGED <<a, used, fresh, log>>

(* both generators serve the same request                                    *)
Both == /\ forked
        /\ \E n \in ReqLens :
           LET sp == TLCEval(Spent(a, n)) IN
           /\ a' = TLCEval(DrbgNext(a, n)) /\ b' = TLCEval(DrbgNext(b, n))
           /\ fresh' = (fresh /\ sp \cap used = {} /\ Cardinality(sp) = Blocks(n) + 3)
           /\ used' = used \cup sp /\ log' = <<n>> \o log
        /\ UNCHANGED forked

Next == depth < Depth /\ depth' = depth + 1 /\ (Request \/ Fork \/ Both)

-----------------------------------------------------------------------------
NoReuse == fresh
CloneStays == forked => b = a
(* a shorter request gets a prefix of what a longer one would get, and the    *)
(* successor depends on the number of blocks only                            *)
Prefix == \A n \in ReqLens, m \in ReqLens :
  n <= m => /\ SubSeq(DrbgOut(a, m), 1, n) = DrbgOut(a, n)
            /\ Blocks(n) = Blocks(m) <=> DrbgNext(a, n) = DrbgNext(a, m)
(* every request, also for nothing, moves the state                          *)
Moves == \A n \in ReqLens : LET s == DrbgNext(a, n) IN s.key # a.key /\ s.v # a.v /\ s.rc # a.rc
(* the state holds no more than the last update produced: re-seeding forgets *)
Forgets == \A sd \in {[i \in 1..48 |-> 0], [i \in 1..48 |-> i]} : DrbgInit(sd).rc = 1

Seeded(x) == {DrbgInit([i \in 1..48 |-> (i * 7 + k) % 256]) : k \in 1..2}
Corners(x) == {DrbgNew, DrbgInit([i \in 1..48 |-> i]),
               [key |-> Zeros(32), v |-> [i \in 1..16 |-> 255], rc |-> 2147483647],
               [key |-> Zeros(32), v |-> [i \in 1..16 |-> IF i < 9 THEN 7 ELSE 255], rc |-> -1]}

(* Mutants                                                                  *)
MutNextNoAdvance(s, n) ==        \* the update starts where the output started
  LET u == Update(s.key, s.v, Zeros(48)) IN [key |-> u.key, v |-> u.v, rc |-> WrapI32(s.rc)]
MutNextLazy(s, n) ==             \* a request for nothing changes nothing
  IF n = 0 THEN s ELSE LET u == Update(s.key, AddV(s.v, Blocks(n)), Zeros(48)) IN
  [key |-> u.key, v |-> u.v, rc |-> WrapI32(s.rc)]
MutNextKeyOnly(s, n) ==          \* only the counter moves on
  [key |-> s.key, v |-> AddV(s.v, Blocks(n)), rc |-> WrapI32(s.rc)]
MutAdd64(v, k) ==                \* the carry stops after eight bytes
  LET RECURSIVE C(_)
      C(i) == IF i = 16 THEN k ELSE IF i = 8 THEN 0 ELSE (v[i + 1] + C(i + 1)) \div 256
  IN TLCEval([i \in 1..16 |-> (v[i] + C(i)) % 256])
MutAddNoWrap(v, k) ==            \* the last byte saturates
  [i \in 1..16 |-> IF i = 16 THEN (IF v[16] + k > 255 THEN 255 ELSE v[16] + k) ELSE v[i]]
=============================================================================
