------------------------------ MODULE PlanHist ------------------------------
(***************************************************************************)
(* Histories: an application that owns generators, key pairs and           *)
(* encapsulations and calls the library in any order.  Behaviours of this  *)
(* state machine, drawn at random by TLC's simulator, are plans for the    *)
(* harness; what the library answers is judged by KemTrace.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS N, LOGQ, WEIGHT, FAMILY, TIER, SEED,
          DEPTH,       \* calls per session
          KIND         \* "kem" or "rng"

VARIABLES hist,        \* the calls so far, in the notation of the harness
          gens,        \* generator handles in use
          keys,        \* key handles in use
          encs,        \* encapsulation handles in use, each with its key
          calls        \* calls that can be repeated (positions in hist)
vars == <<hist, gens, keys, encs, calls>>

T(x) == ToString(x)
Handles == 1..3
Pos == Len(hist) + 1
Rnd(S) == RandomElement(S)
Buf(z) == Rnd({"r", "0", "255", "r"})

Log(op) == hist' = Append(hist, op)
Repeatable == calls' = calls \cup {Pos}

Init == hist = <<>> /\ gens = {} /\ keys = {} /\ encs = <<>> /\ calls = {}

(* Generators *)
Seeds(z) == {"rnd:1", "rnd:2", "rnd:" \o T(Rnd(3..1000)), "fill:0", "fill:255", "cnt"}
RNew == \E h \in {Rnd(Handles)} :
        /\ Log((IF Rnd(1..4) = 1 THEN "rdef " ELSE "rnew ") \o T(h))
        /\ gens' = gens \cup {h} /\ UNCHANGED <<keys, encs, calls>>
RInit == /\ gens # {}
         /\ \E h \in {Rnd(gens)} : Log("rinit " \o T(h) \o " " \o Rnd(Seeds(Pos)))
         /\ UNCHANGED <<gens, keys, encs, calls>>
RClone == /\ gens # {}
          /\ \E h \in {Rnd(Handles)}, g \in {Rnd(gens)} :
             /\ h # g
             /\ Log("rclone " \o T(h) \o " " \o T(g)) /\ gens' = gens \cup {h}
          /\ UNCHANGED <<keys, encs, calls>>
RSet == \E h \in {Rnd(Handles)} :
        /\ Log("rset " \o T(h) \o " " \o Rnd({"rnd:5", "fill:0", "fill:255", "rnd:" \o T(Rnd(1..500))}) \o " "
               \o Rnd({"fill:255", "fill:0", "rnd:" \o T(Rnd(1..500)),
                       "carry:" \o T(Rnd(1..15)) \o ":" \o T(Rnd(0..8)) \o ":" \o T(Rnd(1..500))}) \o " "
               \o T(Rnd({0, 1, 2, -1, 255, 256, 65535, 65536, 2147483646, 2147483647, -2147483647})))
        /\ gens' = gens \cup {h} /\ UNCHANGED <<keys, encs, calls>>
RCmp == /\ Cardinality(gens) > 1
        /\ \E g \in {Rnd(gens)} : Log("req " \o T(g) \o " " \o T(Rnd(gens)))
        /\ UNCHANGED <<gens, keys, encs, calls>>
Bytes == /\ gens # {}
         /\ Log("rb " \o T(Rnd(gens)) \o " " \o
                T(CASE Rnd(1..4) = 1 -> Rnd({0, 1, 15, 16, 17, 31, 32, 33, 47, 48, 49})
                    [] Rnd(1..3) = 1 -> Rnd(50..700)
                    [] OTHER -> Rnd(0..64)))
         /\ UNCHANGED <<gens, keys, encs, calls>>

(* Key pairs, encapsulations, decapsulations.  The random bytes come from a *)
(* bundled generator or from the caller's own.                              *)
Src(own) == IF gens # {} /\ Rnd(1..2) = 1 THEN "aes:" \o T(Rnd(gens)) ELSE "s:" \o own
Cls(z) == Rnd({"rand:" \o T(Rnd(1..5)), "rawrnd:" \o T(Rnd(1..5)), "rand:" \o T(Rnd(1..5))})
KeyGen == \E k \in {Rnd(Handles)} :
          /\ Log("kp " \o T(k) \o " " \o Src(Cls(Pos) \o "/" \o Cls(Pos + 1) \o "/rnd:" \o T(Rnd(1..9))) \o " " \o Buf(Pos))
          /\ keys' = keys \cup {k} /\ Repeatable /\ UNCHANGED <<gens, encs>>
KeyFail ==         \* a key generation that fails changes nothing else
          /\ Log("kp 9 s:" \o Cls(Pos + 1) \o "/" \o Cls(Pos + 1) \o "/rnd:" \o T(Rnd(1..9)) \o "!" \o T(Rnd({1, 2})) \o " " \o Buf(Pos))
          /\ UNCHANGED <<gens, keys, encs, calls>>
(* a variation of an existing pair: other rejection key, damaged parts      *)
KeyEdit == /\ keys # {}
           /\ \E k \in {Rnd(Handles)}, o \in {Rnd(keys)} :
              /\ k # o
              /\ Log("kset " \o T(k) \o " of:" \o T(o) \o Rnd({"", ",flip:" \o T(Rnd(0..5000))}) \o
                     " of:" \o T(o) \o Rnd({"", ",flip:" \o T(Rnd(0..7000)), ",byte:" \o T(Rnd(0..900)) \o ":" \o T(Rnd(0..255))}))
              /\ keys' = keys \cup {k}
           /\ UNCHANGED <<gens, encs, calls>>
Encaps == /\ keys # {}
          /\ \E e \in {Rnd(Handles)}, k \in {Rnd(keys)} :
             /\ Log("enc " \o T(e) \o " " \o T(k) \o " " \o Src(Cls(Pos) \o "/" \o Cls(Pos + 1)) \o " " \o Buf(Pos))
             /\ encs' = [x \in DOMAIN encs \cup {e} |-> IF x = e THEN k ELSE encs[x]]
          /\ Repeatable /\ UNCHANGED <<gens, keys>>
Decaps == /\ keys # {} /\ DOMAIN encs # {}
          /\ \E e \in {Rnd(DOMAIN encs)} : \E k \in {IF Rnd(1..3) < 3 THEN encs[e] ELSE Rnd(keys)} :
             Log("dec " \o T(k) \o " e:" \o T(e) \o
                 (CASE Rnd(1..3) = 1 -> ",flip:" \o T(Rnd(0..9000))
                    [] Rnd(1..6) = 1 -> ",add:" \o T(Rnd(0..500)) \o ":" \o T(Rnd({1, -1, 2, 3}))
                    [] OTHER -> "") \o " " \o Buf(Pos))
          /\ Repeatable /\ UNCHANGED <<gens, keys, encs>>
DecapsAny == /\ keys # {}
             /\ Log("dec " \o T(Rnd(keys)) \o " " \o Rnd({"rnd:1", "fill:0", "fill:255", "rnd:" \o T(Rnd(2..99))}) \o " " \o Buf(Pos))
             /\ Repeatable /\ UNCHANGED <<gens, keys, encs>>
Again == /\ calls # {}
         /\ Log("again " \o T(Rnd(calls)) \o " " \o Buf(Pos))
         /\ UNCHANGED <<gens, keys, encs, calls>>

RngStep == RNew \/ RInit \/ RClone \/ RSet \/ RCmp \/ Bytes
Step == IF KIND = "rng"
        THEN IF Rnd(1..10) <= 6 /\ gens # {} THEN Bytes ELSE RngStep
        ELSE \E c \in {Rnd(1..20)} :
             CASE keys = {} -> IF c < 15 THEN KeyGen ELSE RNew
               [] c <= 3 -> RNew \/ RInit \/ RClone \/ RSet
               [] c = 4 /\ gens # {} -> Bytes
               [] c <= 7 -> KeyGen \/ KeyEdit \/ KeyFail
               [] c <= 11 -> Encaps
               [] c <= 15 -> Decaps \/ DecapsAny
               [] OTHER -> IF calls = {} THEN KeyGen ELSE Again

RECURSIVE Join(_)
Join(ss) == IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o ";" \o Join(Tail(ss))
Finish == hist' = <<"done">> /\ PrintT("PLAN " \o Join(hist)) /\ UNCHANGED <<gens, keys, encs, calls>>

Next == IF hist = <<"done">> THEN UNCHANGED vars
        ELSE IF Len(hist) = DEPTH THEN Finish ELSE Step
=============================================================================
