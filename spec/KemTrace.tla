------------------------------ MODULE KemTrace ------------------------------
(***************************************************************************)
(* Validation of recorded calls.                                           *)
(*                                                                         *)
(* A recording is a sequence of sessions; a session is the sequence of API *)
(* calls one caller made, with all inputs and outputs.  Each session is a  *)
(* behaviour of this specification: the state carries what the caller owns *)
(* (generators, key pairs, encapsulations), the next call of the session   *)
(* determines the step, and `bad' collects the obligations the recorded    *)
(* outputs do not meet.  Props selects the properties to be judged.        *)
(***************************************************************************)
EXTENDS Ntru, Drbg, Json, IOUtils, FiniteSets
CONSTANT Props

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES s,      \* session
          i,      \* calls consumed
          rngs,   \* generator -> state according to the specification
          seen,   \* generator -> state as last recorded
          keys,   \* key handle -> event that made it
          encs,   \* encapsulation handle -> event that made it
          bad     \* obligations not met so far
vars == <<s, i, rngs, seen, keys, encs, bad>>

Ev(k) == Trace[s].ev[k]
Cur == Ev(i + 1)

(* h :> v @@ f without evaluating other entries                             *)
Put(f, h, v) == [x \in (DOMAIN f) \cup {h} |-> IF x = h THEN v ELSE f[x]]

(* <<p, what>> if p is judged and cond fails                                *)
Need(p, what, cond) == IF p \in Props /\ ~cond THEN {<<p, what>>} ELSE {}
Count1(t) == PrintT(<<"T", t>>)

-----------------------------------------------------------------------------
(* Pieces of recorded calls                                                *)
Delivered(e) == FoldLeft(LAMBDA a, r : a \o r.b, <<>>, e.req)
Lens(e) == [k \in 1..Len(e.req) |-> e.req[k].n]
Faulty(e) == e.r = 0 /\ e.fault # ""
Ok(e) == e.res = "ok"
State(x) == [key |-> x.key, v |-> x.v, rc |-> x.rc]

(* g with 3g = f*h (HPS) or 3(x-1)g = f*h (HRSS) in S_q: the only candidate *)
Third == CHOOSE v \in 0..(Q - 1) : (3 * v) % Q = 1
NInv == CHOOSE v \in 0..(Q - 1) : ((N % Q) * v) % Q = 1
GCandidate(f, h) ==
  LET w == Scale(Third, SMul(h, Z3ToZq(f), Q), Q) IN
  IF FAMILY = "HPS" THEN w
  ELSE LET c == (-(SumMod(w, Q)) * NInv) % Q
           v == [k \in Idx |-> (w[k] + c) % Q]           \* multiple of x - 1
           \* v[k] = g[k-1] - g[k], g[N] = 0:  g[k] = v[k+1] + ... + v[N] ... summed downwards
           RECURSIVE G(_)
           G(k) == IF k = N THEN <<0>> ELSE LET t == G(k + 1) IN <<(v[k + 1] + t[1]) % Q>> \o t
       IN TLCEval(G(1))

KeyGenOk(e) ==     \* polynomials of a key pair event satisfy the key equations
  LET f == SkF(e.sk) h == UnpackSumZero(e.pk) g == GCandidate(f, h) IN
  /\ IsInv3(SkFp(e.sk), f)
  /\ IsInvQ(SkHq(e.sk), ModPhi(h, Q))
  /\ IsTernaryQ(g) /\ g[N] = 0
  /\ FAMILY = "HPS" => Count(g, 1) = WEIGHT \div 2 /\ Count(g, Q - 1) = WEIGHT \div 2

CanonicalQ(b) == Len(b) = QBytes /\ PaddingClear(b)
CanonicalT(b) == b = PackT(UnpackT(b))

(* the sampled polynomials make a key (f = 0 or g = 0 does not)             *)
SeedUsable(e) ==
  LET d == Delivered(e) IN
  /\ Len(d) >= FGBytes
  /\ LET sm == SampleFG(SubSeq(d, 1, FGBytes)) IN sm.f # Const(0) /\ sm.g # Const(0)

-----------------------------------------------------------------------------
(* Obligations per call                                                    *)
FaultObligations(e, out1, out2) ==
  Need("C11", "error not returned", e.res = e.fault) \cup
  Need("C11", "request after the failure", Len(e.req) > 0 /\ ~e.req[Len(e.req)].ok
                  /\ \A k \in 1..(Len(e.req) - 1) : e.req[k].ok) \cup
  Need("C11", "outputs touched though the first request failed",
       Len(e.req) = 1 => e.clean)

KpObligations(e) ==
  LET d == TLCEval(Delivered(e))
      full == Len(d) >= FGBytes + PrfBytes
      want == <<FGBytes, PrfBytes>>
      usable == SeedUsable(e)
      sizes == Len(e.pk) = PkBytes /\ Len(e.sk) = SkBytes
      \* the public key belongs to the f in the secret key and the sampled g
      fits == IsPublicFor(UnpackSumZero(e.pk), SkF(e.sk), SampleFG(SubSeq(d, 1, FGBytes)).g)
  IN
  IF Faulty(e)
  THEN FaultObligations(e, e.pk, e.sk) \cup
       Need("C12", "requests before the fault", Lens(e) = SubSeq(want, 1, Len(e.req)))
  ELSE
  Need("C04", "key generation did not return Ok: " \o e.res, Ok(e)) \cup
  Need("C15", "key lengths", sizes) \cup
  Need("C12", "requests of key generation", Ok(e) => Lens(e) = want /\ e.inits = 0) \cup
  (IF ~Ok(e)
   THEN Need("C08", "no key pair: " \o e.res, FALSE) \cup Need("C01", "no key pair: " \o e.res, FALSE)
   ELSE
   Need("C05", "key equations", usable => sizes /\ KeyGenOk(e)) \cup
   Need("C05", "secret key layout", sizes /\ Len(d) >= PrfBytes /\
               SkPrf(e.sk) = SubSeq(d, Len(d) - PrfBytes + 1, Len(d))) \cup
   Need("C06", "f is not the sampled polynomial",
        full /\ sizes /\ SkF(e.sk) = SampleFG(SubSeq(d, 1, FGBytes)).f) \cup
   Need("C06", "g is not the sampled polynomial",
        (sizes /\ full /\ usable /\ ~fits) =>
           LET g == TLCEval(GCandidate(SkF(e.sk), UnpackSumZero(e.pk))) IN
           \* some other polynomial of the right kind took its place
           ~(IsTernaryQ(g) /\ KeyGenOk(e)) /\ ~(IsTernaryQ(g) /\ FAMILY = "HPS" /\
              (Count(g, 1) # WEIGHT \div 2 \/ Count(g, Q - 1) # WEIGHT \div 2))) \cup
   Need("C06", "rejection key is not the second delivery",
        full /\ sizes /\ SkPrf(e.sk) = SubSeq(d, FGBytes + 1, FGBytes + PrfBytes)) \cup
   Need("C13", "encoding of a key is not canonical",
        /\ sizes
        /\ CanonicalQ(e.pk)
        /\ CanonicalT(SubSeq(e.sk, 1, TBytes))
        /\ CanonicalT(SubSeq(e.sk, TBytes + 1, 2 * TBytes))
        /\ CanonicalQ(SubSeq(e.sk, 2 * TBytes + 1, 2 * TBytes + QBytes))) \cup
   Need("C13", "key bytes are not the encoding of the key polynomials",
        (full /\ usable) => LET kg == KeyGenBytes(SubSeq(d, 1, FGBytes), SubSeq(d, FGBytes + 1, FGBytes + PrfBytes))
                            IN e.pk = kg.pk /\ e.sk = kg.sk))

(* a key handle whose pair was generated by the library from usable bytes    *)
Generated(k) == LET e == Ev(keys[k]) IN e.op = "kp" /\ Ok(e) /\ SeedUsable(e)

EncObligations(e) ==
  LET d == TLCEval(Delivered(e))
      full == Len(d) >= RMBytes
      ke == Ev(keys[e.k])
      sizes == Len(e.ct) = CtBytes /\ Len(e.ss) = SsBytes
      seed == SubSeq(d, 1, RMBytes)
  IN
  IF Faulty(e)
  THEN FaultObligations(e, e.ct, e.ss) \cup
       Need("C12", "requests before the fault", Lens(e) = <<RMBytes>>)
  ELSE
  Need("C04", "encapsulation did not return Ok: " \o e.res, Ok(e)) \cup
  Need("C15", "ciphertext lengths", sizes) \cup
  Need("C12", "requests of encapsulation", Ok(e) => Lens(e) = <<RMBytes>> /\ e.inits = 0) \cup
  Need("C14", "public key modified", e.intact) \cup
  (IF ~Ok(e)
   THEN Need("C01", "no ciphertext: " \o e.res, ~Generated(e.k)) \cup
        Need("C07", "no ciphertext: " \o e.res, FALSE) \cup
        Need("C08", "no ciphertext: " \o e.res, FALSE)
   ELSE
   Need("C07", "ciphertext or secret is not the scheme's",
        full /\ EncBytes(ke.pk, seed) = [ct |-> e.ct, ss |-> e.ss]) \cup
   Need("C06", "r or m is not the sampled polynomial",
        (sizes /\ full /\ ke.op = "kp" /\ Generated(e.k)) =>
          LET view == DecView(ke.sk, e.ct)
              sm == SampleRM(seed)
          IN (IsTernaryQ(view.r) /\
              EncPoly(UnpackSumZero(ke.pk), ZqToZ3(view.r), view.m) = UnpackSumZero(e.ct))
             => view.m = sm.m /\ ZqToZ3(view.r) = sm.r) \cup
   Need("C13", "encoding of a ciphertext is not canonical", sizes /\ CanonicalQ(e.ct)) \cup
   Need("C13", "ciphertext is not the encoding of its polynomial",
        full => LET sm == SampleRM(seed) IN
                UnpackSumZero(e.ct) = EncPoly(UnpackSumZero(ke.pk), sm.r, sm.m)))

(* how close an honest ciphertext comes to a decryption failure: the largest  *)
(* coefficient of f*c, in tenths of q/2                                      *)
Noise(sk, ct) ==
  LET a == RMul(UnpackSumZero(ct), Z3ToZq(SkF(sk)), Q)
      big == FoldLeft(LAMBDA x, c : LET y == IF c < Q \div 2 THEN c ELSE Q - c IN IF y > x THEN y ELSE x, 0, a)
  IN (10 * big) \div (Q \div 2)

DecObligations(e) ==
  LET ke == Ev(keys[e.k])
      ct == IF e.e = 0 THEN e.ct ELSE Ev(encs[e.e]).ct
      view == TLCEval(DecView(ke.sk, ct))
      honest == e.e # 0 /\ Ev(encs[e.e]).k = e.k /\ Ok(Ev(encs[e.e])) /\ Generated(e.k)
  IN
  Need("C04", "decapsulation did not return Ok: " \o e.res, Ok(e)) \cup
  Need("C14", "inputs modified", e.intact) \cup
  Need("C01", "the two sides disagree", (honest /\ Count1("noise-" \o ToString(Noise(ke.sk, ct)))) => Ok(e) /\ e.ss = Ev(encs[e.e]).ss) \cup
  Need("C02", "a valid ciphertext does not open",
       (Len(ct) = CtBytes /\ Len(ke.sk) = SkBytes) =>
       (IF view.valid THEN Count1("dec-valid") ELSE Count1("dec-invalid")) /\
       (view.valid => Ok(e) /\ e.ss = SecretOf(ZqToZ3(view.r), view.m))) \cup
  Need("C02", "an invalid ciphertext is not rejected",
       ~view.valid => Ok(e) /\ e.ss = RejectOf(SkPrf(ke.sk), ct)) \cup
  Need("C03", "rejection secret",
       (IF view.valid THEN Count1("dec-valid") ELSE Count1("dec-invalid")) /\
       (~view.valid => Ok(e) /\ e.ss = RejectOf(SkPrf(ke.sk), ct))) \cup
  Need("C13", "decapsulation does not decode like the scheme",
       Ok(e) => e.ss = DecBytes(ke.sk, ct)) \cup
  \* the meaning of "valid": re-encapsulating the recovered r and m gives the same bytes
  Need("SPEC", "valid but not an encapsulation",
       (view.valid /\ ke.op = "kp" /\ Generated(e.k)) =>
          PackQ(EncPoly(UnpackSumZero(ke.pk), ZqToZ3(view.r), view.m)) = ct)

(* Calls that draw from a bundled generator                                 *)
RECURSIVE After(_, _)
After(st, lens) == IF lens = <<>> THEN st ELSE After(TLCEval(DrbgNext(st, Head(lens))), Tail(lens))
RECURSIVE OutOf(_, _)
OutOf(st, lens) == IF lens = <<>> THEN <<>>
                   ELSE <<DrbgOut(st, Head(lens))>> \o OutOf(TLCEval(DrbgNext(st, Head(lens))), Tail(lens))

DrawObligations(e) ==      \* e is kp or enc with e.r # 0
  Need("C09", "bytes delivered to a call",
       \A k \in 1..Len(e.req) : e.req[k].ok /\ e.req[k].b = OutOf(rngs[e.r], Lens(e))[k]) \cup
  Need("C10", "generator state after a call", State(e.st) = After(seen[e.r], Lens(e)))

SchemeObligations(e) ==    \* byte-exact outputs from the generator state alone
  IF "C08" \notin Props \/ e.r = 0 \/ ~Ok(e) THEN {}
  ELSE IF e.op = "kp"
  THEN LET st == rngs[e.r]
           seed == DrbgOut(st, FGBytes)
           prf == DrbgOut(DrbgNext(st, FGBytes), PrfBytes)
           kg == TLCEval(KeyGenBytes(seed, prf))
       IN Need("C08", "public key", e.pk = kg.pk) \cup Need("C08", "secret key", e.sk = kg.sk)
  ELSE LET en == TLCEval(EncBytes(Ev(keys[e.k]).pk, DrbgOut(rngs[e.r], RMBytes)))
       IN Need("C08", "ciphertext", e.ct = en.ct) \cup Need("C08", "shared secret", e.ss = en.ss)

(* the state after the prescribed requests of the call                      *)
SchemeLens(e) == IF e.op = "kp" THEN <<FGBytes, PrfBytes>> ELSE <<RMBytes>>

Outputs(e) ==              \* as recorded by repetitions: two byte strings
  CASE e.op = "kp"  -> <<e.pk, e.sk>>
    [] e.op = "enc" -> <<e.ct, e.ss>>
    [] e.op = "dec" -> <<<<>>, e.ss>>

AgainObligations(e) ==
  LET o == Ev(e.of) IN
  Need("C04", "a repeated call did not return Ok: " \o e.res, e.res = "ok") \cup
  Need("C14", "a repeated call gives another result", e.res = o.res /\ (Ok(o) => <<e.x, e.y>> = Outputs(o))) \cup
  Need("C03", "the rejection secret is not reproducible", o.op = "dec" /\ Ok(o) => e.y = o.ss)

(* Calls from several threads: a log of call and return records.  Every     *)
(* return must belong to the open call of its thread and carry the result   *)
(* the same call has when made alone.                                       *)
ParObligations(e) ==
  LET Good(r) == LET v == e.vals[r[3]] o == Ev(r[2]) IN v.res = o.res /\ (Ok(o) => <<v.x, v.y>> = Outputs(o))
      \* results of equal calls are recorded once
      good == TLCEval([p \in {<<e.log[k][2], e.log[k][3]>> : k \in 1..Len(e.log)} |-> p[2] = 0 \/ Good(<<0, p[1], p[2]>>)])
      Step(open, r) ==
        IF r[3] = 0
        THEN [open EXCEPT !.ok = open.ok /\ open.at[r[1]] = 0, !.at[r[1]] = r[2]]
        ELSE [open EXCEPT !.ok = open.ok /\ open.at[r[1]] = r[2] /\ good[<<r[2], r[3]>>], !.at[r[1]] = 0]
      end == FoldLeft(Step, [ok |-> TRUE, at |-> [t \in 1..e.threads |-> 0]], e.log)
  IN Need("C14", "a concurrent call gives another result", end.ok) \cup
     Need("C04", "a concurrent call did not return Ok", \A k \in 1..Len(e.vals) : e.vals[k].res = "ok")

(* Calls made by the generator while a call waits for its bytes              *)
NestObligations(e) ==
  Need("C14", "a call gives another result when calls are nested",
       \A k \in 1..Len(e.vals) : LET v == e.vals[k] o == Ev(v.of) IN
          v.res = o.res /\ (Ok(o) => <<v.x, v.y>> = Outputs(o))) \cup
  Need("SPEC", "nested calls were not made", Len(e.vals) = 1 + e.inner) \cup
  Need("C04", "a nested call did not return Ok", \A k \in 1..Len(e.vals) : e.vals[k].res = "ok")

BurstObligations(e) ==
  Need("C04", "a call did not return Ok: " \o e.res, Ok(e)) \cup
  Need("C01", "the two sides disagree", Ok(e) /\ e.enc = e.dec)

-----------------------------------------------------------------------------
Init == /\ s \in 1..Len(Trace)
        /\ i = 0 /\ rngs = <<>> /\ seen = <<>> /\ keys = <<>> /\ encs = <<>> /\ bad = {}

RngNew ==
  /\ Cur.op \in {"rnew", "rdef"}
  /\ rngs' = Put(rngs, Cur.r, DrbgNew) /\ seen' = Put(seen, Cur.r, State(Cur.st))
  /\ bad' = bad \cup Need("C10", "a new generator is not in the zero state", State(Cur.st) = DrbgNew)
  /\ UNCHANGED <<keys, encs>>

RngSet ==            \* the caller writes the public fields
  /\ Cur.op = "rset"
  /\ rngs' = Put(rngs, Cur.r, State(Cur.st)) /\ seen' = Put(seen, Cur.r, State(Cur.st))
  /\ UNCHANGED <<keys, encs, bad>>

RngInit ==
  /\ Cur.op = "rinit"
  /\ LET st == TLCEval(DrbgInit(Cur.seed)) IN
     /\ rngs' = Put(rngs, Cur.r, st) /\ seen' = Put(seen, Cur.r, State(Cur.st))
     /\ bad' = bad \cup Need("C10", "state after seeding", Ok(Cur) /\ State(Cur.st) = st)
                   \cup Need("C09", "seeding failed", Ok(Cur))
                   \cup Need("C04", "seeding did not return: " \o Cur.res, Ok(Cur))
  /\ UNCHANGED <<keys, encs>>

RngClone ==
  /\ Cur.op = "rclone"
  /\ rngs' = Put(rngs, Cur.r, rngs[Cur.from]) /\ seen' = Put(seen, Cur.r, State(Cur.st))
  /\ bad' = bad \cup Need("C10", "a clone differs from its original", Cur.eq /\ State(Cur.st) = seen[Cur.from])
  /\ UNCHANGED <<keys, encs>>

RngCompare ==
  /\ Cur.op = "req"
  /\ bad' = bad \cup Need("C10", "equality of generators is not equality of states",
                          Cur.eq = (seen[Cur.r] = seen[Cur.q]))
  /\ UNCHANGED <<rngs, seen, keys, encs>>

RngBytes ==
  /\ Cur.op = "rb"
  /\ rngs' = Put(rngs, Cur.r, TLCEval(DrbgNext(rngs[Cur.r], Cur.n)))
  /\ seen' = Put(seen, Cur.r, State(Cur.st))
  /\ bad' = bad \cup Need("C09", "output of a request", Ok(Cur) /\ Cur.out = DrbgOut(rngs[Cur.r], Cur.n))
                \cup Need("C10", "state after a request", Ok(Cur) /\ State(Cur.st) = DrbgNext(seen[Cur.r], Cur.n))
                \cup Need("C04", "a request did not return Ok: " \o Cur.res, Ok(Cur))
  /\ UNCHANGED <<keys, encs>>

Draw ==              \* effect of a call on the generator it was given
  IF Cur.r = 0 THEN UNCHANGED <<rngs, seen>>
  ELSE /\ rngs' = Put(rngs, Cur.r, TLCEval(After(rngs[Cur.r], SchemeLens(Cur))))
       /\ seen' = Put(seen, Cur.r, State(Cur.st))
DrawBad == IF Cur.r = 0 THEN {} ELSE DrawObligations(Cur)

KeyPair ==
  /\ Cur.op = "kp"
  /\ keys' = Put(keys, Cur.k, i + 1) /\ Draw
  /\ bad' = bad \cup KpObligations(Cur) \cup DrawBad \cup SchemeObligations(Cur)
  /\ UNCHANGED encs

KeySet ==            \* the caller supplies key bytes
  /\ Cur.op = "kset"
  /\ keys' = Put(keys, Cur.k, i + 1)
  /\ UNCHANGED <<rngs, seen, encs, bad>>

Encaps ==
  /\ Cur.op = "enc"
  /\ encs' = Put(encs, Cur.e, i + 1) /\ Draw
  /\ bad' = bad \cup EncObligations(Cur) \cup DrawBad \cup SchemeObligations(Cur)
  /\ UNCHANGED keys

Decaps ==
  /\ Cur.op = "dec"
  /\ bad' = bad \cup DecObligations(Cur)
       \cup Need("C08", "decapsulated secret",
                 Ok(Cur) /\ Cur.ss = DecBytes(Ev(keys[Cur.k]).sk, IF Cur.e = 0 THEN Cur.ct ELSE Ev(encs[Cur.e]).ct))
  /\ UNCHANGED <<rngs, seen, keys, encs>>

Other ==
  /\ Cur.op \in {"again", "par", "nest", "burst", "info", "hang"}
  /\ bad' = bad \cup CASE Cur.op = "again" -> AgainObligations(Cur)
                       [] Cur.op = "par"   -> ParObligations(Cur)
                       [] Cur.op = "nest"  -> NestObligations(Cur)
                       [] Cur.op = "burst" -> BurstObligations(Cur)
                       [] Cur.op = "hang"  -> {<<p, "a call does not return: " \o Cur.call>> : p \in Props}
                       [] OTHER -> {}
  /\ UNCHANGED <<rngs, seen, keys, encs>>

Next ==
  /\ i < Len(Trace[s].ev)
  /\ i' = i + 1 /\ UNCHANGED s
  /\ RngNew \/ RngSet \/ RngInit \/ RngClone \/ RngCompare \/ RngBytes
     \/ KeyPair \/ KeySet \/ Encaps \/ Decaps \/ Other

(* every recorded call is consumed: a session ends only at its last event    *)
Done == i = Len(Trace[s].ev) /\ UNCHANGED vars
Spec == Init /\ [][Next \/ Done]_vars

Accepted == bad = {}
(* ... of a recording in which one field was changed                         *)
Rejected == i = Len(Trace[s].ev) => bad # {}

(* what is shown of a rejected behaviour                                    *)
Alias == [session |-> Trace[s].id, line |-> s, call |-> i, bad |-> bad]
=============================================================================
