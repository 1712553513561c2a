--------------------------------- MODULE Kat ---------------------------------
(***************************************************************************)
(* The known-answer tool.                                                  *)
(*                                                                         *)
(* Writing: a request file lists seeds drawn from one generator, a response*)
(* file adds for each seed the outputs of key generation and encapsulation *)
(* from a generator seeded with it.  Verifying: a response file is accepted*)
(* if every record is right for its seed.                                  *)
(*                                                                         *)
(* The recording has one line per tool run: a written file as the sequence *)
(* of its lines, or the verdict on a file given to the tool.  Reading a    *)
(* file is a behaviour: `chain' is the generator the seeds come from, one  *)
(* step per line; Judge steps leave that path to compare one record with   *)
(* the scheme.                                                             *)
(***************************************************************************)
EXTENDS Ntru, Drbg, Json, IOUtils, FiniteSets
CONSTANT Records      \* records per file

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES run,     \* line of the recording
          at,      \* lines of the file read
          chain,   \* generator of the seeds
          seed,    \* seed of the record being read
          phase,   \* "read", "judged"
          bad
vars == <<run, at, chain, seed, phase, bad>>

Cur == Trace[run]
Entropy == [k \in 1..48 |-> k - 1]

(* Known answers of a seed *)
Answers(sd) ==
  LET st0 == TLCEval(DrbgInit(sd))
      fg == TLCEval(DrbgOut(st0, FGBytes))
      st1 == TLCEval(DrbgNext(st0, FGBytes))
      prf == TLCEval(DrbgOut(st1, PrfBytes))
      st2 == TLCEval(DrbgNext(st1, PrfBytes))
      kg == TLCEval(KeyGenBytes(fg, prf))
      en == TLCEval(EncBytes(kg.pk, DrbgOut(st2, RMBytes)))
  IN [pk |-> kg.pk, sk |-> kg.sk, ct |-> en.ct, ss |-> en.ss]

(* Structure of the files: kinds of lines *)
Fields == <<"count", "seed", "pk", "sk", "ct", "ss", "blank">>
Lines == Len(Cur.lines)
Head0 == IF Cur.file = "rsp" THEN 2 ELSE 0
Kind(k) == IF k <= Head0 THEN <<"name", "blank">>[k] ELSE Fields[((k - Head0 - 1) % 7) + 1]
Rec(k) == (k - Head0 - 1) \div 7
Expected == Head0 + 7 * Records

Wrong(what) == {<<run, what>>}

Init == /\ run \in 1..Len(Trace)
        /\ at = 0 /\ chain = DrbgInit(Entropy) /\ seed = <<>> /\ phase = "read" /\ bad = {}

(* the next line of a written file *)
Read ==
  /\ Cur.op = "write" /\ phase = "read" /\ at < Lines
  /\ at' = at + 1
  /\ LET l == Cur.lines[at + 1] k == at + 1 IN
     /\ seed' = IF Kind(k) = "seed" THEN DrbgOut(chain, 48) ELSE seed
     /\ chain' = IF Kind(k) = "seed" THEN DrbgNext(chain, 48) ELSE chain
     /\ bad' = bad \cup
          (IF l.kind # Kind(k) \/ k > Expected THEN Wrong("structure of the file")
           ELSE CASE l.kind = "name" -> IF l.text = Cur.variant THEN {} ELSE Wrong("name in the file")
                  [] l.kind = "count" -> IF l.num = Rec(k) THEN {} ELSE Wrong("numbering of the records")
                  [] l.kind = "seed" -> IF l.bytes = seed' THEN {} ELSE Wrong("seed")
                  [] l.kind = "blank" -> {}
                  [] OTHER -> IF Cur.file = "req" /\ l.bytes # <<>> THEN Wrong("a request file holds no answers") ELSE {})
  /\ UNCHANGED <<run, phase>>

(* the record that ends here is compared with the scheme *)
Judge ==
  /\ Cur.op = "write" /\ Cur.file = "rsp" /\ phase = "read"
  /\ at > Head0 /\ Kind(at) = "ss" /\ bad = {}
  /\ LET a == Answers(seed) L(j) == Cur.lines[at - j].bytes IN
     bad' = (IF L(3) = a.pk THEN {} ELSE Wrong("public key")) \cup (IF L(2) = a.sk THEN {} ELSE Wrong("secret key"))
            \cup (IF L(1) = a.ct THEN {} ELSE Wrong("ciphertext")) \cup (IF L(0) = a.ss THEN {} ELSE Wrong("shared secret"))
  /\ phase' = "judged" /\ UNCHANGED <<run, at, chain, seed>>

(* all lines read *)
Finish ==
  /\ Cur.op = "write" /\ phase = "read" /\ at = Lines
  /\ bad' = bad \cup (IF Lines = Expected /\ Cur.exit = 0 THEN {} ELSE Wrong("the file is not complete"))
  /\ phase' = "judged" /\ UNCHANGED <<run, at, chain, seed>>

(* a file was given to the tool: made from a written file (whose records are *)
(* judged above) by reordering records or not at all, it is right; with a    *)
(* digit changed or records missing it is wrong                              *)
Verdict ==
  /\ Cur.op = "verify" /\ phase = "read"
  /\ LET accepted == Cur.exit = 0 /\ Cur.said IN
     bad' = IF accepted = Cur.right THEN {}
            ELSE Wrong(IF accepted THEN "a wrong file is accepted: " \o Cur.edit ELSE "a right file is refused: " \o Cur.edit)
  /\ phase' = "judged" /\ UNCHANGED <<run, at, chain, seed>>

(* the demonstration program: one exchange from the fresh generator          *)
Demo ==
  /\ Cur.op = "simple" /\ phase = "read"
  /\ LET st1 == TLCEval(DrbgNext(DrbgNew, FGBytes)) st2 == TLCEval(DrbgNext(st1, PrfBytes))
         kg == TLCEval(KeyGenBytes(DrbgOut(DrbgNew, FGBytes), DrbgOut(st1, PrfBytes)))
         en == TLCEval(EncBytes(kg.pk, DrbgOut(st2, RMBytes)))
     IN bad' = IF /\ Cur.exit = 0 /\ Cur.pk = kg.pk /\ Cur.sk = kg.sk /\ Cur.ct = en.ct
                  /\ Cur.bob = en.ss /\ Cur.alice = en.ss
               THEN {} ELSE Wrong("the exchange shown")
  /\ phase' = "judged" /\ UNCHANGED <<run, at, chain, seed>>

Next == Read \/ Judge \/ Finish \/ Verdict \/ Demo
Accepted == bad = {}
Alias == [run |-> run, line |-> at, bad |-> bad]
=============================================================================
