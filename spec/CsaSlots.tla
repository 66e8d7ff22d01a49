------------------------------ MODULE CsaSlots ------------------------------
(***************************************************************************)
(* One batch call as a machine over the cells of CsaCore, without bounds:   *)
(* any set of packets, any lengths, any limit, any contents, and buffers    *)
(* full of anything (junk) before the call.  CsaBatch, which is replayed on *)
(* the library, refines this machine (TLC); CsaSlotsProof shows with TLAPS  *)
(* that the machine gives every packet the scrambling (descrambling) of its *)
(* own cells up to the limit, and leaves the rest: C04, C05, C06, C07, C18. *)
(*                                                                         *)
(* call.op    "enc" or "dec"                                                *)
(* call.lim   the limit, in cells                                           *)
(* call.src   packet -> its cells before the call                           *)
(* call.n     packet -> number of whole blocks within the limit             *)
(* call.m     packet -> number of cells within the limit (n, or n + 1 with  *)
(*            a residue)                                                    *)
(* call.wid   cells of a slot, at least the limit                           *)
(* call.junk  packet -> what its slot held before                           *)
(***************************************************************************)
EXTENDS CsaCore
VARIABLES call, mem, buf, iv, pc, off
svars == << call, mem, buf, iv, pc, off >>

Pk == DOMAIN call.src
Cells(p) == DOMAIN call.src[p]

SInit ==
  /\ mem = call.src
  /\ buf = call.junk
  /\ iv = [p \in Pk |-> zero]
  /\ pc = "load" /\ off = 1

SLoad ==
  /\ pc = "load"
  /\ buf' = [p \in Pk |-> [i \in 1..call.wid |-> IF i <= call.m[p] THEN mem[p][i] ELSE buf[p][i]]]
  /\ pc' = IF call.op = "enc" THEN "block" ELSE "iv"
  /\ off' = IF call.op = "enc" THEN call.lim ELSE 1
  /\ UNCHANGED << call, mem, iv >>

(* encrypting: from the last block to the first *)
SBlockEnc ==
  /\ pc = "block" /\ call.op = "enc" /\ off >= 1
  /\ buf' = [p \in Pk |->
               IF off > call.n[p] THEN buf[p]
               ELSE [i \in 1..call.wid |->
                       IF i = off THEN E(buf[p][off])
                       ELSE IF i = off - 1 THEN xor(buf[p][i], E(buf[p][off]))
                       ELSE buf[p][i]]]
  /\ off' = off - 1
  /\ UNCHANGED << call, mem, iv, pc >>
SBlockEncDone ==
  /\ pc = "block" /\ call.op = "enc" /\ off < 1
  /\ pc' = "iv" /\ off' = 1
  /\ UNCHANGED << call, mem, buf, iv >>

SSeed ==
  /\ pc = "iv"
  /\ iv' = [p \in Pk |-> buf[p][1]]
  /\ pc' = "stream" /\ off' = 2
  /\ UNCHANGED << call, mem, buf >>
(* every slot is masked, whatever the length of its packet *)
SStream ==
  /\ pc = "stream" /\ off <= call.lim
  /\ buf' = [p \in Pk |-> [i \in 1..call.wid |->
               IF i = off THEN xor(buf[p][i], K(iv[p], i)) ELSE buf[p][i]]]
  /\ off' = off + 1
  /\ UNCHANGED << call, mem, iv, pc >>
SStreamDone ==
  /\ pc = "stream" /\ off > call.lim
  /\ pc' = IF call.op = "enc" THEN "store" ELSE "block"
  /\ off' = 1
  /\ UNCHANGED << call, mem, buf, iv >>

(* decrypting: from the first block to the last *)
SBlockDec ==
  /\ pc = "block" /\ call.op = "dec" /\ off <= call.lim
  /\ buf' = [p \in Pk |->
               IF off > call.n[p] THEN buf[p]
               ELSE [i \in 1..call.wid |->
                       IF i = off THEN D(buf[p][off])
                       ELSE IF i = off - 1 THEN xor(buf[p][i], buf[p][off])
                       ELSE buf[p][i]]]
  /\ off' = off + 1
  /\ UNCHANGED << call, mem, iv, pc >>
SBlockDecDone ==
  /\ pc = "block" /\ call.op = "dec" /\ off > call.lim
  /\ pc' = "store" /\ off' = 1
  /\ UNCHANGED << call, mem, buf, iv >>

SStore ==
  /\ pc = "store"
  /\ mem' = [p \in Pk |-> [i \in Cells(p) |-> IF i <= call.m[p] THEN buf[p][i] ELSE mem[p][i]]]
  /\ pc' = "done"
  /\ UNCHANGED << call, buf, iv, off >>

SNext == \/ SLoad \/ SBlockEnc \/ SBlockEncDone \/ SSeed \/ SStream \/ SStreamDone
         \/ SBlockDec \/ SBlockDecDone \/ SStore
SSpec == SInit /\ [][SNext]_svars

(* What a legal call is.                                                     *)
Legal ==
  /\ call.junk = [p \in Pk |-> call.junk[p]] /\ call.src = [p \in Pk |-> call.src[p]]
  /\ call.op \in {"enc", "dec"}
  /\ call.lim \in Nat /\ call.wid \in Nat /\ call.wid >= 1 /\ call.wid >= call.lim
  /\ \A p \in Pk :
       /\ \E f \in Nat : Cells(p) = 1..f /\ call.m[p] <= f
       /\ call.src[p] \in [Cells(p) -> V]
       /\ call.n[p] \in Nat /\ call.m[p] \in {call.n[p], call.n[p] + 1}
       /\ call.m[p] <= call.lim
       /\ call.junk[p] \in [1..call.wid -> V]

Part(f, m) == [i \in 1..m |-> f[i]]
(* What every packet must be in the end.                                     *)
Right(p) ==
  /\ \A i \in Cells(p) : i > call.m[p] => mem[p][i] = call.src[p][i]
  /\ call.n[p] = 0 => \A i \in Cells(p) : mem[p][i] = call.src[p][i]
  /\ call.n[p] > 0 =>
       IF call.op = "enc"
       THEN Scrambled(Part(call.src[p], call.m[p]), Part(mem[p], call.m[p]), call.n[p], call.m[p])
       ELSE Descrambled(Part(call.src[p], call.m[p]), Part(mem[p], call.m[p]), call.n[p], call.m[p])
PacketsRight == pc = "done" => \A p \in Pk : Right(p)
=============================================================================
