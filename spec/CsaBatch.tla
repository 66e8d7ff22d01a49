----------------------------- MODULE CsaBatch ------------------------------
(***************************************************************************)
(* One batch call as the implementation performs it, step by step:         *)
(*   load    copy the packets before the terminator into fixed slots       *)
(*   block   encrypting: the block passes from the last block to the first *)
(*           decrypting: from the first to the last; each pass handles one *)
(*           block of every slot and XORs the chain                        *)
(*   stream  one keystream pass per block after the first                  *)
(*   store   copy the processed bytes back                                 *)
(* (dvbcsa_bs_algo.c, dvbcsa_bs_block.c, dvbcsa_bs_stream.c,               *)
(* dvbcsa_bs_transpose_*.c).  Bit-slicing itself is module CsaSlice.       *)
(*                                                                         *)
(* The module shows that this design implements the per-packet meaning of  *)
(* a batch call (CsaLib!Batch, CsaSym!SymBatchScramble): C04-C08, C18.     *)
(* Its initial states - every batch composition within the constants - are *)
(* also the batches that are replayed into the real library.               *)
(***************************************************************************)
EXTENDS CsaSym, TLC, Json

CONSTANTS N,        \* number of slots = batch size
          Lens,     \* packet lengths explored
          Limits,   \* legal limits explored
          After,    \* numbers of entries present after the terminator
          Ops,      \* subset of {"enc", "dec"}
  Cells,    \* blocks a slot holds: the greatest limit / 8
          Bug

W == 1
\* an entry is [data |-> NULL or a payload name, len]
VARIABLES arr, op, m,      \* the call: descriptor array, operation, limit
          user,            \* payload name -> payload
          slots, len8, n,  \* the packet buffer (slots: cell values)
          kiv,             \* first scrambled block of every slot, for the keystream
          pc, off
vars == << arr, op, m, user, slots, len8, n, kiv, pc, off >>

Clip(k) == IF Bug = "no clip" \/ k < m THEN k ELSE m
Lengths(a) == [i \in 1..Len(a) |-> a[i].len]

\* batches: up to N packets, the terminator, and `after' further entries
Batches ==
  UNION { [1..k -> Lens] : k \in 0..N }
Array(ls, after) ==
  [i \in 1..(Len(ls) + 1 + after) |->
     IF i <= Len(ls) THEN [data |-> i, len |-> ls[i]]
     ELSE IF i = Len(ls) + 1 THEN [data |-> 0, len |-> 0]
     ELSE [data |-> i, len |-> 16]]

Init ==
  \E ls \in Batches, a \in After :
    /\ arr = Array(ls, a)
    /\ op \in Ops /\ m \in Limits
    /\ user = [i \in {arr[j].data : j \in 1..Len(arr)} \ {0} |-> Plain(i, arr[i].len)]
    /\ slots = [s \in 1..N |-> [i \in 1..Cells + 1 |-> {<<"g", s, i>>}]]    \* whatever was on the stack
    /\ len8 = [s \in 1..N |-> -1] /\ n = -1
    /\ kiv = [s \in 1..N |-> {}]
    /\ pc = "load" /\ off = 0

RECURSIVE FirstNull(_, _)
FirstNull(a, i) == IF a[i].data = 0 THEN i ELSE FirstNull(a, i + 1)
NPackets == IF Bug = "past terminator" THEN Cardinality({i \in 1..Len(arr) : arr[i].data # 0 /\ i <= N + 1}) 
            ELSE FirstNull(arr, 1) - 1
Entry(s) == IF Bug = "past terminator" /\ s >= FirstNull(arr, 1) THEN arr[s + 1] ELSE arr[s]

Cell(p, i) == IF i <= Len(p.cells) THEN p.cells[i] ELSE p.res

Load ==
  /\ pc = "load"
  /\ n' = NPackets
  /\ len8' = [s \in 1..N |-> IF s <= n' THEN 8 * (Clip(Entry(s).len) \div 8) ELSE -1]
  /\ slots' = [s \in 1..N |-> [i \in 1..Cells + 1 |->
                 IF s <= n' /\ 8 * (i - 1) < Clip(Entry(s).len) /\ i <= Cells
                 THEN Cell(user[Entry(s).data], i) ELSE slots[s][i]]]
  /\ pc' = IF op = "enc" THEN "block" ELSE "iv"
  /\ off' = IF op = "enc" THEN m - 8 ELSE 0
  /\ UNCHANGED << arr, op, m, user, kiv >>

Alive(s, o) == s <= n /\ o < len8[s]
GuardChain(s, o) == IF Bug = "chain not guarded" THEN s <= n ELSE Alive(s, o)

\* dvbcsa_bs_block_encrypt_block at offset off: cell off/8, chain XOR into the
\* cell before it
BlockEncPass ==
  /\ pc = "block" /\ op = "enc" /\ off >= 0
  /\ LET c == off \div 8 + 1 IN
     slots' = [s \in 1..N |->
        IF ~Alive(s, off) /\ ~(off > 0 /\ GuardChain(s, off)) THEN slots[s]
        ELSE LET x == E(W, slots[s][c])
             IN  [i \in 1..Cells + 1 |->
                    IF i = c /\ Alive(s, off) THEN x
                    ELSE IF i = c - 1 /\ GuardChain(s, off) THEN Xor(slots[s][i], x)
                    ELSE slots[s][i]]]
  /\ off' = off - 8
  /\ UNCHANGED << arr, op, m, user, len8, n, kiv, pc >>
BlockEncDone ==
  /\ pc = "block" /\ op = "enc" /\ off < 0
  /\ pc' = "iv" /\ off' = 0
  /\ UNCHANGED << arr, op, m, user, slots, len8, n, kiv >>

\* the stream cipher of every lane is seeded with the first block of the slot
Seed ==
  /\ pc = "iv"
  /\ kiv' = [s \in 1..N |-> slots[s][1]]
  /\ pc' = "stream" /\ off' = 8
  /\ UNCHANGED << arr, op, m, user, slots, len8, n >>
StreamPass ==
  /\ pc = "stream" /\ off < m
  /\ LET c == off \div 8 + 1 IN
     slots' = [s \in 1..N |->
        IF s > n THEN slots[s]
        ELSE [slots[s] EXCEPT ![c] = Xor(@, K(W, kiv[IF Bug = "keystream of neighbour" /\ s > 1 THEN s - 1 ELSE s], c))]]
  /\ off' = off + 8
  /\ UNCHANGED << arr, op, m, user, len8, n, kiv, pc >>
StreamDone ==
  /\ pc = "stream" /\ off >= m
  /\ pc' = IF op = "enc" THEN "store" ELSE "block"
  /\ off' = 0
  /\ UNCHANGED << arr, op, m, user, slots, len8, n, kiv >>

\* dvbcsa_bs_block_decrypt_block at offset off: the block is decrypted; the
\* cell before it, decrypted already, is XORed with the scrambled block
BlockDecPass ==
  /\ pc = "block" /\ op = "dec" /\ off < m
  /\ LET c == off \div 8 + 1 IN
     slots' = [s \in 1..N |->
        IF ~Alive(s, off) THEN slots[s]
        ELSE [i \in 1..Cells + 1 |->
                IF i = c THEN D(W, slots[s][c])
                ELSE IF i = c - 1 THEN Xor(slots[s][i], slots[s][c])
                ELSE slots[s][i]]]
  /\ off' = off + 8
  /\ UNCHANGED << arr, op, m, user, len8, n, kiv, pc >>
BlockDecDone ==
  /\ pc = "block" /\ op = "dec" /\ off >= m
  /\ pc' = "store" /\ off' = 0
  /\ UNCHANGED << arr, op, m, user, slots, len8, n, kiv >>

\* copy back; a residue cell holds the leading bytes of its value
StoreOne(s, p) ==
  LET k == IF Bug = "limit stored" THEN m ELSE Clip(p.len)
  IN  [ p EXCEPT
        !.cells = [i \in 1..Len(p.cells) |-> IF 8 * i <= k THEN slots[s][i] ELSE p.cells[i]],
        !.res   = IF p.len % 8 # 0 /\ k >= p.len THEN slots[s][Len(p.cells) + 1] ELSE p.res,
        !.len   = IF k > p.len THEN k ELSE p.len ]         \* written past its end
Store ==
  /\ pc = "store"
  /\ user' = [i \in DOMAIN user |->
                IF \E s \in 1..n : Entry(s).data = i
                THEN LET s == CHOOSE t \in 1..n : Entry(t).data = i IN StoreOne(s, user[i])
                ELSE user[i]]
  /\ pc' = "done"
  /\ UNCHANGED << arr, op, m, slots, len8, n, kiv, off >>

Next == Load \/ BlockEncPass \/ BlockEncDone \/ Seed \/ StreamPass \/ StreamDone
        \/ BlockDecPass \/ BlockDecDone \/ Store
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

-----------------------------------------------------------------------------
Before(i) == i < FirstNull(arr, 1)
Expected(i) ==
  LET p == Plain(i, arr[i].len)
  IN  IF ~Before(i) THEN p
      ELSE IF op = "enc" THEN SymBatchScramble(W, p, m) ELSE SymBatchDescramble(W, p, m)

\* C04, C05, C06, C07, C08, C18: the outcome is the per-packet meaning
PerPacket == pc = "done" => \A i \in DOMAIN user : user[i] = Expected(i)
\* C08: nothing of the user's is written before the store, nor the array ever
UserUntouched == pc # "done" => \A i \in DOMAIN user : user[i] = Plain(i, arr[i].len)
ArrayConstant == [][arr' = arr /\ op' = op /\ m' = m]_vars
\* no slot beyond the number of packets is ever computed on
SlotFits == pc = "load" \/ \A s \in 1..n : Clip(Entry(s).len) <= 8 * Cells
SlotsBound == n <= N /\ \A s \in 1..N : n # -1 /\ s > n => len8[s] = -1
Terminates == <>(pc = "done")

\* C05 as a hyperproperty: the result for a packet is the one it has when it
\* is alone in the batch, whatever it shares the batch with
Alone(i) == IF op = "enc" THEN SymBatchScramble(W, Plain(i, arr[i].len), m)
            ELSE SymBatchDescramble(W, Plain(i, arr[i].len), m)
Independent == pc = "done" => \A i \in DOMAIN user : Before(i) => user[i] = Alone(i)

\* C07
ShortUnchanged == pc = "done" =>
  \A i \in DOMAIN user : arr[i].len < 8 => user[i] = Plain(i, arr[i].len)

\* The call refines the machine over cells of CsaSlots, which has no bounds and
\* for which CsaSlotsProof proves that every packet comes out right.
NCells(p) == Len(p.cells) + (IF p.len % 8 = 0 THEN 0 ELSE 1)
CellSeq(p) == [i \in 1..NCells(p) |-> Cell(p, i)]
Within(k) == IF k < m THEN k ELSE m
Packets   == 1..(FirstNull(arr, 1) - 1)
TheCall == [ op   |-> op,
             lim  |-> m \div 8,
             src  |-> [s \in Packets |-> CellSeq(Plain(s, arr[s].len))],
             n    |-> [s \in Packets |-> Within(arr[s].len) \div 8],
             m    |-> [s \in Packets |-> (Within(arr[s].len) + 7) \div 8],
             wid  |-> Cells + 1,
             junk |-> [s \in Packets |-> [i \in 1..Cells + 1 |-> {<<"g", s, i>>}]] ]
EW(v) == E(W, v)
DW(v) == D(W, v)
KW(v, i) == K(W, v, i)
Slots == INSTANCE CsaSlots WITH
           V <- {}, xor <- Xor, zero <- {}, E <- EW, D <- DW, K <- KW,
           call <- TheCall,
           mem <- [s \in Packets |-> CellSeq(user[s])],
           buf <- [s \in Packets |-> slots[s]],
           iv  <- [s \in Packets |-> kiv[s]],
           pc  <- pc,
           off <- off \div 8 + 1
Refines == Slots!SSpec

\* every initial state once, for replay (an action constraint)
EmitBatch == (pc = "load") =>
  PrintT(<<"BATCH", ToJson([op |-> op, m |-> m, n |-> FirstNull(arr, 1) - 1,
                            lens |-> Lengths(arr), after |-> Len(arr) - FirstNull(arr, 1)])>>)
=============================================================================
