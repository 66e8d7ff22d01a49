------------------------------ MODULE CsaSym -------------------------------
(***************************************************************************)
(* The packet cipher over an uninterpreted block cipher and keystream      *)
(* generator ("Dolev-Yao" style), for model checking.                      *)
(*                                                                         *)
(* A value is a finite set of atoms and stands for their XOR.  Atoms are   *)
(*   <<"p", b, i>>      plaintext cell i of payload b                      *)
(*   <<"d", i>>         damage done to cell i by a transmission error      *)
(*   <<"E", w, v>>      block encryption of v under word w                 *)
(*   <<"D", w, v>>      block decryption of v                              *)
(*   <<"K", w, v, i>>   keystream cell i under word w and first block v    *)
(*                                                                         *)
(* A payload is [cells |-> one value per 8-byte block, res |-> value of    *)
(* the trailing residue, len |-> length in bytes].  The residue is shorter *)
(* than a block; a residue value stands for the leading bytes of its atoms.*)
(*                                                                         *)
(* What holds here holds for every choice of block cipher and keystream    *)
(* generator; what is particular to DVB-CSA is in module CSA.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Xor(u, v) == (u \ v) \cup (v \ u)

IsAtom(v, t, w) == Cardinality(v) = 1 /\ \A a \in v : a[1] = t /\ a[2] = w
TheAtom(v) == CHOOSE a \in v : TRUE

E(w, v) == IF IsAtom(v, "D", w) THEN TheAtom(v)[3] ELSE { <<"E", w, v>> }
D(w, v) == IF IsAtom(v, "E", w) THEN TheAtom(v)[3] ELSE { <<"D", w, v>> }
K(w, v, i) == { <<"K", w, v, i>> }

Blocks(n) == n \div 8
Plain(b, n) == [ cells |-> [i \in 1..Blocks(n) |-> {<<"p", b, i>>}],
                 res   |-> IF n % 8 = 0 THEN {} ELSE {<<"p", b, Blocks(n) + 1>>},
                 len   |-> n ]

\* Reverse cipher block chaining, as in CSA!ChainEncrypt.
RECURSIVE SymChain(_, _)
SymChain(w, c) ==
  IF c = <<>> THEN <<>>
  ELSE LET rest == SymChain(w, Tail(c))
       IN  << E(w, IF rest = <<>> THEN c[1] ELSE Xor(c[1], rest[1])) >> \o rest
SymUnchain(w, c) ==
  [ i \in 1..Len(c) |->
      IF i = Len(c) THEN D(w, c[i]) ELSE Xor(D(w, c[i]), c[i + 1]) ]

SymMask(w, p) ==
  [ p EXCEPT !.cells = [ i \in 1..Len(p.cells) |->
                           IF i = 1 THEN p.cells[1]
                           ELSE Xor(p.cells[i], K(w, p.cells[1], i)) ],
             !.res   = IF p.len % 8 = 0 THEN p.res
                       ELSE Xor(p.res, K(w, p.cells[1], Blocks(p.len) + 1)) ]

SymScramble(w, p) ==
  IF p.len < 8 THEN p ELSE SymMask(w, [p EXCEPT !.cells = SymChain(w, p.cells)])
SymDescramble(w, p) ==
  IF p.len < 8 THEN p
  ELSE LET q == SymMask(w, p) IN [q EXCEPT !.cells = SymUnchain(w, q.cells)]

\* The first n bytes of p as a payload of its own, and putting them back.
Prefix8(p, n) ==
  IF n >= p.len THEN p
  ELSE [ cells |-> SubSeq(p.cells, 1, Blocks(n)), res |-> {}, len |-> n ]
PutBack(p, q) ==
  IF q.len >= p.len THEN q
  ELSE [ p EXCEPT !.cells = q.cells \o SubSeq(p.cells, Len(q.cells) + 1, Len(p.cells)) ]

\* Batch operations process at most m bytes (m a multiple of 8).
SymBatchScramble(w, p, m)   == PutBack(p, SymScramble(w, Prefix8(p, m)))
SymBatchDescramble(w, p, m) == PutBack(p, SymDescramble(w, Prefix8(p, m)))
=============================================================================
