------------------------------ MODULE CsaRel -------------------------------
(***************************************************************************)
(* Relations between the inputs and outcomes of operations.  They do not   *)
(* say what an operation computes but how two computations must relate, so *)
(* they are decided on observations of the real library alone.             *)
(* p = plaintext side, s = scrambled side; sequences of bytes.             *)
(***************************************************************************)
EXTENDS CSA

Whole(x) == Len(x) \div 8                  \* number of whole blocks
BlockOf(i) == ((i - 1) \div 8) + 1         \* block of byte i
Differ(x, y, j) == \E i \in (8 * j - 7)..(8 * j) : x[i] # y[i]
LastDiff(x, y) == FoldLeft(LAMBDA a, j : IF Differ(x, y, j) THEN j ELSE a, 0, [j \in 1..Whole(x) |-> j])

\* C03: the second operation undoes the first
Undone(in1, out1, in2, out2) == in2 = out1 /\ out2 = in1

\* C19: two scrambled payloads equal in their first 8 bytes, descrambled
DamageLocal(s1, p1, s2, p2) ==
  LET n == Len(s1)
      B == Whole(s1)
  IN  \A i \in 1..n :
        LET j == BlockOf(i)
        IN  IF j > B THEN (p1[i] ^^ p2[i]) = (s1[i] ^^ s2[i])
            ELSE IF Differ(s1, s2, j) THEN TRUE
            ELSE IF j < B THEN (p1[i] ^^ p2[i]) = (s1[i + 8] ^^ s2[i + 8])
            ELSE p1[i] = p2[i]

\* C19: two plaintexts scrambled: after the last differing block the results
\* differ by the two keystreams only
ChangeLocal(cw, p1, s1, p2, s2) ==
  LET n  == Len(p1)
      B  == Whole(p1)
      k1 == Keystream(cw, SubSeq(s1, 1, 8), n - 8)
      k2 == Keystream(cw, SubSeq(s2, 1, 8), n - 8)
      k  == LastDiff(p1, p2)
  IN  \A i \in (8 * k + 1)..n :
        IF i <= 8 THEN s1[i] = s2[i]
        ELSE (s1[i] ^^ s2[i]) = ((k1[i - 8] ^^ k2[i - 8]) ^^ (IF i > 8 * B THEN (p1[i] ^^ p2[i]) ELSE 0))

\* C07: payloads that differ in the residue only
FlipLocal(in1, out1, in2, out2) ==
  \A i \in 1..Len(in1) : (out1[i] ^^ out2[i]) = (in1[i] ^^ in2[i])
\* C07: the second payload is the first without its residue
PrefixSame(in1, out1, in2, out2) ==
  in2 = SubSeq(in1, 1, 8 * Whole(in1)) /\ out2 = SubSeq(out1, 1, 8 * Whole(in1))
\* C07: the residue is XORed with the keystream at its position; scr is the
\* scrambled side
ResidueMasked(cw, scr, in, out) ==
  LET n == Len(in)
      k == Keystream(cw, SubSeq(scr, 1, 8), n - 8)
  IN  \A i \in (8 * Whole(in) + 1)..n : (in[i] ^^ out[i]) = k[i - 8]
\* C07: fewer than 8 bytes
ShortUntouched(in, out) == Len(in) < 8 => in = out
=============================================================================
