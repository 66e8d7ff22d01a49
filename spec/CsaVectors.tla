---------------------------- MODULE CsaVectors -----------------------------
(***************************************************************************)
(* What the cipher specification CSA must itself satisfy, checked by TLC:  *)
(* the published test vectors, invertibility, and the structure of tables. *)
(* A state is one test case; TLC enumerates them all.                      *)
(***************************************************************************)
EXTENDS CSA, TLC
CONSTANTS Seeds, Lens, Bug

\* Control word, scrambled and clear payload (libdvbcsa's own tests use them too)
K0 == <<7,224,27,2,201,224,69,238>>
C0 == <<
   222,207,10,13,178,215,196,64,222,93,99,24,90,152,23,170,201,188,39,198,203,73,64,
   72,253,32,183,5,91,39,203,235,154,240,172,69,109,86,244,123,111,160,87,243,155,247,
   162,199,212,104,36,0,47,40,19,150,148,168,124,244,111,7,42,14,232,161,235,199,128,
   172,31,121,191,93,182,16,124,46,82,233,52,44,168,57,1,115,4,36,168,30,219,91,
   203,36,246,49,171,2,107,249,246,247,233,82,173,207,98,15,66,246,102,93,192,134,242,
   123,64,32,169,189,31,253,22,173,46,117,166,160,133,243,156,49,32,78,251,149,97,120,
   206,16,193,72,95,211,97,5,18,244,226,4,174,224,134,1,86,85,177,15,166,51,149,
   32,146,240,190,57,49,225,42,247,147,180,247,228,241,133,174,80,241,99,212,93,156,108 >>
P0 == <<
   175,190,251,239,190,251,239,190,251,239,190,251,230,181,173,124,249,243,229,177,108,124,249,
   243,230,181,173,107,95,62,124,249,108,91,31,62,124,249,173,107,90,215,207,159,62,91,
   22,199,207,159,62,107,90,214,181,243,231,207,150,197,177,243,231,207,154,214,181,173,124,
   249,243,229,177,108,124,249,243,230,181,173,107,95,62,124,249,108,91,31,62,124,249,173,
   107,90,215,207,159,62,91,22,199,207,159,62,107,90,214,181,243,231,207,150,197,177,243,
   231,207,154,214,181,173,124,249,243,229,177,108,124,249,243,230,181,173,107,95,62,124,249,
   108,91,31,62,124,249,173,107,90,215,207,159,62,91,22,199,207,159,62,107,90,214,181,
   243,231,207,150,197,177,243,231,207,154,208,0,0,0,0,255,252,68,0,102,177,17,17 >>
K1 == <<7,6,5,4,3,2,1,0>>
C1 == <<
   0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,
   23,24,25,26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41,42,43,44,45,
   46,47,48,49,50,51,52,53,54,55,56,57,58,59,60,61,62,63,64,65,66,67,68,
   69,70,71,72,73,74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,
   92,93,94,95,96,97,98,99,100,101,102,103,104,105,106,107,108,109,110,111,112,113,114,
   115,116,117,118,119,120,121,122,123,124,125,126,127,128,129,130,131,132,133,134,135,136,137,
   138,139,140,141,142,143,144,145,146,147,148,149,150,151,152,153,154,155,156,157,158,159,160,
   161,162,163,164,165,166,167,168,169,170,171,172,173,174,175,176,177,178,179,180,181,182,183 >>
P1 == <<
   45,10,71,32,24,17,156,138,209,42,101,107,137,228,53,43,194,181,144,97,209,126,2,
   225,63,70,112,207,119,145,47,34,147,193,108,254,73,173,124,194,175,134,27,163,41,190,
   170,100,240,34,185,94,152,170,96,239,223,214,68,119,230,191,187,148,178,10,99,14,92,
   242,172,180,73,204,158,79,148,76,48,18,232,85,194,68,164,82,203,97,129,201,182,166,
   107,239,175,166,113,29,123,88,47,250,209,12,7,157,31,53,135,190,2,159,32,198,96,
   143,28,48,15,150,208,113,214,81,16,223,91,246,68,47,128,40,183,236,35,89,75,148,
   11,154,116,161,31,247,158,118,180,223,187,60,140,136,151,34,86,115,22,5,172,249,79,
   119,157,56,160,107,5,210,230,21,1,177,92,201,98,169,155,26,106,26,207,230,168,186 >>

\* A little pseudo-random byte source.
Rnd(x) == (x * 8121 + 28411) % 134456
Bytes(seed, n) ==
  LET step(a, i) == [x |-> Rnd(a.x), s |-> Append(a.s, (Rnd(a.x) \div 256) % 256)]
  IN  FoldLeft(LAMBDA a, i : step(a, i), [x |-> seed, s |-> SubSeq(<<0>>, 1, 0)], [i \in 1..n |-> i]).s

Unit(n) == Eager([j \in 1..8 |-> IF (n - 1) \div 8 + 1 = j THEN Pow2[8 - ((n - 1) % 8)] ELSE 0])

VARIABLE case
Cases == { <<"vector", i, 0>> : i \in 0..1 }
     \cup { <<"tables", 0, 0>> }
     \cup { <<"keybit", n, 0>> : n \in 1..64 }
     \cup { <<"block", s, 0>> : s \in Seeds }
     \cup { <<"packet", s, n>> : s \in Seeds, n \in Lens }
     \cup { <<"local", s, n>> : s \in Seeds, n \in {m \in Lens : m >= 16} }
\* Grouped only so that several workers share the evaluation.
Init == case \in { <<"group", g, 0>> : g \in 0..15 }
Next == /\ case[1] = "group"
        /\ case' \in { c \in Cases : (5 * c[2] + c[3]) % 16 = case[2] }
Spec == Init /\ [][Next]_case

kind == case[1]
\* A design fault, for the negative control: the residue is not masked.
Scr(cw, d) == IF Bug = "residue clear" /\ Len(d) > 8
              THEN SubSeq(Scramble(cw, d), 1, 8 * (Len(d) \div 8)) \o Residue(d) ELSE Scramble(cw, d)

Vectors == kind = "vector" =>
  IF case[2] = 0 THEN Scr(K0, P0) = C0 /\ Descramble(K0, C0) = P0
                 ELSE Scr(K1, P1) = C1 /\ Descramble(K1, C1) = P1

Tables == kind = "tables" =>
  /\ {BlockSbox[i] : i \in 1..256} = 0..255
  /\ {PermTab[i] : i \in 1..256} = 0..255
  /\ {KeyPerm[i] : i \in 1..64} = 1..64
  /\ \A S \in {Sbox1, Sbox2, Sbox3, Sbox4, Sbox5, Sbox6, Sbox7} :
        /\ Len(S) = 32
        /\ \A v \in 0..3 : Len(SelectSeq(S, LAMBDA e : e = v)) = 8

\* C14: every key bit reaches exactly one bit of each round-key group, and both ciphers depend on it.
KeyBits == kind = "keybit" =>
  LET u  == Unit(case[2])
      z  == Eager([j \in 1..8 |-> 0])
      p  == PermuteKey(u)
      k  == Bytes(77, 8)
      k2 == XorSeq(k, u)
      b  == Bytes(5, 8)
  IN  /\ \E m \in 1..64 : p = Unit(m)
      /\ PermuteKey(z) = z
      /\ KeySchedule(k) # KeySchedule(k2)
      /\ BlockEncrypt(KeySchedule(k), b) # BlockEncrypt(KeySchedule(k2), b)
      /\ Keystream(k, b, 8) # Keystream(k2, b, 8)

BlockInverse == kind = "block" =>
  LET k == KeySchedule(Bytes(case[2], 8))
      b == Bytes(case[2] + 1, 8)
  IN  BlockDecrypt(k, BlockEncrypt(k, b)) = b /\ BlockEncrypt(k, BlockDecrypt(k, b)) = b

\* C03, C07
PacketInverse == kind = "packet" =>
  LET k == Bytes(case[2], 8)
      d == Bytes(case[2] + case[3], case[3])
      s == Scr(k, d)
  IN  /\ Len(s) = Len(d)
      /\ Descramble(k, s) = d
      /\ Scr(k, Descramble(k, d)) = d
      /\ Len(d) < 8 => s = d
      /\ \A m \in {0, 8, 16, 24, 184} :
            /\ BatchDescramble(k, BatchScramble(k, d, m), m) = d
            /\ SubSeq(BatchScramble(k, d, m), m + 1, Len(d)) = SubSeq(d, m + 1, Len(d))

\* Descrambling block by block, with one block of lookahead: this is how very
\* long payloads are decided (harness/huge.cpp); and a prefix of whole blocks
\* has the same result but for its last block.
Streamed == kind = "packet" =>
  LET k  == Bytes(case[2], 8)
      n  == case[3]
      s  == Bytes(case[2] + n, n)
      p  == Descramble(k, s)
      kk == KeySchedule(k)
      B  == n \div 8
      ks == Keystream(k, SubSeq(s, 1, 8), n - 8)
      Un(j) == IF j = 1 THEN BlockAt(s, 1) ELSE XorSeq(BlockAt(s, j), BlockAt(ks, j - 1))
  IN  n >= 8 =>
      /\ \A j \in 1..B :
           BlockAt(p, j) = IF j = B THEN BlockDecrypt(kk, Un(j)) ELSE XorSeq(BlockDecrypt(kk, Un(j)), Un(j + 1))
      /\ \A j \in 2..B : SubSeq(Descramble(k, SubSeq(s, 1, 8 * j)), 1, 8 * (j - 1)) = SubSeq(p, 1, 8 * (j - 1))

\* C19: one flipped bit after the first block
Local == kind = "local" =>
  LET k == Bytes(case[2], 8)
      n == case[3]
      s == Bytes(case[2] + n, n)
      i == 9 + ((case[2] * 7) % (n - 8))
      t == [s EXCEPT ![i] = s[i] ^^ Pow2[1 + (case[2] % 8)]]
      a == Descramble(k, s)
      b == Descramble(k, t)
      j == (i - 1) \div 8 + 1
  IN  \A q \in 1..n :
        LET jq == (q - 1) \div 8 + 1
        IN  IF j > n \div 8 THEN (a[q] ^^ b[q]) = (s[q] ^^ t[q])
            ELSE IF jq = j THEN TRUE
            ELSE IF jq = j - 1 THEN (a[q] ^^ b[q]) = (s[q + 8] ^^ t[q + 8])
            ELSE a[q] = b[q]
=============================================================================
