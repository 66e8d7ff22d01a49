-------------------------------- MODULE CSA --------------------------------
(***************************************************************************)
(* The DVB Common Scrambling Algorithm, as published (Weinmann & Wirt,     *)
(* "Analysis of the DVB Common Scrambling Algorithm", and the table-driven *)
(* description circulated with the first open implementations), written    *)
(* from that description and NOT from the optimised tables of libdvbcsa.   *)
(*                                                                         *)
(* A payload is a sequence of bytes; a control word is 8 bytes.  Payload   *)
(* byte n of the C API is p[n+1] here.                                     *)
(*                                                                         *)
(* The module is deliberately confined to a first-order, fold-style subset *)
(* of TLA+ so that tools/tla2cpp.py can translate it to C++ for bulk       *)
(* conformance checking.  TLC evaluates this very text; the translation is *)
(* cross-checked against TLC on every run of every check.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, Bitwise

(***************************** tables **************************************)

\* Byte substitution of the block cipher: BlockSbox[v+1] for byte v.
BlockSbox == <<
   58,234,104,254, 51,233,136, 26,131,207,225,127,186,226, 56, 18,
  232, 39, 97,149, 12, 54,229,112,162,  6,130,124, 23,163, 38, 73,
  190,122,109, 71,193, 81,143,243,204, 91,103,189,205, 24,  8,201,
  255,105,239,  3, 78, 72, 74,132, 63,180, 16,  4,220,245, 92,198,
   22,171,172, 76,241,106, 47, 60, 59,212,213,148,208,196, 99, 98,
  113,161,249, 79, 46,170,197, 86,227, 57,147,206,101,100,228, 88,
  108, 25, 66,121,221,238,150,246,138,236, 30,133, 83, 69,222,187,
  126, 10,154, 19, 42,157,194, 94, 90, 31, 50, 53,156,168,115, 48,
   41, 61,231,146,135, 27, 43, 75,165, 87,151, 64, 21,230,188, 14,
  235,195, 52, 45,184, 68, 37,164, 28,199, 35,237,144,110, 80,  0,
  153,158, 77,217,218,141,111, 95, 62,215, 33,116,134,223,107,  5,
  142, 93, 55, 17,210, 40,117,214,167,119, 36,191,240,176,  2,183,
  248,252,129,  9,177,  1,118,145,125, 15,200,160,242,203,120, 96,
  209,247,224,181,152, 34,179, 32, 29,166,219,123, 89,159,174, 49,
  251,211,182,202, 67,114,  7,244,216, 65, 20, 85, 13, 84,139,185,
  173, 70, 11,175,128, 82, 44,250,140,137,102,253,178,169,155,192 >>

\* Bit permutation of the block cipher: bit b of the S-box output moves to
\* bit BlockPerm[b+1].
BlockPerm == << 1, 7, 5, 4, 2, 6, 0, 3 >>

\* Key permutation: bit number n (bit 1 = most significant bit of byte 1)
\* of the 64-bit key moves to bit number KeyPerm[n].
KeyPerm == <<
  18,36, 9, 7,42,49,29,21,28,54,62,50,19,33,59,64,
  24,20,37,39, 2,53,27, 1,34, 4,13,14,57,40,26,41,
  51,35,52,12,22,48,30,58,45,31, 8,25,23,47,61,17,
  60, 5,56,43,11, 6,10,44,32,63,46,15, 3,38,16,55 >>

\* S-boxes of the stream cipher: 5 bits in, 2 bits out.
Sbox1 == << 2,0,1,1,2,3,3,0,3,2,2,0,1,1,0,3,0,3,3,0,2,2,1,1,2,2,0,3,1,1,3,0 >>
Sbox2 == << 3,1,0,2,2,3,3,0,1,3,2,1,0,0,1,2,3,1,0,3,3,2,0,2,0,0,1,2,2,1,3,1 >>
Sbox3 == << 2,0,1,2,2,3,3,1,1,1,0,3,3,0,2,0,1,3,0,1,3,0,2,2,2,0,1,2,0,3,3,1 >>
Sbox4 == << 3,1,2,3,0,2,1,2,1,2,0,1,3,0,0,3,1,0,3,1,2,3,0,3,0,3,2,0,1,2,2,1 >>
Sbox5 == << 2,0,0,1,3,2,3,2,0,1,3,3,1,0,2,1,2,3,2,0,0,3,1,1,1,0,3,2,3,1,0,2 >>
Sbox6 == << 0,1,2,3,1,2,2,0,0,1,3,0,2,3,1,3,2,3,0,2,3,0,1,1,2,1,1,2,0,3,3,0 >>
Sbox7 == << 0,3,2,2,3,0,0,1,3,0,1,3,1,2,2,1,1,0,3,3,0,1,1,2,2,3,1,0,2,3,0,2 >>

(***************************** bits ****************************************)

Pow2 == << 1, 2, 4, 8, 16, 32, 64, 128, 256 >>
Bit(v, n)  == (v \div Pow2[n + 1]) % 2
\* Eager makes TLC build the tuple at once (it keeps functions unevaluated).
Eager(s) == SubSeq(s, 1, Len(s))
XorSeq(a, b) == Eager([i \in 1..Len(a) |-> a[i] ^^ b[i]])

(************************** key schedule ***********************************)

\* InvKeyPerm[m] = the source bit of destination bit m.
InvKeyPerm == Eager([m \in 1..64 |-> CHOOSE n \in 1..64 : KeyPerm[n] = m])

KeyBit(k, n) == Bit(k[((n - 1) \div 8) + 1], 7 - ((n - 1) % 8))

PermuteKey(k) ==
  LET out  == Eager([n \in 1..64 |-> KeyBit(k, InvKeyPerm[n])])
  IN  Eager([j \in 1..8 |->
         out[8*j-7]*128 + out[8*j-6]*64 + out[8*j-5]*32 + out[8*j-4]*16
       + out[8*j-3]*8   + out[8*j-2]*4  + out[8*j-1]*2  + out[8*j] ])

\* The 56 round-key bytes: seven 8-byte groups, the last being the control
\* word itself; group g is offset by the constant g (g = 0..6).
AddGroup(k, g) == Eager([j \in 1..8 |-> k[j] ^^ g])
KeySchedule(cw) ==
  LET k6 == cw
      k5 == PermuteKey(k6)
      k4 == PermuteKey(k5)
      k3 == PermuteKey(k4)
      k2 == PermuteKey(k3)
      k1 == PermuteKey(k2)
      k0 == PermuteKey(k1)
  IN  AddGroup(k0, 0) \o AddGroup(k1, 1) \o AddGroup(k2, 2) \o AddGroup(k3, 3)
      \o AddGroup(k4, 4) \o AddGroup(k5, 5) \o AddGroup(k6, 6)

(************************** block cipher ***********************************)

PermByte(v) == Bit(v,0)*Pow2[BlockPerm[1]+1] + Bit(v,1)*Pow2[BlockPerm[2]+1]
             + Bit(v,2)*Pow2[BlockPerm[3]+1] + Bit(v,3)*Pow2[BlockPerm[4]+1]
             + Bit(v,4)*Pow2[BlockPerm[5]+1] + Bit(v,5)*Pow2[BlockPerm[6]+1]
             + Bit(v,6)*Pow2[BlockPerm[7]+1] + Bit(v,7)*Pow2[BlockPerm[8]+1]

PermTab == Eager([v \in 1..256 |-> PermByte(v - 1)])

BlockEncRound(w, k) ==
  LET s == BlockSbox[(k ^^ w[8]) + 1]
  IN  << w[2], w[3] ^^ w[1], w[4] ^^ w[1], w[5] ^^ w[1],
         w[6], w[7] ^^ PermTab[s + 1], w[8], w[1] ^^ s >>

BlockDecRound(w, k) ==
  LET s == BlockSbox[(k ^^ w[7]) + 1]
      l == w[8] ^^ s
  IN  << l, w[1], w[2] ^^ l, w[3] ^^ l, w[4] ^^ l, w[5],
         w[6] ^^ PermTab[s + 1], w[7] >>

Rounds == [i \in 1..56 |-> i]
BlockEncrypt(kk, b) == FoldLeft(LAMBDA w, i : BlockEncRound(w, kk[i]), b, Rounds)
BlockDecrypt(kk, b) == FoldLeft(LAMBDA w, i : BlockDecRound(w, kk[57 - i]), b, Rounds)

(************************** stream cipher **********************************)

Hi(v) == v \div 16
Lo(v) == v % 16

\* Registers before initialisation: A1..A8 and B1..B8 take the control word
\* nibble by nibble, everything else is zero.
StreamReset(cw) ==
  [ A |-> << Hi(cw[1]), Lo(cw[1]), Hi(cw[2]), Lo(cw[2]),
             Hi(cw[3]), Lo(cw[3]), Hi(cw[4]), Lo(cw[4]), 0, 0 >>,
    B |-> << Hi(cw[5]), Lo(cw[5]), Hi(cw[6]), Lo(cw[6]),
             Hi(cw[7]), Lo(cw[7]), Hi(cw[8]), Lo(cw[8]), 0, 0 >>,
    X |-> 0, Y |-> 0, Z |-> 0, D |-> 0, E |-> 0, F |-> 0,
    p |-> 0, q |-> 0, r |-> 0 ]

Idx5(b4, b3, b2, b1, b0) == b4*16 + b3*8 + b2*4 + b1*2 + b0 + 1
S1(A) == Sbox1[Idx5(Bit(A[4],0), Bit(A[1],2), Bit(A[6],1), Bit(A[7],3), Bit(A[9],0))]
S2(A) == Sbox2[Idx5(Bit(A[2],1), Bit(A[3],2), Bit(A[6],3), Bit(A[7],0), Bit(A[9],1))]
S3(A) == Sbox3[Idx5(Bit(A[1],3), Bit(A[2],0), Bit(A[5],1), Bit(A[5],3), Bit(A[6],2))]
S4(A) == Sbox4[Idx5(Bit(A[3],3), Bit(A[1],1), Bit(A[2],3), Bit(A[4],2), Bit(A[8],0))]
S5(A) == Sbox5[Idx5(Bit(A[5],2), Bit(A[4],3), Bit(A[6],0), Bit(A[8],1), Bit(A[9],2))]
S6(A) == Sbox6[Idx5(Bit(A[3],1), Bit(A[4],1), Bit(A[5],0), Bit(A[7],2), Bit(A[9],3))]
S7(A) == Sbox7[Idx5(Bit(A[2],2), Bit(A[3],0), Bit(A[7],1), Bit(A[8],2), Bit(A[8],3))]

ExtraB(B) ==
    ((Bit(B[3],0) + Bit(B[6],1) + Bit(B[7],2) + Bit(B[9],3)) % 2) * 8
  + ((Bit(B[6],0) + Bit(B[8],1) + Bit(B[3],3) + Bit(B[4],2)) % 2) * 4
  + ((Bit(B[5],3) + Bit(B[8],2) + Bit(B[4],0) + Bit(B[5],1)) % 2) * 2
  + ((Bit(B[9],2) + Bit(B[6],3) + Bit(B[3],1) + Bit(B[8],0)) % 2)

RotL4(v) == ((v * 2) % 16) + (v \div 8)

\* One clock of the register machine.  `feedA' and `feedB' are the nibbles
\* additionally fed into A1 and B1 (zero when generating); `init' is 1 while
\* the initialisation vector is clocked in, when D also feeds A1.
StreamClock(st, init, feedA, feedB) ==
  LET A  == st.A
      B  == st.B
      s1 == S1(A)
      s2 == S2(A)
      s3 == S3(A)
      s4 == S4(A)
      s5 == S5(A)
      s6 == S6(A)
      s7 == S7(A)
      a1 == (A[10] ^^ st.X) ^^ (feedA ^^ (init * st.D))
      b0 == (B[7] ^^ B[10]) ^^ (st.Y ^^ feedB)
      b1 == IF st.p = 1 THEN RotL4(b0) ELSE b0
      sum == st.Z + st.E + st.r
  IN  [ A |-> << a1, A[1], A[2], A[3], A[4], A[5], A[6], A[7], A[8], A[9] >>,
        B |-> << b1, B[1], B[2], B[3], B[4], B[5], B[6], B[7], B[8], B[9] >>,
        X |-> Bit(s4,0)*8 + Bit(s3,0)*4 + Bit(s2,1)*2 + Bit(s1,1),
        Y |-> Bit(s6,0)*8 + Bit(s5,0)*4 + Bit(s4,1)*2 + Bit(s3,1),
        Z |-> Bit(s2,0)*8 + Bit(s1,0)*4 + Bit(s6,1)*2 + Bit(s5,1),
        D |-> (st.E ^^ st.Z) ^^ ExtraB(B),
        E |-> st.F,
        F |-> IF st.q = 1 THEN sum % 16 ELSE st.E,
        p |-> Bit(s7, 1),
        q |-> Bit(s7, 0),
        r |-> IF st.q = 1 THEN sum \div 16 ELSE st.r ]

\* Clocking one byte of the initialisation vector in: four clocks, feeding
\* the high and low nibbles alternately.
StreamInitByte(st, v) ==
  StreamClock(StreamClock(StreamClock(StreamClock(st,
    1, Hi(v), Lo(v)), 1, Lo(v), Hi(v)), 1, Hi(v), Lo(v)), 1, Lo(v), Hi(v))

StreamInit(cw, iv) == FoldLeft(LAMBDA st, v : StreamInitByte(st, v), StreamReset(cw), iv)

\* Two keystream bits come from D after each generation clock.
OutBits(st) == ((Bit(st.D,2) + Bit(st.D,3)) % 2) * 2 + ((Bit(st.D,0) + Bit(st.D,1)) % 2)

StreamGenByte(st) ==
  LET c1 == StreamClock(st, 0, 0, 0)
      c2 == StreamClock(c1, 0, 0, 0)
      c3 == StreamClock(c2, 0, 0, 0)
      c4 == StreamClock(c3, 0, 0, 0)
  IN  [ st |-> c4,
        byte |-> OutBits(c1)*64 + OutBits(c2)*16 + OutBits(c3)*4 + OutBits(c4) ]

\* The first n keystream bytes for a control word and an 8-byte IV.
Keystream(cw, iv, n) ==
  LET step(acc, i) ==
        LET g == StreamGenByte(acc.st)
        IN  [ st |-> g.st, out |-> Append(acc.out, g.byte) ]
      res == FoldLeft(LAMBDA acc, i : step(acc, i),
                      [ st |-> StreamInit(cw, iv), out |-> SubSeq(cw, 1, 0) ],
                      [i \in 1..n |-> i])
  IN  res.out

(************************** the hybrid packet cipher ***********************)

BlockAt(d, j) == << d[8*j-7], d[8*j-6], d[8*j-5], d[8*j-4],
                    d[8*j-3], d[8*j-2], d[8*j-1], d[8*j] >>

NoBlocks(d) == SubSeq(<< SubSeq(d, 1, 0) >>, 1, 0)
Residue(d)  == SubSeq(d, 8 * (Len(d) \div 8) + 1, Len(d))

\* Reverse CBC over the whole blocks, last block first: chain[j] is the
\* encryption of block n+1-j.
ChainEncrypt(kk, d) ==
  LET n == Len(d) \div 8
      step(acc, j) ==
        LET b == BlockAt(d, n + 1 - j)
            x == IF j = 1 THEN b ELSE XorSeq(b, acc[j - 1])
        IN  Append(acc, BlockEncrypt(kk, x))
      chain == FoldLeft(LAMBDA acc, j : step(acc, j), NoBlocks(d), [j \in 1..n |-> j])
  IN  Eager([i \in 1..(8*n) |-> chain[n - ((i - 1) \div 8)][((i - 1) % 8) + 1]]) \o Residue(d)

ChainDecrypt(kk, d) ==
  LET n == Len(d) \div 8
      step(acc, j) ==
        LET x == BlockDecrypt(kk, BlockAt(d, j))
        IN  acc \o (IF j = n THEN x ELSE XorSeq(x, BlockAt(d, j + 1)))
  IN  FoldLeft(LAMBDA acc, j : step(acc, j), SubSeq(d, 1, 0), [j \in 1..n |-> j])
      \o Residue(d)

\* XOR everything after the first block with the keystream it seeds.
StreamMask(cw, d) ==
  LET iv == SubSeq(d, 1, 8)
      ks == Keystream(cw, iv, Len(d) - 8)
  IN  iv \o XorSeq(SubSeq(d, 9, Len(d)), ks)

Scramble(cw, d) ==
  IF Len(d) < 8 THEN d ELSE StreamMask(cw, ChainEncrypt(KeySchedule(cw), d))

Descramble(cw, d) ==
  IF Len(d) < 8 THEN d ELSE ChainDecrypt(KeySchedule(cw), StreamMask(cw, d))

(************************** batches ****************************************)

\* A batch entry of which only the first `maxlen' bytes may be processed.
Clip(n, maxlen) == IF n < maxlen THEN n ELSE maxlen
BatchScramble(cw, d, maxlen) ==
  LET n == Clip(Len(d), maxlen)
  IN  Scramble(cw, SubSeq(d, 1, n)) \o SubSeq(d, n + 1, Len(d))
BatchDescramble(cw, d, maxlen) ==
  LET n == Clip(Len(d), maxlen)
  IN  Descramble(cw, SubSeq(d, 1, n)) \o SubSeq(d, n + 1, Len(d))
=============================================================================
