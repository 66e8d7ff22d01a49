------------------------------ MODULE CsaLink ------------------------------
(***************************************************************************)
(* CSA is an instance of what is proved without bounds: its block cipher   *)
(* rounds of CsaRounds, its packets of CsaCore.  TLC evaluates both sides  *)
(* on control words, payloads and lengths selected by the constants; the   *)
(* library is bound to CSA by replay.                                      *)
(***************************************************************************)
EXTENDS CSA, TLC

CONSTANTS Runs,     \* numbers; each selects a control word and contents
          Lens,     \* payload lengths
          Full,     \* TRUE: the laws of a group for all triples of bytes
          Bug

VARIABLES run, len, cw, kk, data      \* the sample, its control word, schedule, payload
lvars == << run, len, cw, kk, data >>

Rnd(n) == ((n % 46000) * 45989 + 12345) % 65521
RECURSIVE RndN(_, _)
RndN(n, k) == IF k = 0 THEN n ELSE RndN(Rnd(n), k - 1)
ByteOf(n, i) == (RndN(n * 31 + 7 * i, 4) \div 3) % 256
CwOf == Eager([i \in 1..8 |-> IF run = 0 THEN 0 ELSE IF run = 1 THEN 255 ELSE ByteOf(run, i)])
DataOf == Eager([i \in 1..len |-> IF run % 5 = 0 THEN 0 ELSE ByteOf(1000 + 3 * run + len, i)])

Init == run \in Runs /\ len \in Lens /\ cw = << >> /\ kk = << >> /\ data = << >>
Draw == /\ cw = << >>
        /\ cw' = CwOf /\ kk' = KeySchedule(cw') /\ data' = DataOf
        /\ UNCHANGED << run, len >>
Next == Draw
Drawn == cw # << >>

(****************************** rounds *************************************)
BX(a, b) == a ^^ b
SB(v) == BlockSbox[v + 1]
PB(v) == PermTab[v + 1]
\* (not a constant, lest TLC evaluates the laws in every run)
ByteSet == IF run < 0 THEN {} ELSE 0..255
R == INSTANCE CsaRounds WITH Bt <- ByteSet, bx <- BX, bzero <- 0, S <- SB, P <- PB

\* what the theorems assume of bytes
BytesAreGroup == R!BytesTyped /\ (Full /\ Drawn => R!ByteGroup)

\* the values between the rounds, as a function on 0..56
Trace(b, f(_, _)) ==
  LET t == FoldLeft(LAMBDA acc, i : Append(acc, f(acc[i], i)), << b >>, [i \in 1..56 |-> i])
  IN  [i \in 0..56 |-> t[i + 1]]
RoundsAreCsa ==
  Drawn =>
  LET b == Eager([i \in 1..8 |-> ByteOf(5000 + run, i)])
      e == Trace(b, LAMBDA w, i : BlockEncRound(w, kk[i]))
      d == Trace(b, LAMBDA w, i : BlockDecRound(w, kk[IF Bug = "schedule upwards" THEN i ELSE 57 - i]))
  IN  /\ R!EncRun(e, kk, 56, b, BlockEncrypt(kk, b))
      /\ R!DecRun(d, kk, 56, b, BlockDecrypt(kk, b))

(****************************** packets ************************************)
Cell8 == [1..8 -> ByteSet]
BE(b) == BlockEncrypt(kk, b)
BD(b) == BlockDecrypt(kk, b)
KS(s, i) == IF Bug = "keystream from the first block" THEN SubSeq(Keystream(cw, s, 8 * i), 8 * i - 7, 8 * i)
            ELSE SubSeq(Keystream(cw, s, 8 * (i - 1)), 8 * (i - 1) - 7, 8 * (i - 1))
C == INSTANCE CsaCore WITH V <- Cell8, xor <- XorSeq, zero <- << 0, 0, 0, 0, 0, 0, 0, 0 >>,
                           E <- BE, D <- BD, K <- KS

N == len \div 8
M == (len + 7) \div 8
\* the cells of a payload; a residue is padded with zeros
CellsOf(d) == LET z == d \o << 0, 0, 0, 0, 0, 0, 0 >> IN Eager([i \in 1..M |-> BlockAt(z, i)])
\* what the stream pass leaves in a padded residue beyond its bytes
Padding(s, i) == IF i <= N \/ i = 1 THEN BlockAt(<< 0, 0, 0, 0, 0, 0, 0, 0 >>, 1)
                 ELSE LET k == KS(s, i) IN Eager([j \in 1..8 |-> IF j <= len % 8 THEN 0 ELSE k[j]])
MaskedCells(d) == LET c == CellsOf(d) IN Eager([i \in 1..M |-> XorSeq(c[i], Padding(c[1], i))])

ScrambleIsCore ==
  Drawn /\ len >= 8 =>
    LET c == ChainEncrypt(kk, data)
        s == Scramble(cw, data)
        chained == CellsOf(c)
    IN  /\ C!Payload(CellsOf(data), N, M)
        /\ C!Chained(CellsOf(data), chained, N, M)
        /\ C!Masked(chained, MaskedCells(s), M)
DescrambleIsCore ==
  Drawn /\ len >= 8 =>
    LET c == StreamMask(cw, data)
        p == Descramble(cw, data)
        masked == MaskedCells(c)
        \* a residue keeps its padding, which is not the user's
        plain == Eager([i \in 1..M |->
                   IF i <= N THEN BlockAt(p, i)
                   ELSE Eager([j \in 1..8 |-> IF j <= len % 8 THEN p[8 * N + j] ELSE masked[i][j]])])
    IN  /\ C!Masked(CellsOf(data), masked, M)
        /\ C!Unchained(masked, plain, N, M)
=============================================================================
