----------------------------- MODULE CsaSlice ------------------------------
(***************************************************************************)
(* The bit-sliced machines inside a batch call, as state machines, refined *)
(* lane by lane to the register machines of module CSA                     *)
(* (dvbcsa_bs_stream.c, dvbcsa_bs_stream_kernel.inc, dvbcsa_bs_block.c,    *)
(* dvbcsa_bs_transpose_*.c).                                               *)
(*                                                                         *)
(* A word is a number below 2^L: bit s-1 belongs to lane s, one lane per   *)
(* packet.  Four kinds of behaviours:                                      *)
(*   "stream"    all lanes clocked together: registers A and B live in a   *)
(*               window that slides down 32 rows and is then moved back up *)
(*   "enc","dec" the 56 rounds of the block cipher on a delay line of 64   *)
(*               registers of L bytes that is never shifted, only its base *)
(*   "matrix"    the transposition networks, on symbolic bits              *)
(* Refinement is an invariant: in every state, lane s of the sliced        *)
(* registers is the state of CSA's machine for lane s alone, which is run  *)
(* alongside.  Every final state is printed for replay into the library.   *)
(***************************************************************************)
EXTENDS CSA, FiniteSets, TLC, Json

CONSTANTS L,        \* lanes
          Blocks,   \* keystream blocks generated
          Runs,     \* numbers; each selects a control word and L blocks
          Kinds,    \* of behaviours explored
          Bug

Full == (2^L) - 1
WXor(a, b) == a ^^ b
WAnd(a, b) == a & b
WOr(a, b)  == a | b
WNot(a)    == Full - a
Lanes     == 1..L
InLane(w, s) == (w \div 2^(s - 1)) % 2
\* a word from one bit per lane
Word(f) == FoldLeft(LAMBDA acc, s : acc + f[s] * 2^(s - 1), 0, [s \in 1..L |-> s])

(************************ inputs *******************************************)
Rnd(n) == ((n % 46000) * 45989 + 12345) % 65521
RECURSIVE RndN(_, _)
RndN(n, k) == IF k = 0 THEN n ELSE RndN(Rnd(n), k - 1)
Bytes8(n) == Eager([i \in 1..8 |-> (RndN(n * 31 + 7 * i, 4) \div 3) % 256])
CwOf(run) == IF run = 0 THEN Eager([i \in 1..8 |-> 0]) ELSE IF run = 1 THEN Eager([i \in 1..8 |-> 255]) ELSE Bytes8(run)
\* lanes 1 and 2 differ in a single bit, the last two are equal
BlockOf(run, s) ==
  IF s = 2 THEN LET b == Bytes8(1000 + run * 50 + 1) IN [b EXCEPT ![1 + (run % 8)] = @ ^^ Pow2[1 + (run % 8)]]
  ELSE IF s = L THEN Bytes8(1000 + run * 50 + L - 1)
  ELSE IF s = 3 /\ run % 3 = 0 THEN Eager([i \in 1..8 |-> 255 * (run % 2)])
  ELSE Bytes8(1000 + run * 50 + s)

(************************ Boolean networks *********************************)
\* <<sa, sb>> from words a..e
Net1(a, b, c, d, e) ==
  LET t0 == WXor(a, WXor(b, WNot(WOr(WXor(WOr(a, b), c), WXor(c, d)))))
      t1 == WXor(WOr(a, b), WNot(WAnd(c, WOr(a, WXor(b, d)))))
      t2 == WXor(a, WXor(WAnd(b, d), WOr(WAnd(a, d), c)))
      t3 == WXor(WAnd(a, c), WXor(a, WOr(WAnd(a, b), d)))
  IN  << WXor(t0, WAnd(e, t1)), WXor(t2, WAnd(e, t3)) >>
Net2(a, b, c, d, e) ==
  LET t0 == WXor(a, WXor(WAnd(b, WOr(c, d)), WXor(c, WNot(d))))
      t1 == WOr(WAnd(a, WXor(b, d)), WAnd(WOr(a, b), c))
      t2 == WXor(WAnd(b, d), WOr(WAnd(a, d), WXor(b, WNot(c))))
      t3 == WOr(WAnd(a, d), WXor(a, WXor(b, WAnd(c, d))))
  IN  << WXor(t0, WAnd(e, t1)), WXor(t2, WAnd(e, t3)) >>
Net3(a, b, c, d, e) ==
  LET t0 == WXor(a, WXor(b, WXor(WAnd(c, WOr(a, d)), d)))
      t1 == WXor(WAnd(a, c), WOr(WXor(a, d), WXor(WOr(b, c), WNot(d))))
      t2 == WXor(a, WXor(WAnd(WXor(b, c), d), c))
  IN  << WXor(t0, WAnd(IF Bug = "network 3" THEN e ELSE WNot(e), t1)), WXor(t2, e) >>
Net4(a, b, c, d, e) ==
  LET t0 == WXor(a, WOr(WAnd(c, WXor(a, d)), WXor(b, WOr(c, WNot(d)))))
      t1 == WXor(WAnd(a, b), WXor(b, WXor(WAnd(WOr(a, c), d), c)))
      t2 == WXor(a, WOr(WAnd(b, c), WXor(WOr(WAnd(a, WXor(b, d)), c), d)))
      sa == WXor(t0, WAnd(e, WXor(t1, t0)))
  IN  << sa, WXor(WXor(sa, t2), e) >>
Net5(a, b, c, d, e) ==
  LET t0 == WOr(WXor(WAnd(a, WOr(b, c)), b), WXor(WOr(WXor(a, c), d), Full))
      t1 == WXor(b, WAnd(WXor(c, d), WXor(c, WOr(b, WXor(a, d)))))
      t2 == WXor(WAnd(a, c), WXor(b, WAnd(WOr(b, WXor(a, c)), d)))
      t3 == WOr(WAnd(WXor(a, b), WXor(c, Full)), d)
  IN  << WXor(t0, WAnd(e, t1)), WXor(t2, WAnd(e, t3)) >>
Net6(a, b, c, d, e) ==
  LET t0 == WXor(WAnd(WAnd(a, c), d), WXor(WAnd(b, WOr(a, d)), c))
      t1 == WNot(WAnd(WXor(a, c), d))
      t2 == WXor(WAnd(a, WOr(b, c)), WXor(b, WOr(WAnd(b, c), d)))
      t3 == WAnd(c, WXor(WAnd(a, WXor(b, d)), WOr(b, d)))
  IN  << WXor(t0, WAnd(e, t1)), WXor(t2, WAnd(e, t3)) >>
Net7(a, b, c, d, e) ==
  LET t0 == WXor(b, WOr(WAnd(c, d), WXor(a, WXor(c, d))))
      t1 == WAnd(WOr(b, d), WOr(WAnd(a, c), WXor(b, WXor(c, d))))
      t2 == WXor(WOr(a, b), WXor(WAnd(c, WOr(b, d)), d))
      t3 == WOr(d, WXor(WAnd(a, c), Full))
  IN  << WXor(t0, WAnd(e, t1)), WXor(t2, WAnd(e, t3)) >>
Net(n, a, b, c, d, e) ==
  CASE n = 1 -> Net1(a, b, c, d, e) [] n = 2 -> Net2(a, b, c, d, e) [] n = 3 -> Net3(a, b, c, d, e)
    [] n = 4 -> Net4(a, b, c, d, e) [] n = 5 -> Net5(a, b, c, d, e) [] n = 6 -> Net6(a, b, c, d, e)
    [] n = 7 -> Net7(a, b, c, d, e)
Table(n) == << Sbox1, Sbox2, Sbox3, Sbox4, Sbox5, Sbox6, Sbox7 >>[n]

\* Every network is its table: in every lane, whatever the other lanes hold.
\* The last input of the network is the most significant of the table's index,
\* then the first to fourth; the first output is the more significant one.
NetworksAreTables(x_) ==
  \A n \in 1..7, v \in 0..31, others \in {0, 31, 21, 10} :
    LET In(k) == Word([s \in Lanes |-> IF s = 1 + (v % L) THEN Bit(v, k) ELSE Bit(others, k)])
        o == Net(n, In(3), In(2), In(1), In(0), In(4))
        want(u) == Table(n)[u + 1]
    IN  \A s \in Lanes :
          LET u == IF s = 1 + (v % L) THEN v ELSE others
          IN  /\ InLane(o[1], s) = want(u) \div 2 /\ InLane(o[2], s) = want(u) % 2

(************************ stream ********************************************)
VARIABLES kind, run, pc, t,   \* t: clocks or rounds done
          wA, wB, base,       \* windows of 42 rows of 4 words; row base is A[0]
          g,                  \* registers X Y Z D E F (4 words each), p q r
          sb,                 \* 64 words: IV bits, then keystream bits
          line,               \* block cipher: 64 registers of L bytes
          ref,                \* per lane, CSA's own machine
          out                 \* per lane, keystream bytes produced
vars == << kind, run, pc, t, wA, wB, base, g, sb, line, ref, out >>

Zero4 == << 0, 0, 0, 0 >>
Garbage(i) == Eager([b \in 1..4 |-> (i * 37 + b * 11) % (Full + 1)])   \* what the stack held

\* row i, bit b of the key words: bit b of nibble i+1 of the control word half
KeyNibble(cw, half, i) == LET byte == cw[4 * half + i \div 2 + 1] IN IF i % 2 = 0 THEN Hi(byte) ELSE Lo(byte)
KeyRow(cw, half, i) == Eager([b \in 1..4 |-> Full * Bit(KeyNibble(cw, half, i), b - 1)])
Window(cw, half) == Eager([i \in 1..42 |-> IF i <= 32 THEN Garbage(i) ELSE IF i <= 40 THEN KeyRow(cw, half, i - 33) ELSE Zero4])

StreamStart(k) ==
  /\ wA = Window(CwOf(k), 0) /\ wB = Window(CwOf(k), 1) /\ base = 33
  /\ g = [X |-> Zero4, Y |-> Zero4, Z |-> Zero4, D |-> Zero4, E |-> Zero4, F |-> Zero4, p |-> 0, q |-> 0, r |-> 0]
  \* transposed: word 8i+j holds bit j of byte i+1 of every lane's block
  /\ sb = Eager([w \in 1..64 |-> Word([s \in Lanes |-> Bit(BlockOf(k, s)[(w - 1) \div 8 + 1], (w - 1) % 8)])])
  /\ ref = Eager([s \in Lanes |-> StreamReset(CwOf(k))])
  /\ out = [s \in Lanes |-> << >>]
  /\ line = << >>

XorW(a, b) == Eager([i \in 1..4 |-> (a[i] ^^ b[i])])

\* one clock; init TRUE while the IV goes in, i the byte, j the clock within it
Sliced(A, B, h, init, hi, lo, j) ==
  LET a(k, b) == A[k + 1][b + 1]
      bb(k, b) == B[k + 1][b + 1]
      extra == << WXor(WXor(bb(8, 2), bb(5, 3)), WXor(bb(2, 1), bb(7, 0))),
                  WXor(WXor(bb(4, 3), bb(7, 2)), WXor(bb(3, 0), bb(4, 1))),
                  WXor(WXor(bb(5, 0), bb(7, 1)), WXor(bb(2, 3), bb(3, 2))),
                  WXor(WXor(bb(2, 0), bb(5, 1)), WXor(bb(6, 2), bb(8, 3))) >>
      odd == (j % 2 = 1) # (Bug = "nibbles swapped")
      a1 == LET x == XorW(A[10], h.X) IN IF init THEN XorW(XorW(x, h.D), IF odd THEN lo ELSE hi) ELSE x
      b0 == LET x == XorW(XorW(B[7], B[10]), h.Y) IN IF init THEN XorW(x, IF odd THEN hi ELSE lo) ELSE x
      rot(k, l) == WXor(b0[k], WAnd(WXor(b0[k], b0[l]), h.p))
      b1 == << rot(1, 4), rot(2, 1), rot(3, 2), rot(4, 3) >>
      \* full adder Z + E + r, bit by bit
      c1 == WOr(WAnd(h.Z[1], h.E[1]), WAnd(WXor(h.Z[1], h.E[1]), h.r))
      c2 == WOr(WAnd(h.Z[2], h.E[2]), WAnd(WXor(h.Z[2], h.E[2]), c1))
      c3 == WOr(WAnd(h.Z[3], h.E[3]), WAnd(WXor(h.Z[3], h.E[3]), c2))
      c4 == WOr(WAnd(h.Z[4], h.E[4]), WAnd(WXor(h.Z[4], h.E[4]), c3))
      cs == << h.r, c1, c2, c3 >>
      q == IF Bug = "lane leak" THEN (h.q * 2) % (Full + 1) ELSE h.q
      f == Eager([i \in 1..4 |-> WXor(h.E[i], WAnd(q, WXor(h.Z[i], cs[i])))])
      r == IF Bug = "carry not kept" THEN c4 ELSE WXor(h.r, WAnd(q, WXor(c4, h.r)))
      s1 == Net1(a(0,2), a(5,1), a(6,3), a(8,0), a(3,0))
      s2 == Net2(a(2,2), a(5,3), a(6,0), a(8,1), a(1,1))
      s3 == Net3(a(1,0), a(4,1), a(4,3), a(5,2), a(0,3))
      s4 == Net4(a(0,1), a(1,3), a(3,2), a(7,0), a(2,3))
      s5 == Net5(a(3,3), a(5,0), a(7,1), a(8,2), a(4,2))
      s6 == Net6(a(3,1), a(4,0), a(6,2), a(8,3), a(2,1))
      s7 == Net7(a(2,0), a(6,1), a(7,2), a(7,3), a(1,2))
  IN  [ a |-> a1, b |-> b1,
        h |-> [ X |-> << s1[1], s2[1], s3[2], s4[2] >>,
                Y |-> << s3[1], s4[1], s5[2], s6[2] >>,
                Z |-> << s5[1], s6[1], s1[2], s2[2] >>,
                D |-> XorW(XorW(h.E, h.Z), extra),
                E |-> h.F, F |-> f, p |-> s7[1], q |-> s7[2], r |-> r ] ]

Init8(b) == b < 8
Clock ==
  /\ pc = "clock" /\ base > 1
  /\ LET i == (t \div 4) % 8
         j == t % 4
         init == t < 32
         lo == SubSeq(sb, 8 * i + 1, 8 * i + 4)
         hi == SubSeq(sb, 8 * i + 5, 8 * i + 8)
         n == Sliced(SubSeq(wA, base, base + 9), SubSeq(wB, base, base + 9), g, init, hi, lo, j)
     IN  /\ wA' = [wA EXCEPT ![base - 1] = n.a]
         /\ wB' = [wB EXCEPT ![base - 1] = n.b]
         /\ g' = n.h
         /\ sb' = IF init THEN sb
                  ELSE [sb EXCEPT ![8 * i + 8 - 2 * j] = WXor(n.h.D[3], n.h.D[4]),
                                  ![8 * i + 7 - 2 * j] = WXor(n.h.D[1], n.h.D[2])]
         /\ ref' = Eager([s \in Lanes |->
                      LET v == BlockOf(run, s)[i + 1]
                      IN  IF ~init THEN StreamClock(ref[s], 0, 0, 0)
                          ELSE IF j % 2 = 0 THEN StreamClock(ref[s], 1, Hi(v), Lo(v))
                          ELSE StreamClock(ref[s], 1, Lo(v), Hi(v))])
  /\ base' = base - 1 /\ t' = t + 1
  /\ UNCHANGED << kind, run, pc, line, out >>

\* after 32 clocks the window is moved back; after 32 generating clocks the
\* keystream bits are transposed into 8 bytes per lane
Move ==
  /\ pc = "clock" /\ base = 1
  /\ wA' = IF Bug = "window not moved" THEN wA ELSE Eager([i \in 1..42 |-> IF i > 32 THEN wA[i - 32] ELSE wA[i]])
  /\ wB' = Eager([i \in 1..42 |-> IF i > 32 THEN wB[i - 32] ELSE wB[i]])
  /\ base' = 33
  /\ out' = IF t <= 32 THEN out
            ELSE [s \in Lanes |-> out[s] \o Eager([i \in 1..8 |->
                    FoldLeft(LAMBDA acc, k : acc + InLane(sb[8 * (i - 1) + k + 1], s) * Pow2[k + 1], 0, << 0, 1, 2, 3, 4, 5, 6, 7 >>)])]
  /\ pc' = IF t = 32 * (Blocks + 1) THEN "done" ELSE "clock"
  /\ UNCHANGED << kind, run, t, g, sb, line, ref >>

Nibble(ws, s) == InLane(ws[1], s) + 2 * InLane(ws[2], s) + 4 * InLane(ws[3], s) + 8 * InLane(ws[4], s)
LaneState(s) ==
  [ A |-> Eager([i \in 1..10 |-> Nibble(wA[base + i - 1], s)]), B |-> Eager([i \in 1..10 |-> Nibble(wB[base + i - 1], s)]),
    X |-> Nibble(g.X, s), Y |-> Nibble(g.Y, s), Z |-> Nibble(g.Z, s),
    D |-> Nibble(g.D, s), E |-> Nibble(g.E, s), F |-> Nibble(g.F, s),
    p |-> InLane(g.p, s), q |-> InLane(g.q, s), r |-> InLane(g.r, s) ]

\* C04: lane by lane the machine of module CSA
StreamRefines == kind = "stream" => \A s \in Lanes : LaneState(s) = ref[s]
\* and what comes out is CSA's keystream
KeystreamRefines == kind = "stream" /\ pc = "done" => \A s \in Lanes : out[s] = Keystream(CwOf(run), BlockOf(run, s), 8 * Blocks)
WindowInside == kind = "stream" => base \in 1..33 /\ Len(wA) = 42 /\ Len(wB) = 42

\* One generating clock, for every Z, E, p, q and r (and as many values of Y): the
\* adder, its gate and the rotation are CSA's, in every lane whatever the others hold.
StepIsClock(x_) ==
  \A z, e \in 0..15, f \in 0..7 :
    LET st(s) == IF s = 1 + (z % L)
                 THEN [ A |-> Eager([i \in 1..10 |-> (z * i + e) % 16]), B |-> Eager([i \in 1..10 |-> (e * i + 3 * z) % 16]),
                        X |-> (z + f) % 16, Y |-> (7 * z + e) % 16, Z |-> z, D |-> (e + 3) % 16, E |-> e, F |-> (z + e) % 16,
                        p |-> f % 2, q |-> (f \div 2) % 2, r |-> f \div 4 ]
                 ELSE [ A |-> Eager([i \in 1..10 |-> (s * i) % 16]), B |-> Eager([i \in 1..10 |-> (s + i) % 16]),
                        X |-> s, Y |-> 15 - s, Z |-> 15 - s, D |-> s, E |-> (5 * s) % 16, F |-> 3,
                        p |-> s % 2, q |-> 1 - ((f \div 2) % 2), r |-> 1 - f \div 4 ]
        four(F(_)) == Eager([b \in 1..4 |-> Word([s \in Lanes |-> Bit(F(s), b - 1)])])
        rows(F(_, _)) == Eager([i \in 1..10 |-> LET G(s) == F(s, i) IN four(G)])
        FA(s, i) == st(s).A[i]   FB(s, i) == st(s).B[i]
        FX(s) == st(s).X  FY(s) == st(s).Y  FZ(s) == st(s).Z  FD(s) == st(s).D  FE(s) == st(s).E  FF(s) == st(s).F
        one(F(_)) == Word([s \in Lanes |-> F(s)])
        FP(s) == st(s).p  FQ(s) == st(s).q  FR(s) == st(s).r
        n == Sliced(rows(FA), rows(FB), [X |-> four(FX), Y |-> four(FY), Z |-> four(FZ), D |-> four(FD), E |-> four(FE), F |-> four(FF),
                                         p |-> one(FP), q |-> one(FQ), r |-> one(FR)], FALSE, Zero4, Zero4, 0)
    IN  \A s \in Lanes :
          LET c == StreamClock(st(s), 0, 0, 0)
          IN  /\ Nibble(n.a, s) = c.A[1] /\ Nibble(n.b, s) = c.B[1]
              /\ Nibble(n.h.X, s) = c.X /\ Nibble(n.h.Y, s) = c.Y /\ Nibble(n.h.Z, s) = c.Z
              /\ Nibble(n.h.D, s) = c.D /\ Nibble(n.h.E, s) = c.E /\ Nibble(n.h.F, s) = c.F
              /\ InLane(n.h.p, s) = c.p /\ InLane(n.h.q, s) = c.q /\ InLane(n.h.r, s) = c.r

(************************ block cipher **************************************)
\* line[i] is a tuple of L bytes; the eight registers are line[base..base+7]
BlockStart(k, dec) ==
  /\ line = Eager([i \in 1..64 |->
       Eager([s \in Lanes |-> LET n == IF dec THEN i - 56 ELSE i
                              IN  IF n \in 1..8 THEN BlockOf(k, s)[n] ELSE (i * 5 + s) % 256])])
  /\ base = IF dec THEN 57 ELSE 1
  /\ ref = Eager([s \in Lanes |-> BlockOf(k, s)])
  /\ wA = << >> /\ wB = << >> /\ g = << >> /\ sb = << >> /\ out = << >>

\* the bit permutation, by masks and shifts, on a word of three bytes
Shl(v, n) == (v * 2^n) % 16777216
Shr(v, n) == v \div 2^n
Rep(b) == b + 256 * b + 65536 * b
PermuteLogic(v) ==
  WOr(WOr(WOr(Shl(WAnd(v, Rep(41)), 1), Shl(WAnd(v, Rep(2)), 6)), WOr(Shl(WAnd(v, Rep(IF Bug = "permutation mask" THEN 6 ELSE 4)), 3), Shr(WAnd(v, Rep(16)), 2))),
     WOr(Shr(WAnd(v, Rep(64)), 6), Shr(WAnd(v, Rep(128)), 4)))
PermutationByLogic(x_) ==
  \A v \in 0..255, x \in {0, 255, 170} :
    LET w == PermuteLogic(x + 256 * v + 65536 * (255 - x))
    IN  w = PermByte(x) + 256 * PermByte(v) + 65536 * PermByte(255 - x)

RoundEnc ==
  /\ kind = "enc" /\ pc = "clock" /\ t < 56
  /\ LET k == KeySchedule(CwOf(run))[t + 1]
         b == base + 1                       \* virtual shift
         S(s) == BlockSbox[(k ^^ line[base + 7][s]) + 1]
         w(s) == line[b - 1][s]
         R(i, s) == line[b + i][s]
     IN  /\ line' = Eager([i \in 1..64 |-> Eager([s \in Lanes |->
                      CASE i = b + 7 -> S(s) ^^ w(s)
                        [] i \in {b + 1, b + 2, b + 3} -> line[i][s] ^^ w(s)
                        [] i = b + 5 -> line[i][s] ^^ PermTab[S(s) + 1]
                        [] OTHER -> line[i][s]])])
         /\ base' = b
         /\ ref' = Eager([s \in Lanes |-> BlockEncRound(ref[s], k)])
  /\ t' = t + 1 /\ pc' = IF t = 55 THEN "done" ELSE "clock"
  /\ UNCHANGED << kind, run, wA, wB, g, sb, out >>

RoundDec ==
  /\ kind = "dec" /\ pc = "clock" /\ t < 56
  /\ LET k == KeySchedule(CwOf(run))[56 - t]
         b == base - 1
         S(s) == BlockSbox[(k ^^ line[base + 6][s]) + 1]
         w(s) == line[b + 8][s] ^^ S(s)
     IN  /\ line' = Eager([i \in 1..64 |-> Eager([s \in Lanes |->
                      CASE i = b -> w(s)
                        [] i \in {b + 2, b + 3, b + 4} -> line[i][s] ^^ w(s)
                        [] i = b + (IF Bug = "tap" THEN 5 ELSE 6) -> line[i][s] ^^ PermTab[S(s) + 1]
                        [] OTHER -> line[i][s]])])
         /\ base' = b
         /\ ref' = Eager([s \in Lanes |-> BlockDecRound(ref[s], k)])
  /\ t' = t + 1 /\ pc' = IF t = 55 THEN "done" ELSE "clock"
  /\ UNCHANGED << kind, run, wA, wB, g, sb, out >>

LaneBlock(s) == Eager([i \in 1..8 |-> line[base + i - 1][s]])
BlockRefines == kind \in {"enc", "dec"} => /\ base \in 1..57
                                           /\ \A s \in Lanes : LaneBlock(s) = ref[s]
BlockResult == kind \in {"enc", "dec"} /\ pc = "done" =>
  \A s \in Lanes : LaneBlock(s) = (IF kind = "enc" THEN BlockEncrypt(KeySchedule(CwOf(run)), BlockOf(run, s))
                                   ELSE BlockDecrypt(KeySchedule(CwOf(run)), BlockOf(run, s)))

(************************ transposition *************************************)
\* A matrix is a sequence of rows of W places; a place holds a token: which
\* bit of which packet is there.  BS_SWAPn(top, bot) exchanges place k of bot with place
\* k+n of top, for the k the mask selects; on big-endian machines top and bot are exchanged
\* for n >= 8.
SwapRows(M, top, bot, n, W) ==
  LET Q(row, k) == M[row + 1][k + 1]
      newTop == Eager([k \in 1..W |-> IF (k - 1) % (2 * n) >= n THEN Q(bot, k - 1 - n) ELSE Q(top, k - 1)])
      newBot == Eager([k \in 1..W |-> IF (k - 1) % (2 * n) < n THEN Q(top, k - 1 + n) ELSE Q(bot, k - 1)])
  IN  [M EXCEPT ![top + 1] = newTop, ![bot + 1] = newBot]
Swap(M, x, y, n, W, big) == IF big /\ n >= 8 THEN SwapRows(M, y, x, n, W) ELSE SwapRows(M, x, y, n, W)

\* the order of the swaps: by n, the pairs of rows n apart (64 rows); stages as
\* in the three networks of the code
Pairs(n, rows) == SelectSeq([i \in 1..rows |-> i - 1], LAMBDA j : (j \div n) % 2 = 0)
Stage(M, n, W, big) == FoldLeft(LAMBDA m, j : Swap(m, j, j + n, n, W, big), M, Pairs(n, 64))
Network(M, ns, W, big) == FoldLeft(LAMBDA m, n : Stage(m, n, W, big), M, ns)
Nets == [ big   |-> << 1, 2, 4, 8, 16, 32 >>,      \* dvbcsa_bs_matrix_transpose_64x
          few   |-> << 16, 32, 4, 8, 1, 2 >>,      \* the same, short of registers
          small |-> << 16, 4, 8, 1, 2 >> ]         \* dvbcsa_bs_matrix_transpose_64x32
\* place k of a word loaded from memory: byte k div 8 of the memory on little-endian
\* machines; the last byte first on big-endian ones
MemBit(k, W, big) == IF big THEN 8 * (W \div 8 - 1 - k \div 8) + (k % 8) ELSE k

\* stream: one packet per 64-place row, or (32-place words) its two halves in rows i and i+32
Loaded(W, big) ==
  Eager([row \in 1..64 |-> Eager([k \in 1..W |->
     IF W = 64 THEN << row - 1, MemBit(k - 1, 64, big) >>
     ELSE << (row - 1) % 32, 32 * ((row - 1) \div 32) + MemBit(k - 1, 32, big) >>])])
\* afterwards row x holds bit x of every packet, and a packet's place is the same in every row
Sliceable(M, W) ==
  \A x \in 1..64, k \in 1..W : M[x][k] = << M[1][k][1], x - 1 >>
AllPackets(M, W) == Cardinality({M[1][k][1] : k \in 1..W}) = W
Broken(ns) == IF Bug = "network order" THEN Reverse(Tail(ns)) ELSE ns
TransposesStream(x_) ==
  \A big \in BOOLEAN :
    /\ \A n \in {"big", "few"} : LET L1 == Loaded(64, big)
                                     M == Network(L1, Broken(Nets[n]), 64, big)
                                 IN  Sliceable(M, 64) /\ AllPackets(M, 64) /\ Network(M, Nets[n], 64, big) = L1
    /\ LET L1 == Loaded(32, big)
           M == Network(L1, Nets.small, 32, big)
       IN  Sliceable(M, 32) /\ AllPackets(M, 32) /\ Network(M, Nets.small, 32, big) = L1

\* block cipher: 32-place rows; the two halves of packet i in rows i and i + 32; bytes are
\* moved.  (Wider words hold several of these matrices side by side.)
BlockNet(M, big) == Network(M, << 8, 16 >>, 32, big)
TransposesBlock(x_) ==
  \A big \in BOOLEAN :
    LET L1 == Loaded(32, big)
        M == BlockNet(L1, big)
        place(x, k) == << M[x][k][1], M[x][k][2] \div 8, M[x][k][2] % 8 >>
    IN  /\ \A x \in 1..64, k \in 1..32 :
             \* rows 8b..8b+7 hold byte b, whole, of four packets each - the same four in row 8c+j for every c
             /\ place(x, k)[2] = (x - 1) \div 8
             /\ place(x, k)[3] = (k - 1) % 8
             /\ place(x, k)[1] = place(((x - 1) % 8) + 1, k)[1]
        /\ BlockNet(M, big) = L1

(************************ behaviours ****************************************)
Init ==
  /\ run \in Runs /\ kind \in Kinds /\ t = 0
  /\ kind = "matrix" => run = CHOOSE x \in Runs : TRUE
  /\ pc = IF kind = "matrix" THEN "done" ELSE "clock"
  /\ CASE kind = "stream" -> StreamStart(run)
       [] kind = "enc" -> BlockStart(run, FALSE)
       [] kind = "dec" -> BlockStart(run, TRUE)
       [] OTHER -> wA = << >> /\ wB = << >> /\ base = 1 /\ g = << >> /\ sb = << >> /\ out = << >> /\ line = << >> /\ ref = << >>
Next == (kind = "stream" /\ (Clock \/ Move)) \/ RoundEnc \/ RoundDec
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Terminates == <>(pc = "done")

Networks == kind = "matrix" => NetworksAreTables(run) /\ PermutationByLogic(run) /\ StepIsClock(run)
Matrices == kind = "matrix" => TransposesStream(run) /\ TransposesBlock(run)

\* final states, for replay: what the library must give for these packets
Emit == (pc' = "done" /\ pc # "done") =>
  PrintT(<<"SLICED", ToJson(
     [op |-> IF kind = "enc" THEN "enc" ELSE "dec", cw |-> CwOf(run),
      in |-> IF kind = "stream" THEN [s \in Lanes |-> BlockOf(run, s) \o Eager([i \in 1..(8 * Blocks) |-> 0])]
             ELSE [s \in Lanes |-> BlockOf(run, s)],
      out |-> IF kind = "stream" THEN [s \in Lanes |-> ChainDecrypt(KeySchedule(CwOf(run)), BlockOf(run, s) \o out'[s])]
              ELSE [s \in Lanes |-> Eager([i \in 1..8 |-> line'[base' + i - 1][s]])]])>>)
=============================================================================
