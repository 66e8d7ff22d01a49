--------------------------- MODULE CsaRoundsProof ---------------------------
EXTENDS CsaRounds, NaturalsInduction, TLAPS

ASSUME ByteGroupA == ByteGroup
ASSUME BytesA == BytesTyped

W8 == [1..8 -> Bt]

LEMMA BG ==
  /\ bzero \in Bt
  /\ \A a, b \in Bt : bx(a, b) \in Bt
  /\ \A a, b, c \in Bt : bx(bx(a, b), c) = bx(a, bx(b, c))
  /\ \A a, b \in Bt : bx(a, b) = bx(b, a)
  /\ \A a \in Bt : bx(a, a) = bzero /\ bx(a, bzero) = a
  BY ByteGroupA DEF ByteGroup
LEMMA BT == \A a \in Bt : S(a) \in Bt /\ P(a) \in Bt
  BY BytesA DEF BytesTyped
LEMMA BCancel == \A a, b \in Bt : bx(bx(a, b), b) = a
  BY BG

LEMMA EncTyped == ASSUME NEW w \in W8, NEW k \in Bt PROVE EncRound(w, k) \in W8 /\ EncSub(w, k) \in Bt
<1>1. w[1] \in Bt /\ w[2] \in Bt /\ w[3] \in Bt /\ w[4] \in Bt /\ w[5] \in Bt /\ w[6] \in Bt /\ w[7] \in Bt /\ w[8] \in Bt
  BY DEF W8
<1>2. EncSub(w, k) \in Bt /\ P(EncSub(w, k)) \in Bt BY <1>1, BG, BT DEF EncSub
<1>3. \A i \in 1..8 : EncRound(w, k)[i] \in Bt
  <2> TAKE i \in 1..8
  <2>1. i = 1 \/ i = 2 \/ i = 3 \/ i = 4 \/ i = 5 \/ i = 6 \/ i = 7 \/ i = 8 OBVIOUS
  <2> QED BY <1>1, <1>2, <2>1, BG DEF EncRound
<1>4. EncRound(w, k) = [i \in 1..8 |-> EncRound(w, k)[i]] BY DEF EncRound
<1> QED BY <1>2, <1>3, <1>4 DEF W8

LEMMA RoundInverse == ASSUME NEW w \in W8, NEW k \in Bt PROVE DecRound(EncRound(w, k), k) = w
<1>1. w[1] \in Bt /\ w[2] \in Bt /\ w[3] \in Bt /\ w[4] \in Bt /\ w[5] \in Bt /\ w[6] \in Bt /\ w[7] \in Bt /\ w[8] \in Bt
  BY DEF W8
<1> DEFINE x == EncRound(w, k)
           s == EncSub(w, k)
<1>2. s \in Bt /\ P(s) \in Bt BY EncTyped, BT
<1>3. x[1] = w[2] /\ x[2] = bx(w[3], w[1]) /\ x[3] = bx(w[4], w[1]) /\ x[4] = bx(w[5], w[1])
      /\ x[5] = w[6] /\ x[6] = bx(w[7], P(s)) /\ x[7] = w[8] /\ x[8] = bx(w[1], s)
  BY DEF EncRound
<1> HIDE DEF x, s
<1>4. DecSub(x, k) = s BY <1>3 DEF DecSub, EncSub, s
<1>5. DecLast(x, k) = w[1] BY <1>1, <1>2, <1>3, <1>4, BCancel DEF DecLast
<1>6. \A i \in 1..8 : DecRound(x, k)[i] = w[i]
  <2> TAKE i \in 1..8
  <2>0. i = 1 \/ i = 2 \/ i = 3 \/ i = 4 \/ i = 5 \/ i = 6 \/ i = 7 \/ i = 8 OBVIOUS
  <2>1. bx(x[2], w[1]) = w[3] /\ bx(x[3], w[1]) = w[4] /\ bx(x[4], w[1]) = w[5] /\ bx(x[6], P(s)) = w[7]
    BY <1>1, <1>2, <1>3, BCancel
  <2> QED BY <2>0, <2>1, <1>3, <1>4, <1>5 DEF DecRound
<1>7. DecRound(x, k) = [i \in 1..8 |-> DecRound(x, k)[i]] BY DEF DecRound
<1>8. w = [i \in 1..8 |-> w[i]] BY DEF W8
<1> QED BY <1>6, <1>7, <1>8 DEF x

LEMMA DecTyped == ASSUME NEW w \in W8, NEW k \in Bt PROVE DecRound(w, k) \in W8 /\ DecSub(w, k) \in Bt
<1>1. w[1] \in Bt /\ w[2] \in Bt /\ w[3] \in Bt /\ w[4] \in Bt /\ w[5] \in Bt /\ w[6] \in Bt /\ w[7] \in Bt /\ w[8] \in Bt
  BY DEF W8
<1>2. DecSub(w, k) \in Bt /\ P(DecSub(w, k)) \in Bt BY <1>1, BG, BT DEF DecSub
<1>3. DecLast(w, k) \in Bt BY <1>1, <1>2, BG DEF DecLast
<1>4. \A i \in 1..8 : DecRound(w, k)[i] \in Bt
  <2> TAKE i \in 1..8
  <2>1. i = 1 \/ i = 2 \/ i = 3 \/ i = 4 \/ i = 5 \/ i = 6 \/ i = 7 \/ i = 8 OBVIOUS
  <2> QED BY <1>1, <1>2, <1>3, <2>1, BG DEF DecRound
<1>5. DecRound(w, k) = [i \in 1..8 |-> DecRound(w, k)[i]] BY DEF DecRound
<1> QED BY <1>2, <1>4, <1>5 DEF W8

LEMMA RoundInverse2 == ASSUME NEW w \in W8, NEW k \in Bt PROVE EncRound(DecRound(w, k), k) = w
<1>1. w[1] \in Bt /\ w[2] \in Bt /\ w[3] \in Bt /\ w[4] \in Bt /\ w[5] \in Bt /\ w[6] \in Bt /\ w[7] \in Bt /\ w[8] \in Bt
  BY DEF W8
<1> DEFINE x == DecRound(w, k)
           s == DecSub(w, k)
           l == DecLast(w, k)
<1>2. s \in Bt /\ P(s) \in Bt /\ l \in Bt /\ l = bx(w[8], s) BY <1>1, DecTyped, BT, BG DEF DecLast
<1>3. x[1] = l /\ x[2] = w[1] /\ x[3] = bx(w[2], l) /\ x[4] = bx(w[3], l) /\ x[5] = bx(w[4], l)
      /\ x[6] = w[5] /\ x[7] = bx(w[6], P(s)) /\ x[8] = w[7]
  BY DEF DecRound
<1> HIDE DEF x, s, l
<1>4. EncSub(x, k) = s BY <1>3 DEF DecSub, EncSub, s
<1>6. \A i \in 1..8 : EncRound(x, k)[i] = w[i]
  <2> TAKE i \in 1..8
  <2>0. i = 1 \/ i = 2 \/ i = 3 \/ i = 4 \/ i = 5 \/ i = 6 \/ i = 7 \/ i = 8 OBVIOUS
  <2>1. bx(x[3], l) = w[2] /\ bx(x[4], l) = w[3] /\ bx(x[5], l) = w[4] /\ bx(x[7], P(s)) = w[6] /\ bx(l, s) = w[8]
    BY <1>1, <1>2, <1>3, BCancel
  <2> QED BY <2>0, <2>1, <1>3, <1>4 DEF EncRound
<1>7. EncRound(x, k) = [i \in 1..8 |-> EncRound(x, k)[i]] BY DEF EncRound
<1>8. w = [i \in 1..8 |-> w[i]] BY DEF W8
<1> QED BY <1>6, <1>7, <1>8 DEF x

(* The block cipher is invertible, whatever the tables and the schedule.       *)
THEOREM DecryptUndoesEncrypt ==
  ASSUME NEW n \in Nat, NEW kk \in [1..n -> Bt], NEW t, NEW u, NEW b, NEW c, NEW d,
         EncRun(t, kk, n, b, c), DecRun(u, kk, n, c, d)
  PROVE  d = b
<1> DEFINE Q(j) == j <= n => u[j] = t[n - j]
<1>1. Q(0) BY DEF EncRun, DecRun
<1>2. \A j \in Nat : Q(j) => Q(j + 1)
  <2> TAKE j \in Nat
  <2> HAVE Q(j)
  <2> SUFFICES ASSUME j + 1 <= n PROVE u[j + 1] = t[n - (j + 1)] OBVIOUS
  <2> DEFINE i == n - j
  <2>1. i \in 1..n /\ i - 1 \in 0..n /\ i - 1 = n - (j + 1) /\ j + 1 \in 1..n /\ (j + 1) - 1 = j /\ n + 1 - (j + 1) = i
    OBVIOUS
  <2>2. u[j] = t[i] OBVIOUS
  <2>3. u[j + 1] = DecRound(u[j], kk[i]) BY <2>1 DEF DecRun
  <2>4. t[i] = EncRound(t[i - 1], kk[i]) BY <2>1 DEF EncRun
  <2>5. t[i - 1] \in W8 /\ kk[i] \in Bt BY <2>1 DEF EncRun, W8
  <2>6. DecRound(t[i], kk[i]) = t[i - 1] BY <2>4, <2>5, RoundInverse
  <2> QED BY <2>1, <2>2, <2>3, <2>6
<1> HIDE DEF Q
<1>3. \A j \in Nat : Q(j) BY <1>1, <1>2, NatInduction, Isa
<1>4. Q(n) BY <1>3
<1>5. u[n] = t[n - n] BY <1>4 DEF Q
<1>6. n - n = 0 OBVIOUS
<1> QED BY <1>5, <1>6 DEF EncRun, DecRun

THEOREM EncryptUndoesDecrypt ==
  ASSUME NEW n \in Nat, NEW kk \in [1..n -> Bt], NEW t, NEW u, NEW b, NEW c, NEW d,
         DecRun(t, kk, n, b, c), EncRun(u, kk, n, c, d)
  PROVE  d = b
<1> DEFINE Q(j) == j <= n => u[j] = t[n - j]
<1>1. Q(0) BY DEF EncRun, DecRun
<1>2. \A j \in Nat : Q(j) => Q(j + 1)
  <2> TAKE j \in Nat
  <2> HAVE Q(j)
  <2> SUFFICES ASSUME j + 1 <= n PROVE u[j + 1] = t[n - (j + 1)] OBVIOUS
  <2> DEFINE i == n - j
  <2>1. i \in 1..n /\ i - 1 \in 0..n /\ i - 1 = n - (j + 1) /\ j + 1 \in 1..n /\ (j + 1) - 1 = j /\ n + 1 - i = j + 1
    OBVIOUS
  <2>2. u[j] = t[i] OBVIOUS
  <2>3. u[j + 1] = EncRound(u[j], kk[j + 1]) BY <2>1 DEF EncRun
  <2>4. t[i] = DecRound(t[i - 1], kk[j + 1]) BY <2>1 DEF DecRun
  <2>5. t[i - 1] \in W8 /\ kk[j + 1] \in Bt BY <2>1 DEF DecRun, W8
  <2>6. EncRound(t[i], kk[j + 1]) = t[i - 1] BY <2>4, <2>5, RoundInverse2
  <2> QED BY <2>1, <2>2, <2>3, <2>6
<1> HIDE DEF Q
<1>3. \A j \in Nat : Q(j) BY <1>1, <1>2, NatInduction, Isa
<1>4. Q(n) BY <1>3
<1>5. u[n] = t[n - n] BY <1>4 DEF Q
<1>6. n - n = 0 OBVIOUS
<1> QED BY <1>5, <1>6 DEF EncRun, DecRun
=============================================================================
