------------------------------ MODULE CsaRounds ------------------------------
(***************************************************************************)
(* The block cipher's two rounds over any set of bytes with an addition bx, *)
(* any substitution S and any map P: CSA's rounds are an instance (TLC:     *)
(* CsaLink), and CsaRoundsProof shows that decryption undoes encryption for *)
(* every number of rounds, every schedule, every S and every P.             *)
(***************************************************************************)
EXTENDS Integers
CONSTANTS Bt, bx(_, _), bzero, S(_), P(_)

ByteGroup ==
  /\ bzero \in Bt
  /\ \A a, b \in Bt : bx(a, b) \in Bt
  /\ \A a, b, c \in Bt : bx(bx(a, b), c) = bx(a, bx(b, c))
  /\ \A a, b \in Bt : bx(a, b) = bx(b, a)
  /\ \A a \in Bt : bx(a, a) = bzero /\ bx(a, bzero) = a
BytesTyped == \A a \in Bt : S(a) \in Bt /\ P(a) \in Bt

EncSub(w, k) == S(bx(k, w[8]))
EncRound(w, k) ==
  [i \in 1..8 |->
     CASE i = 1 -> w[2]
       [] i = 2 -> bx(w[3], w[1])
       [] i = 3 -> bx(w[4], w[1])
       [] i = 4 -> bx(w[5], w[1])
       [] i = 5 -> w[6]
       [] i = 6 -> bx(w[7], P(EncSub(w, k)))
       [] i = 7 -> w[8]
       [] OTHER -> bx(w[1], EncSub(w, k))]

DecSub(w, k) == S(bx(k, w[7]))
DecLast(w, k) == bx(w[8], DecSub(w, k))
DecRound(w, k) ==
  [i \in 1..8 |->
     CASE i = 1 -> DecLast(w, k)
       [] i = 2 -> w[1]
       [] i = 3 -> bx(w[2], DecLast(w, k))
       [] i = 4 -> bx(w[3], DecLast(w, k))
       [] i = 5 -> bx(w[4], DecLast(w, k))
       [] i = 6 -> w[5]
       [] i = 7 -> bx(w[6], P(DecSub(w, k)))
       [] OTHER -> w[7]]

(* n rounds, the schedule read upwards by encryption, downwards by decryption *)
EncRun(t, kk, n, b, c) ==
  /\ t \in [0..n -> [1..8 -> Bt]]
  /\ t[0] = b /\ t[n] = c
  /\ \A i \in 1..n : t[i] = EncRound(t[i - 1], kk[i])
DecRun(t, kk, n, b, c) ==
  /\ t \in [0..n -> [1..8 -> Bt]]
  /\ t[0] = b /\ t[n] = c
  /\ \A i \in 1..n : t[i] = DecRound(t[i - 1], kk[n + 1 - i])
=============================================================================
