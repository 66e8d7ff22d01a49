------------------------------ MODULE CsaProof ------------------------------
(***************************************************************************)
(* Unbounded theorems about DVB-CSA's packet cipher, proved with TLAPS      *)
(* (tlapm CsaProof.tla): for every number of blocks, every payload, every   *)
(* block cipher and keystream.  What TLC shows in CsaSym, CsaErr and        *)
(* CsaLibMC within bounds holds without them.                               *)
(***************************************************************************)
EXTENDS CsaCore, NaturalsInduction, TLAPS

ASSUME GroupA == Group
ASSUME BlockA == BlockPair
ASSUME StreamA == KeystreamTyped

LEMMA GroupL ==
  /\ zero \in V
  /\ \A a, b \in V : xor(a, b) \in V
  /\ \A a, b, c \in V : xor(xor(a, b), c) = xor(a, xor(b, c))
  /\ \A a, b \in V : xor(a, b) = xor(b, a)
  /\ \A a \in V : xor(a, a) = zero /\ xor(a, zero) = a
  BY GroupA DEF Group
LEMMA Block == \A a \in V : E(a) \in V /\ D(a) \in V /\ D(E(a)) = a /\ E(D(a)) = a
  BY BlockA DEF BlockPair
LEMMA Stream == \A s \in V, i \in Nat : K(s, i) \in V
  BY StreamA DEF KeystreamTyped

LEMMA Cancel == \A a, b \in V : xor(xor(a, b), b) = a
  BY GroupL
LEMMA CancelL == \A a, b \in V : xor(b, xor(b, a)) = a
  BY GroupL
LEMMA Unique == \A a, b, c \in V : xor(a, c) = xor(b, c) => a = b
  BY Cancel

-----------------------------------------------------------------------------
LEMMA MaskTwice ==
  ASSUME NEW m \in Nat \ {0}, NEW c \in [1..m -> V], NEW s, Masked(c, s, m)
  PROVE  Masked(s, c, m)
<1>1. s[1] = c[1] /\ s \in [1..m -> V] BY DEF Masked
<1>2. \A i \in 2..m : c[i] = xor(s[i], K(s[1], i))
  <2> TAKE i \in 2..m
  <2>1. i \in 1..m /\ i \in Nat /\ 1 \in 1..m OBVIOUS
  <2>2. c[i] \in V /\ c[1] \in V /\ K(c[1], i) \in V BY <2>1, Stream
  <2>3. s[i] = xor(c[i], K(c[1], i)) BY DEF Masked
  <2>4. xor(xor(c[i], K(c[1], i)), K(c[1], i)) = c[i] BY <2>2, Cancel
  <2> QED BY <1>1, <2>3, <2>4
<1> QED BY <1>1, <1>2 DEF Masked

(* C03: descrambling a scrambled payload gives it back ...                   *)
THEOREM DescrambleScrambled ==
  ASSUME NEW n, NEW m, NEW p, NEW s, NEW q,
         Payload(p, n, m), Scrambled(p, s, n, m), Descrambled(s, q, n, m)
  PROVE  q = p
<1>0. n \in Nat /\ n >= 1 /\ m \in Nat /\ m >= n /\ n \in 1..m /\ 1 \in 1..m /\ m \in Nat \ {0}
  BY DEF Payload
<1>1. PICK c : Chained(p, c, n, m) /\ Masked(c, s, m) BY DEF Scrambled
<1>2. PICK d : /\ Masked(s, d, m)
               /\ q \in [1..m -> V]
               /\ q[n] = D(d[n])
               /\ \A i \in 1..(n - 1) : q[i] = xor(D(d[i]), d[i + 1])
               /\ m = n + 1 => q[m] = d[m]
  BY DEF Descrambled, Unchained
<1>3. c \in [1..m -> V] BY <1>1 DEF Chained
<1>4. Masked(s, c, m) BY <1>0, <1>1, <1>3, MaskTwice
<1>5. d = c
  <2>1. d \in [1..m -> V] /\ d[1] = s[1] /\ c[1] = s[1] BY <1>2, <1>4 DEF Masked
  <2>2. \A i \in 1..m : d[i] = c[i]
    <3> TAKE i \in 1..m
    <3>1. CASE i = 1 BY <3>1, <2>1
    <3>2. CASE i # 1
      <4>1. i \in 2..m BY <3>2, <1>0
      <4> QED BY <4>1, <1>2, <1>4 DEF Masked
    <3> QED BY <3>1, <3>2
  <2> QED BY <2>1, <2>2, <1>3
<1>6. p \in [1..m -> V] BY DEF Payload
<1>7. \A i \in 1..m : q[i] = p[i]
  <2> TAKE i \in 1..m
  <2>1. CASE i = n
    BY <2>1, <1>0, <1>1, <1>2, <1>5, <1>6, Block DEF Chained
  <2>2. CASE i < n
    <3>1. i \in 1..(n - 1) /\ (i + 1) \in 1..m BY <2>2, <1>0
    <3>2. c[i] = E(xor(p[i], c[i + 1])) BY <3>1, <1>1 DEF Chained
    <3>3. q[i] = xor(D(c[i]), c[i + 1]) BY <3>1, <1>2, <1>5
    <3>4. p[i] \in V /\ c[i + 1] \in V BY <3>1, <1>6, <1>3
    <3>5. xor(p[i], c[i + 1]) \in V BY <3>4, GroupL
    <3>6. D(c[i]) = xor(p[i], c[i + 1]) BY <3>5, <3>2, Block
    <3> QED BY <3>3, <3>6, <3>4, Cancel
  <2>3. CASE i > n
    <3>1. m = n + 1 /\ i = m BY <2>3, <1>0 DEF Payload
    <3> QED BY <3>1, <1>1, <1>2, <1>5 DEF Chained
  <2> QED BY <2>1, <2>2, <2>3, <1>0
<1> QED BY <1>2, <1>6, <1>7

(* ... and scrambling a descrambled payload gives it back.                   *)
THEOREM ScrambleDescrambled ==
  ASSUME NEW n, NEW m, NEW s, NEW p, NEW t,
         Payload(s, n, m), Descrambled(s, p, n, m), Scrambled(p, t, n, m)
  PROVE  t = s
<1>0. n \in Nat /\ n >= 1 /\ m \in Nat /\ m >= n /\ n \in 1..m /\ 1 \in 1..m /\ m \in Nat \ {0}
      /\ s \in [1..m -> V]
  BY DEF Payload
<1>2. PICK d : /\ Masked(s, d, m)
               /\ p \in [1..m -> V]
               /\ p[n] = D(d[n])
               /\ \A i \in 1..(n - 1) : p[i] = xor(D(d[i]), d[i + 1])
               /\ m = n + 1 => p[m] = d[m]
  BY DEF Descrambled, Unchained
<1>1. PICK c : Chained(p, c, n, m) /\ Masked(c, t, m) BY DEF Scrambled
<1>3. c \in [1..m -> V] /\ d \in [1..m -> V] BY <1>1, <1>2 DEF Chained, Masked
<1>4. \A k \in Nat : k < n => c[n - k] = d[n - k]
  <2> DEFINE P(k) == k < n => c[n - k] = d[n - k]
  <2>1. P(0)
    <3>1. c[n] = E(p[n]) /\ p[n] = D(d[n]) /\ d[n] \in V BY <1>0, <1>1, <1>2, <1>3 DEF Chained
    <3>2. c[n] = d[n] BY <3>1, Block
    <3> QED BY <3>2, <1>0
  <2>2. \A k \in Nat : P(k) => P(k + 1)
    <3> TAKE k \in Nat
    <3> HAVE P(k)
    <3> SUFFICES ASSUME k + 1 < n PROVE c[n - (k + 1)] = d[n - (k + 1)] OBVIOUS
    <3> DEFINE i == n - (k + 1)
    <3>1. i \in 1..(n - 1) /\ i \in 1..m /\ i + 1 \in 1..m /\ i + 1 = n - k BY <1>0
    <3>2. c[i + 1] = d[i + 1] BY <3>1, <1>0
    <3>3. c[i] = E(xor(p[i], c[i + 1])) BY <3>1, <1>1 DEF Chained
    <3>4. p[i] = xor(D(d[i]), d[i + 1]) BY <3>1, <1>2
    <3>5. d[i] \in V /\ d[i + 1] \in V /\ D(d[i]) \in V BY <3>1, <1>3, Block
    <3>6. xor(p[i], c[i + 1]) = D(d[i]) BY <3>2, <3>4, <3>5, Cancel
    <3>7. c[i] = d[i] BY <3>3, <3>5, <3>6, Block
    <3> QED BY <3>7
  <2> HIDE DEF P
  <2> QED BY <2>1, <2>2, NatInduction, Isa DEF P
<1>5. c = d
  <2> SUFFICES ASSUME NEW i \in 1..m PROVE c[i] = d[i] BY <1>3
  <2>1. CASE i <= n
    <3>1. (n - i) \in Nat /\ n - i < n /\ n - (n - i) = i BY <2>1, <1>0
    <3>2. c[n - (n - i)] = d[n - (n - i)] BY <3>1, <1>4
    <3> QED BY <3>1, <3>2
  <2>2. CASE i > n
    <3>1. m = n + 1 /\ i = m BY <2>2, <1>0 DEF Payload
    <3> QED BY <3>1, <1>1, <1>2 DEF Chained
  <2> QED BY <2>1, <2>2, <1>0
<1>6. Masked(d, s, m) BY <1>0, <1>2, MaskTwice
<1>7. t \in [1..m -> V] BY <1>1 DEF Masked
<1>8. \A i \in 1..m : t[i] = s[i]
  <2> TAKE i \in 1..m
  <2>1. CASE i = 1 BY <2>1, <1>1, <1>5, <1>6 DEF Masked
  <2>2. CASE i # 1
    <3>1. i \in 2..m BY <2>2, <1>0
    <3> QED BY <3>1, <1>1, <1>5, <1>6 DEF Masked
  <2> QED BY <2>1, <2>2
<1> QED BY <1>0, <1>7, <1>8

-----------------------------------------------------------------------------
(* C19: damage behind the first block stays local.  Cell k of s is damaged   *)
(* (to anything), nothing else; of the payload only cells k-1 and k change,  *)
(* and cell k-1 changes in exactly the bits damaged.                         *)
THEOREM DamageStaysLocal ==
  ASSUME NEW n, NEW m, NEW s, NEW p, NEW s2, NEW p2, NEW k,
         Payload(s, n, m), Payload(s2, n, m), k \in 2..m,
         \A i \in 1..m : i # k => s2[i] = s[i],
         Descrambled(s, p, n, m), Descrambled(s2, p2, n, m)
  PROVE  /\ \A i \in 1..m : i \notin {k - 1, k} => p2[i] = p[i]
         /\ k <= n => xor(p2[k - 1], p[k - 1]) = xor(s2[k], s[k])
         /\ k > n  => p2[k - 1] = p[k - 1] /\ xor(p2[k], p[k]) = xor(s2[k], s[k])
<1>0. n \in Nat /\ n >= 1 /\ m \in Nat /\ m >= n /\ n \in 1..m /\ 1 \in 1..m /\ m <= n + 1
      /\ s \in [1..m -> V] /\ s2 \in [1..m -> V] /\ k \in 1..m /\ k \in Nat /\ k # 1
  BY DEF Payload
<1>1. PICK c : /\ Masked(s, c, m)
               /\ p \in [1..m -> V]
               /\ p[n] = D(c[n])
               /\ \A i \in 1..(n - 1) : p[i] = xor(D(c[i]), c[i + 1])
               /\ m = n + 1 => p[m] = c[m]
  BY DEF Descrambled, Unchained
<1>2. PICK d : /\ Masked(s2, d, m)
               /\ p2 \in [1..m -> V]
               /\ p2[n] = D(d[n])
               /\ \A i \in 1..(n - 1) : p2[i] = xor(D(d[i]), d[i + 1])
               /\ m = n + 1 => p2[m] = d[m]
  BY DEF Descrambled, Unchained
<1>3. c \in [1..m -> V] /\ d \in [1..m -> V] BY <1>1, <1>2 DEF Masked
<1>4. s2[1] = s[1] BY <1>0
<1>5. \A i \in 1..m : i # k => d[i] = c[i]
  <2> TAKE i \in 1..m
  <2> HAVE i # k
  <2>1. CASE i = 1 BY <2>1, <1>1, <1>2, <1>4 DEF Masked
  <2>2. CASE i # 1
    <3>1. i \in 2..m BY <2>2, <1>0
    <3>2. c[i] = xor(s[i], K(s[1], i)) /\ d[i] = xor(s2[i], K(s2[1], i)) BY <3>1, <1>1, <1>2 DEF Masked
    <3> QED BY <3>2, <1>4
  <2> QED BY <2>1, <2>2
<1>6. xor(d[k], c[k]) = xor(s2[k], s[k])
  <2>1. c[k] = xor(s[k], K(s[1], k)) /\ d[k] = xor(s2[k], K(s[1], k)) BY <1>0, <1>1, <1>2, <1>4 DEF Masked
  <2>2. s[k] \in V /\ s2[k] \in V /\ K(s[1], k) \in V BY <1>0, Stream
  <2>3. \A a, b, x \in V : xor(xor(a, x), xor(b, x)) = xor(a, b)
    <3> TAKE a, b, x \in V
    <3>1. xor(b, x) = xor(x, b) /\ xor(b, x) \in V /\ xor(a, x) \in V BY GroupL
    <3>2. xor(xor(a, x), xor(x, b)) = xor(a, xor(x, xor(x, b))) BY GroupL
    <3>3. xor(x, xor(x, b)) = b BY CancelL
    <3> QED BY <3>1, <3>2, <3>3
  <2> QED BY <2>1, <2>2, <2>3
<1>7. \A i \in 1..m : i \notin {k - 1, k} => p2[i] = p[i]
  <2> TAKE i \in 1..m
  <2> HAVE i \notin {k - 1, k}
  <2>0. d[i] = c[i] BY <1>5
  <2>1. CASE i = n BY <2>0, <2>1, <1>1, <1>2
  <2>2. CASE i < n
    <3>1. i \in 1..(n - 1) /\ i + 1 \in 1..m /\ i + 1 # k BY <2>2, <1>0
    <3>2. d[i + 1] = c[i + 1] BY <3>1, <1>5
    <3> QED BY <2>0, <3>1, <3>2, <1>1, <1>2
  <2>3. CASE i > n
    <3>1. m = n + 1 /\ i = m BY <2>3, <1>0
    <3> QED BY <2>0, <3>1, <1>1, <1>2
  <2> QED BY <2>1, <2>2, <2>3, <1>0
<1>8. k <= n => xor(p2[k - 1], p[k - 1]) = xor(s2[k], s[k])
  <2> HAVE k <= n
  <2>1. k - 1 \in 1..(n - 1) /\ k - 1 \in 1..m /\ (k - 1) + 1 = k /\ k - 1 # k BY <1>0
  <2>2. p[k - 1] = xor(D(c[k - 1]), c[k]) /\ p2[k - 1] = xor(D(d[k - 1]), d[k]) BY <2>1, <1>1, <1>2
  <2>3. d[k - 1] = c[k - 1] BY <2>1, <1>5
  <2>4. D(c[k - 1]) \in V /\ c[k] \in V /\ d[k] \in V BY <2>1, <1>0, <1>3, Block
  <2>5. \A a, b, x \in V : xor(xor(x, a), xor(x, b)) = xor(a, b)
    <3> TAKE a, b, x \in V
    <3>1. xor(x, a) = xor(a, x) /\ xor(x, a) \in V /\ xor(x, b) \in V BY GroupL
    <3>2. xor(xor(a, x), xor(x, b)) = xor(a, xor(x, xor(x, b))) BY GroupL
    <3>3. xor(x, xor(x, b)) = b BY CancelL
    <3> QED BY <3>1, <3>2, <3>3
  <2> QED BY <2>2, <2>3, <2>4, <2>5, <1>6
<1>9. k > n => p2[k - 1] = p[k - 1] /\ xor(p2[k], p[k]) = xor(s2[k], s[k])
  <2> HAVE k > n
  <2>1. k = m /\ m = n + 1 /\ k - 1 = n /\ n # k BY <1>0
  <2>2. d[n] = c[n] BY <2>1, <1>0, <1>5
  <2> QED BY <2>1, <2>2, <1>0, <1>1, <1>2, <1>6
<1> QED BY <1>7, <1>8, <1>9

(* C19, the other way: cell k of the plaintext changed, the scrambled cells  *)
(* behind it do not change.  (The keystream depends on the first ciphertext  *)
(* block, so this is about the chained cells.)                               *)
THEOREM LaterCellsKeep ==
  ASSUME NEW n, NEW m, NEW p, NEW c, NEW p2, NEW c2, NEW k,
         Payload(p, n, m), Payload(p2, n, m), k \in 1..n,
         \A i \in 1..m : i > k => p2[i] = p[i],
         Chained(p, c, n, m), Chained(p2, c2, n, m)
  PROVE  \A i \in 1..m : i > k => c2[i] = c[i]
<1>0. n \in Nat /\ n >= 1 /\ m \in Nat /\ m >= n /\ m <= n + 1 /\ k \in Nat /\ k >= 1 /\ k <= n BY DEF Payload
<1>1. \A j \in Nat : n - j > k => c2[n - j] = c[n - j]
  <2> DEFINE P(j) == n - j > k => c2[n - j] = c[n - j]
  <2>1. P(0)
    <3> SUFFICES ASSUME n > k PROVE c2[n] = c[n] BY <1>0
    <3>1. p2[n] = p[n] BY <1>0
    <3> QED BY <3>1 DEF Chained
  <2>2. \A j \in Nat : P(j) => P(j + 1)
    <3> TAKE j \in Nat
    <3> HAVE P(j)
    <3> SUFFICES ASSUME n - (j + 1) > k PROVE c2[n - (j + 1)] = c[n - (j + 1)] OBVIOUS
    <3> DEFINE i == n - (j + 1)
    <3>1. i \in 1..(n - 1) /\ i \in 1..m /\ i + 1 = n - j /\ n - j > k BY <1>0
    <3>2. c2[i + 1] = c[i + 1] BY <3>1
    <3>3. p2[i] = p[i] BY <3>1
    <3>4. c2[i] = c[i] BY <3>1, <3>2, <3>3 DEF Chained
    <3> QED BY <3>4
  <2> HIDE DEF P
  <2> QED BY <2>1, <2>2, NatInduction, Isa DEF P
<1> TAKE i \in 1..m
<1> HAVE i > k
<1>2. CASE i <= n
  <2>1. n - i \in Nat /\ n - (n - i) = i BY <1>2, <1>0
  <2>2. n - (n - i) > k => c2[n - (n - i)] = c[n - (n - i)] BY <2>1, <1>1
  <2> QED BY <2>1, <2>2
<1>3. CASE i > n
  <2>1. i = m /\ m = n + 1 BY <1>3, <1>0
  <2> QED BY <2>1 DEF Chained
<1> QED BY <1>2, <1>3, <1>0
=============================================================================
