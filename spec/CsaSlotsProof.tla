--------------------------- MODULE CsaSlotsProof ---------------------------
EXTENDS CsaSlots, CsaProof

(* Every payload has a chained form. *)
LEMMA ChainExists ==
  ASSUME NEW n, NEW m, NEW p, Payload(p, n, m)
  PROVE  \E c : Chained(p, c, n, m)
<1>0. n \in Nat /\ n >= 1 /\ m \in Nat /\ m >= n /\ m <= n + 1 /\ p \in [1..m -> V] BY DEF Payload
<1> DEFINE Q(j) == j < n => \E c \in [1..m -> V] :
                     /\ c[n] = E(p[n])
                     /\ \A i \in (n - j)..(n - 1) : c[i] = E(xor(p[i], c[i + 1]))
                     /\ m = n + 1 => c[m] = p[m]
<1>1. Q(0)
  <2> DEFINE c == [i \in 1..m |-> IF i = n THEN E(p[n]) ELSE p[i]]
  <2>1. c \in [1..m -> V] BY <1>0, Block
  <2>2. c[n] = E(p[n]) BY <1>0
  <2>3. m = n + 1 => c[m] = p[m] BY <1>0
  <2>4. \A i \in (n - 0)..(n - 1) : FALSE BY <1>0
  <2> HIDE DEF c
  <2> QED BY <2>1, <2>2, <2>3, <2>4
<1>2. \A j \in Nat : Q(j) => Q(j + 1)
  <2> TAKE j \in Nat
  <2> HAVE Q(j)
  <2> SUFFICES ASSUME j + 1 < n
               PROVE \E c \in [1..m -> V] :
                     /\ c[n] = E(p[n])
                     /\ \A i \in (n - (j + 1))..(n - 1) : c[i] = E(xor(p[i], c[i + 1]))
                     /\ m = n + 1 => c[m] = p[m]
    OBVIOUS
  <2>1. PICK c \in [1..m -> V] :
                     /\ c[n] = E(p[n])
                     /\ \A i \in (n - j)..(n - 1) : c[i] = E(xor(p[i], c[i + 1]))
                     /\ m = n + 1 => c[m] = p[m]
    BY <1>0
  <2> DEFINE k == n - (j + 1)
             x == E(xor(p[k], c[k + 1]))
             d == [i \in 1..m |-> IF i = k THEN x ELSE c[i]]
  <2>2. k \in 1..m /\ k + 1 \in 1..m /\ k < n /\ k + 1 = n - j /\ n \in 1..m BY <1>0
  <2>3. x \in V BY <1>0, <2>2, GroupL, Block
  <2>4. d \in [1..m -> V] BY <2>3
  <2>5. d[n] = E(p[n]) BY <2>1, <2>2
  <2>6. m = n + 1 => d[m] = p[m] BY <2>1, <2>2, <1>0
  <2>7. \A i \in (n - (j + 1))..(n - 1) : d[i] = E(xor(p[i], d[i + 1]))
    <3> TAKE i \in (n - (j + 1))..(n - 1)
    <3>1. CASE i = k BY <3>1, <2>2
    <3>2. CASE i # k
      <4>1. i \in (n - j)..(n - 1) /\ i \in 1..m /\ i + 1 \in 1..m /\ i + 1 # k BY <3>2, <1>0
      <4>2. d[i] = c[i] /\ d[i + 1] = c[i + 1] BY <4>1, <3>2
      <4> QED BY <4>1, <4>2, <2>1
    <3> QED BY <3>1, <3>2
  <2> HIDE DEF d
  <2> QED BY <2>4, <2>5, <2>6, <2>7
<1> HIDE DEF Q
<1>3. \A j \in Nat : Q(j) BY <1>1, <1>2, NatInduction, Isa
<1>4. Q(n - 1) BY <1>3, <1>0
<1>5. PICK c \in [1..m -> V] :
                     /\ c[n] = E(p[n])
                     /\ \A i \in (n - (n - 1))..(n - 1) : c[i] = E(xor(p[i], c[i + 1]))
                     /\ m = n + 1 => c[m] = p[m]
  BY <1>4, <1>0 DEF Q
<1>6. Chained(p, c, n, m) BY <1>0, <1>5 DEF Chained
<1> QED BY <1>6

-----------------------------------------------------------------------------
N(p) == call.n[p]
M(p) == call.m[p]
Src(p) == Part(call.src[p], M(p))
ChainOf(p) == IF N(p) = 0 THEN Src(p) ELSE CHOOSE c : Chained(Src(p), c, N(p), M(p))
Msk(f, m) == [i \in 1..m |-> IF i = 1 THEN f[1] ELSE xor(f[i], K(f[1], i))]

Base(p) == IF call.op = "enc" THEN ChainOf(p) ELSE Src(p)
Cip(p) == Msk(Src(p), M(p))

EncBlk(p, o) ==
  /\ \A i \in 1..M(p) : i > N(p) => buf[p][i] = Src(p)[i]
  /\ \A i \in 1..N(p) :
       /\ i > o => buf[p][i] = ChainOf(p)[i]
       /\ (i = o /\ o < N(p)) => buf[p][i] = xor(Src(p)[i], ChainOf(p)[i + 1])
       /\ (i < o \/ (i = o /\ o = N(p))) => buf[p][i] = Src(p)[i]
Streamed(p, o) ==
  /\ M(p) > 0 => iv[p] = Base(p)[1]
  /\ \A i \in 1..M(p) : buf[p][i] = IF 2 <= i /\ i < o THEN xor(Base(p)[i], K(Base(p)[1], i)) ELSE Base(p)[i]
DecBlk(p, o) ==
  \A i \in 1..M(p) :
     buf[p][i] = IF i > N(p) \/ i >= o THEN Cip(p)[i]
                 ELSE IF i + 1 < o /\ i < N(p) THEN xor(D(Cip(p)[i]), Cip(p)[i + 1])
                 ELSE D(Cip(p)[i])

Typed ==
  /\ buf \in [Pk -> [1..call.wid -> V]]
  /\ iv \in [Pk -> V]
  /\ pc \in {"load", "block", "iv", "stream", "store", "done"}
  /\ off \in Int

Inv ==
  /\ Typed
  /\ pc # "done" => mem = call.src
  /\ (pc = "block" /\ call.op = "enc") => off >= 0 /\ off <= call.lim /\ \A p \in Pk : EncBlk(p, off)
  /\ pc = "iv" => \A p \in Pk : \A i \in 1..M(p) : buf[p][i] = Base(p)[i]
  /\ pc = "stream" => off >= 2 /\ (\A p \in Pk : Streamed(p, off))
  /\ (pc = "block" /\ call.op = "dec") => off >= 1 /\ (\A p \in Pk : DecBlk(p, off))
  /\ (pc = "store" /\ call.op = "enc") => \A p \in Pk : \A i \in 1..M(p) : buf[p][i] = Msk(Base(p), M(p))[i]
  /\ (pc = "store" /\ call.op = "dec") => \A p \in Pk : DecBlk(p, call.lim + 1)
  /\ PacketsRight

LEMMA LegalFacts ==
  ASSUME Legal, NEW p \in Pk
  PROVE  /\ N(p) \in Nat /\ M(p) \in Nat /\ M(p) <= call.lim /\ M(p) <= call.wid
         /\ N(p) <= M(p) /\ M(p) <= N(p) + 1
         /\ call.lim \in Nat /\ call.wid \in Nat /\ call.wid >= 1
         /\ 1..M(p) \subseteq Cells(p)
         /\ \A i \in Cells(p) : call.src[p][i] \in V
         /\ Src(p) \in [1..M(p) -> V]
         /\ \A i \in 1..M(p) : Src(p)[i] = call.src[p][i]
         /\ call.junk[p] \in [1..call.wid -> V]
         /\ Cells(p) \subseteq Nat \ {0}
<1>1. PICK f \in Nat : Cells(p) = 1..f /\ M(p) <= f BY DEF Legal, M
<1>2. N(p) \in Nat /\ M(p) \in {N(p), N(p) + 1} /\ call.lim \in Nat /\ M(p) <= call.lim
      /\ call.wid \in Nat /\ call.wid >= 1 /\ call.wid >= call.lim
      /\ call.src[p] \in [Cells(p) -> V] /\ call.junk[p] \in [1..call.wid -> V]
  BY DEF Legal, N, M
<1> QED BY <1>1, <1>2 DEF Src, Part

LEMMA ChainFacts ==
  ASSUME Legal, NEW p \in Pk
  PROVE  /\ ChainOf(p) \in [1..M(p) -> V]
         /\ N(p) > 0 => Chained(Src(p), ChainOf(p), N(p), M(p))
         /\ \A i \in 1..M(p) : i > N(p) => ChainOf(p)[i] = Src(p)[i]
<1>0. N(p) \in Nat /\ M(p) \in Nat /\ N(p) <= M(p) /\ M(p) <= N(p) + 1 /\ Src(p) \in [1..M(p) -> V] BY LegalFacts
<1>1. CASE N(p) = 0 BY <1>0, <1>1 DEF ChainOf
<1>2. CASE N(p) > 0
  <2>1. Payload(Src(p), N(p), M(p)) BY <1>0, <1>2 DEF Payload
  <2>2. \E c : Chained(Src(p), c, N(p), M(p)) BY <2>1, ChainExists
  <2>3. Chained(Src(p), ChainOf(p), N(p), M(p)) BY <2>2, <1>2 DEF ChainOf
  <2>4. ChainOf(p) \in [1..M(p) -> V] BY <2>3 DEF Chained
  <2>5. \A i \in 1..M(p) : i > N(p) => ChainOf(p)[i] = Src(p)[i]
    <3> SUFFICES ASSUME NEW i \in 1..M(p), i > N(p) PROVE ChainOf(p)[i] = Src(p)[i] OBVIOUS
    <3>1. i = M(p) /\ M(p) = N(p) + 1 BY <1>0
    <3> QED BY <3>1, <2>3 DEF Chained
  <2> QED BY <2>3, <2>4, <2>5
<1> QED BY <1>0, <1>1, <1>2

LEMMA BaseFacts == ASSUME Legal, NEW p \in Pk PROVE Base(p) \in [1..M(p) -> V]
  BY LegalFacts, ChainFacts DEF Base

LEMMA CipFacts ==
  ASSUME Legal, NEW p \in Pk
  PROVE  Cip(p) \in [1..M(p) -> V] /\ \A i \in 1..M(p) : Cip(p)[i] \in V
<1>0. M(p) \in Nat /\ Src(p) \in [1..M(p) -> V] BY LegalFacts
<1>1. ASSUME NEW i \in 1..M(p) PROVE (IF i = 1 THEN Src(p)[1] ELSE xor(Src(p)[i], K(Src(p)[1], i))) \in V
  <2>1. 1 \in 1..M(p) /\ i \in Nat BY <1>0
  <2> QED BY <2>1, <1>0, GroupL, Stream
<1> QED BY <1>1 DEF Cip, Msk

LEMMA InitInv == Legal /\ SInit => Inv
<1> SUFFICES ASSUME Legal, SInit PROVE Inv OBVIOUS
<1>1. buf \in [Pk -> [1..call.wid -> V]]
  <2>1. \A p \in Pk : call.junk[p] \in [1..call.wid -> V] BY LegalFacts
  <2>2. call.junk = [p \in Pk |-> call.junk[p]] BY DEF Legal
  <2> QED BY <2>1, <2>2 DEF SInit
<1>2. iv \in [Pk -> V] BY GroupL DEF SInit
<1> QED BY <1>1, <1>2 DEF SInit, Inv, Typed, PacketsRight

LEMMA NextKeepsCall == SNext => call' = call
  BY DEF SNext, SLoad, SBlockEnc, SBlockEncDone, SSeed, SStream, SStreamDone, SBlockDec, SBlockDecDone, SStore

LEMMA LoadInv == Legal /\ Inv /\ SLoad => Inv'
<1> SUFFICES ASSUME Legal, Inv, SLoad PROVE Inv' OBVIOUS
<1>0. call' = call /\ mem' = mem /\ iv' = iv /\ mem = call.src /\ pc = "load" BY DEF Inv, SLoad
<1>1. \A p \in Pk : \A i \in 1..M(p) : buf'[p][i] = Src(p)[i]
  <2> SUFFICES ASSUME NEW p \in Pk, NEW i \in 1..M(p) PROVE buf'[p][i] = Src(p)[i] OBVIOUS
  <2>1. i \in 1..call.wid /\ i <= M(p) BY LegalFacts
  <2> QED BY <2>1, <1>0, LegalFacts DEF SLoad, M
<1>2. buf' \in [Pk -> [1..call.wid -> V]]
  <2>1. \A p \in Pk : \A i \in 1..call.wid : (IF i <= call.m[p] THEN mem[p][i] ELSE buf[p][i]) \in V
    <3> SUFFICES ASSUME NEW p \in Pk, NEW i \in 1..call.wid
                 PROVE (IF i <= call.m[p] THEN mem[p][i] ELSE buf[p][i]) \in V OBVIOUS
    <3>1. CASE i <= call.m[p]
      <4>1. i \in 1..M(p) BY <3>1, LegalFacts DEF M
      <4> QED BY <3>1, <4>1, <1>0, LegalFacts
    <3>2. CASE ~(i <= call.m[p]) BY <3>2 DEF Inv, Typed
    <3> QED BY <3>1, <3>2
  <2> QED BY <2>1 DEF SLoad
<1>3. CASE call.op = "enc"
  <2>1. pc' = "block" /\ off' = call.lim BY <1>3 DEF SLoad
  <2>2. call.lim \in Nat BY DEF Legal
  <2>3. \A p \in Pk : EncBlk(p, off)'
    <3> SUFFICES ASSUME NEW p \in Pk PROVE EncBlk(p, off)' BY <1>0
    <3>1. N(p) \in Nat /\ M(p) \in Nat /\ N(p) <= M(p) /\ M(p) <= call.lim BY LegalFacts
    <3>2. \A i \in 1..N(p) : i \in 1..M(p) /\ ~(i > call.lim) /\ ~(i = call.lim /\ call.lim < N(p))
      BY <3>1, <2>2
    <3> QED BY <3>1, <3>2, <1>0, <1>1, <2>1 DEF EncBlk, N, M, Src, ChainOf
  <2>4. pc' # "iv" /\ pc' # "stream" /\ pc' # "store" /\ pc' # "done" /\ call'.op # "dec" BY <2>1, <1>3, <1>0
  <2>5. Typed' BY <1>0, <1>2, <2>1, <2>2 DEF Typed, Inv, Pk, Cells
  <2>6. PacketsRight' BY <2>4 DEF PacketsRight
  <2> QED BY <1>0, <2>1, <2>2, <2>3, <2>4, <2>5, <2>6 DEF Inv, Pk, Cells
<1>4. CASE call.op = "dec"
  <2>1. pc' = "iv" /\ off' = 1 BY <1>4 DEF SLoad
  <2>2. \A p \in Pk : \A i \in 1..M(p) : buf'[p][i] = Base(p)[i] BY <1>1, <1>4 DEF Base
  <2>3. Typed' BY <1>0, <1>2, <2>1 DEF Typed, Inv, Pk, Cells
  <2>4. \A p \in Pk : (\A i \in 1..M(p) : buf[p][i] = Base(p)[i])'
    BY <2>2, <1>0 DEF Base, M, Src, ChainOf, N
  <2>5. PacketsRight' BY <2>1 DEF PacketsRight
  <2> QED BY <1>0, <2>1, <2>3, <2>4, <2>5, <1>4 DEF Inv, Pk, Cells
<1> QED BY <1>3, <1>4 DEF Legal

LEMMA BlockEncInv == Legal /\ Inv /\ SBlockEnc => Inv'
<1> SUFFICES ASSUME Legal, Inv, SBlockEnc PROVE Inv' OBVIOUS
<1>0. call' = call /\ mem' = mem /\ iv' = iv /\ pc' = pc /\ pc = "block" /\ call.op = "enc"
      /\ off' = off - 1 /\ off >= 1 /\ off <= call.lim /\ off \in Int /\ call.lim \in Nat
  BY DEF Inv, Typed, SBlockEnc, Legal
<1>1. \A p \in Pk : /\ off > N(p) => buf'[p] = buf[p]
                    /\ ~(off > N(p)) => buf'[p] = [i \in 1..call.wid |->
                       IF i = off THEN E(buf[p][off])
                       ELSE IF i = off - 1 THEN xor(buf[p][i], E(buf[p][off]))
                       ELSE buf[p][i]]
  BY DEF SBlockEnc, N
<1>2. \A p \in Pk : buf'[p] \in [1..call.wid -> V]
  <2> SUFFICES ASSUME NEW p \in Pk PROVE buf'[p] \in [1..call.wid -> V] OBVIOUS
  <2>1. buf[p] \in [1..call.wid -> V] BY DEF Inv, Typed
  <2>2. off \in 1..call.wid BY <1>0, LegalFacts DEF Legal
  <2>3. E(buf[p][off]) \in V BY <2>1, <2>2, Block
  <2>4. \A i \in 1..call.wid : xor(buf[p][i], E(buf[p][off])) \in V BY <2>1, <2>3, GroupL
  <2> QED BY <1>1, <2>1, <2>3, <2>4
<1>3. buf' \in [Pk -> [1..call.wid -> V]]
  <2>1. buf' = [p \in Pk |-> buf'[p]] BY DEF SBlockEnc
  <2> QED BY <2>1, <1>2
<1>4. \A p \in Pk : EncBlk(p, off)'
  <2> SUFFICES ASSUME NEW p \in Pk PROVE EncBlk(p, off)' BY <1>0
  <2>0. N(p) \in Nat /\ M(p) \in Nat /\ N(p) <= M(p) /\ M(p) <= call.wid /\ call.wid \in Nat /\ M(p) <= N(p) + 1 BY LegalFacts
  <2>1. EncBlk(p, off) BY <1>0 DEF Inv
  <2>2. N(p)' = N(p) /\ M(p)' = M(p) /\ Src(p)' = Src(p) /\ ChainOf(p)' = ChainOf(p)
    BY <1>0 DEF N, M, Src, ChainOf
  <2>3. CASE off > N(p)
    <3>1. buf'[p] = buf[p] BY <2>3, <1>1
    <3>2. \A i \in 1..M(p) : i > N(p) => buf'[p][i] = Src(p)[i] BY <3>1, <2>1 DEF EncBlk
    <3>3. \A i \in 1..N(p) : buf'[p][i] = Src(p)[i]
      <4> SUFFICES ASSUME NEW i \in 1..N(p) PROVE buf'[p][i] = Src(p)[i] OBVIOUS
      <4>1. i < off BY <2>3, <2>0, <1>0
      <4> QED BY <4>1, <3>1, <2>1 DEF EncBlk
    <3>4. \A i \in 1..N(p) : ~(i > off - 1) \/ (i = off - 1 /\ FALSE) BY <2>3, <2>0, <1>0
    <3>5. ~(off - 1 < N(p)) BY <2>3, <2>0, <1>0
    <3> QED BY <3>2, <3>3, <3>4, <3>5, <2>2, <1>0 DEF EncBlk
  <2>4. CASE ~(off > N(p))
    <3>0. N(p) > 0 /\ off \in 1..N(p) /\ off \in 1..M(p) /\ off \in 1..call.wid BY <2>4, <2>0, <1>0 DEF Pk, Cells
    <3>1. Chained(Src(p), ChainOf(p), N(p), M(p)) BY <3>0, ChainFacts
    <3>2. E(buf[p][off]) = ChainOf(p)[off]
      <4>1. CASE off = N(p)
        <5>1. buf[p][off] = Src(p)[off] BY <4>1, <3>0, <2>1 DEF EncBlk
        <5> QED BY <5>1, <4>1, <3>1 DEF Chained
      <4>2. CASE off < N(p)
        <5>1. buf[p][off] = xor(Src(p)[off], ChainOf(p)[off + 1]) BY <4>2, <3>0, <2>1 DEF EncBlk
        <5>2. off \in 1..(N(p) - 1) BY <4>2, <3>0, <2>0
        <5> QED BY <5>1, <5>2, <3>1 DEF Chained
      <4> QED BY <4>1, <4>2, <3>0, <2>0
    <3>3. \A i \in 1..call.wid : buf'[p][i] = IF i = off THEN ChainOf(p)[off]
                                   ELSE IF i = off - 1 THEN xor(buf[p][i], ChainOf(p)[off])
                                   ELSE buf[p][i]
      BY <1>1, <2>4, <3>2
    <3>4. \A i \in 1..M(p) : i > N(p) => buf'[p][i] = Src(p)[i]
      <4> SUFFICES ASSUME NEW i \in 1..M(p), i > N(p) PROVE buf'[p][i] = Src(p)[i] OBVIOUS
      <4>1. i # off /\ i # off - 1 /\ i \in 1..call.wid BY <3>0, <2>0
      <4>2. buf'[p][i] = buf[p][i] BY <4>1, <3>3
      <4> QED BY <4>2, <2>1 DEF EncBlk
    <3>5. \A i \in 1..N(p) : i > off - 1 => buf'[p][i] = ChainOf(p)[i]
      <4> SUFFICES ASSUME NEW i \in 1..N(p), i > off - 1 PROVE buf'[p][i] = ChainOf(p)[i] OBVIOUS
      <4>1. i \in 1..call.wid BY <2>0 DEF Pk, Cells
      <4>2. CASE i = off BY <4>1, <4>2, <3>3
      <4>3. CASE i > off
        <5>1. buf'[p][i] = buf[p][i] BY <4>1, <4>3, <3>3, <1>0
        <5> QED BY <5>1, <4>3, <2>1 DEF EncBlk
      <4> QED BY <4>2, <4>3, <1>0
    <3>6. \A i \in 1..N(p) : i = off - 1 => buf'[p][i] = xor(Src(p)[i], ChainOf(p)[i + 1])
      <4> SUFFICES ASSUME NEW i \in 1..N(p), i = off - 1 PROVE buf'[p][i] = xor(Src(p)[i], ChainOf(p)[i + 1]) OBVIOUS
      <4>1. i \in 1..call.wid /\ i < off /\ i # off /\ i + 1 = off BY <2>0, <1>0 DEF Pk, Cells
      <4>2. buf[p][i] = Src(p)[i] BY <4>1, <2>1 DEF EncBlk
      <4> QED BY <4>1, <4>2, <3>3
    <3>7. \A i \in 1..N(p) : i < off - 1 => buf'[p][i] = Src(p)[i]
      <4> SUFFICES ASSUME NEW i \in 1..N(p), i < off - 1 PROVE buf'[p][i] = Src(p)[i] OBVIOUS
      <4>1. i \in 1..call.wid /\ i < off /\ i # off /\ i # off - 1 BY <2>0, <1>0 DEF Pk, Cells
      <4>2. buf[p][i] = Src(p)[i] BY <4>1, <2>1 DEF EncBlk
      <4> QED BY <4>1, <4>2, <3>3
    <3>8. off - 1 < N(p) /\ off - 1 # N(p) BY <3>0, <2>0
    <3> QED BY <3>4, <3>5, <3>6, <3>7, <3>8, <2>2, <1>0 DEF EncBlk
  <2> QED BY <2>3, <2>4
<1>5. Typed' BY <1>0, <1>3 DEF Typed, Inv, Pk, Cells
<1>6. PacketsRight' BY <1>0 DEF PacketsRight
<1>7. mem' = call'.src BY <1>0 DEF Inv
<1> QED BY <1>0, <1>4, <1>5, <1>6, <1>7 DEF Inv, Pk, Cells

LEMMA BlockEncDoneInv == Legal /\ Inv /\ SBlockEncDone => Inv'
<1> SUFFICES ASSUME Legal, Inv, SBlockEncDone PROVE Inv' OBVIOUS
<1>0. call' = call /\ mem' = mem /\ iv' = iv /\ buf' = buf /\ pc = "block" /\ call.op = "enc" /\ pc' = "iv"
      /\ off' = 1 /\ off = 0
  BY DEF Inv, Typed, SBlockEncDone
<1>1. \A p \in Pk : \A i \in 1..M(p) : buf[p][i] = Base(p)[i]
  <2> SUFFICES ASSUME NEW p \in Pk, NEW i \in 1..M(p) PROVE buf[p][i] = Base(p)[i] OBVIOUS
  <2>0. N(p) \in Nat /\ M(p) \in Nat BY LegalFacts
  <2>1. EncBlk(p, 0) BY <1>0 DEF Inv
  <2>2. CASE i > N(p)
    <3>1. buf[p][i] = Src(p)[i] BY <2>1, <2>2 DEF EncBlk
    <3> QED BY <3>1, <2>2, ChainFacts, <1>0 DEF Base
  <2>3. CASE ~(i > N(p))
    <3>1. i \in 1..N(p) /\ i > 0 BY <2>3, <2>0
    <3> QED BY <3>1, <2>1, <1>0 DEF EncBlk, Base
  <2> QED BY <2>2, <2>3
<1>2. (\A p \in Pk : \A i \in 1..M(p) : buf[p][i] = Base(p)[i])'
  BY <1>0, <1>1 DEF Base, M, Src, ChainOf, N, Pk, Cells
<1>3. Typed' BY <1>0 DEF Typed, Inv, Pk, Cells
<1>4. PacketsRight' BY <1>0 DEF PacketsRight
<1>5. mem' = call'.src BY <1>0 DEF Inv
<1> QED BY <1>0, <1>2, <1>3, <1>4, <1>5 DEF Inv

LEMMA SeedInv == Legal /\ Inv /\ SSeed => Inv'
<1> SUFFICES ASSUME Legal, Inv, SSeed PROVE Inv' OBVIOUS
<1>0. call' = call /\ mem' = mem /\ buf' = buf /\ pc = "iv" /\ pc' = "stream" /\ off' = 2
      /\ iv' = [p \in Pk |-> buf[p][1]]
  BY DEF Inv, SSeed
<1>1. iv' \in [Pk -> V]
  <2>1. \A p \in Pk : buf[p][1] \in V
    <3> SUFFICES ASSUME NEW p \in Pk PROVE buf[p][1] \in V OBVIOUS
    <3>1. 1 \in 1..call.wid BY DEF Legal
    <3> QED BY <3>1 DEF Inv, Typed
  <2> QED BY <2>1, <1>0
<1>2. \A p \in Pk : Streamed(p, off)'
  <2> SUFFICES ASSUME NEW p \in Pk PROVE Streamed(p, off)' BY <1>0
  <2>0. M(p) \in Nat BY LegalFacts
  <2>1. \A i \in 1..M(p) : buf[p][i] = Base(p)[i] /\ ~(2 <= i /\ i < 2) BY <1>0 DEF Inv
  <2>2. M(p) > 0 => iv'[p] = Base(p)[1]
    <3> HAVE M(p) > 0
    <3>1. 1 \in 1..M(p) BY <2>0
    <3> QED BY <3>1, <2>1, <1>0
  <2>3. M(p)' = M(p) /\ Base(p)' = Base(p) BY <1>0 DEF M, Base, Src, ChainOf, N
  <2> QED BY <2>1, <2>2, <2>3, <1>0 DEF Streamed
<1>3. Typed' BY <1>0, <1>1 DEF Typed, Inv, Pk, Cells
<1>4. PacketsRight' BY <1>0 DEF PacketsRight
<1>5. mem' = call'.src BY <1>0 DEF Inv
<1> QED BY <1>0, <1>2, <1>3, <1>4, <1>5 DEF Inv, Pk, Cells

LEMMA StreamInv == Legal /\ Inv /\ SStream => Inv'
<1> SUFFICES ASSUME Legal, Inv, SStream PROVE Inv' OBVIOUS
<1>0. call' = call /\ mem' = mem /\ iv' = iv /\ pc = "stream" /\ pc' = "stream" /\ off' = off + 1
      /\ off >= 2 /\ off <= call.lim /\ off \in Int
      /\ buf' = [p \in Pk |-> [i \in 1..call.wid |-> IF i = off THEN xor(buf[p][i], K(iv[p], i)) ELSE buf[p][i]]]
  BY DEF Inv, Typed, SStream
<1>1. buf' \in [Pk -> [1..call.wid -> V]]
  <2>1. \A p \in Pk : \A i \in 1..call.wid : (IF i = off THEN xor(buf[p][i], K(iv[p], i)) ELSE buf[p][i]) \in V
    <3> SUFFICES ASSUME NEW p \in Pk, NEW i \in 1..call.wid
                 PROVE (IF i = off THEN xor(buf[p][i], K(iv[p], i)) ELSE buf[p][i]) \in V OBVIOUS
    <3>1. buf[p][i] \in V /\ iv[p] \in V /\ i \in Nat BY DEF Inv, Typed
    <3>2. K(iv[p], i) \in V BY <3>1, Stream
    <3> QED BY <3>1, <3>2, GroupL
  <2> QED BY <2>1, <1>0
<1>2. \A p \in Pk : Streamed(p, off)'
  <2> SUFFICES ASSUME NEW p \in Pk PROVE Streamed(p, off)' BY <1>0
  <2>0. M(p) \in Nat /\ M(p) <= call.wid /\ call.wid \in Nat BY LegalFacts
  <2>1. Streamed(p, off) BY <1>0 DEF Inv
  <2>2. M(p)' = M(p) /\ Base(p)' = Base(p) BY <1>0 DEF M, Base, Src, ChainOf, N
  <2>3. \A i \in 1..M(p) : buf'[p][i] = IF 2 <= i /\ i < off + 1 THEN xor(Base(p)[i], K(Base(p)[1], i)) ELSE Base(p)[i]
    <3> SUFFICES ASSUME NEW i \in 1..M(p)
        PROVE buf'[p][i] = IF 2 <= i /\ i < off + 1 THEN xor(Base(p)[i], K(Base(p)[1], i)) ELSE Base(p)[i] OBVIOUS
    <3>1. i \in 1..call.wid /\ M(p) > 0 BY <2>0 DEF Pk, Cells
    <3>2. buf'[p][i] = IF i = off THEN xor(buf[p][i], K(iv[p], i)) ELSE buf[p][i] BY <3>1, <1>0
    <3>3. iv[p] = Base(p)[1] BY <3>1, <2>1 DEF Streamed
    <3>4. CASE i = off
      <4>1. buf[p][i] = Base(p)[i] BY <3>4, <2>1, <1>0 DEF Streamed
      <4> QED BY <3>2, <3>3, <3>4, <4>1, <1>0
    <3>5. CASE i # off
      <4>1. (2 <= i /\ i < off + 1) <=> (2 <= i /\ i < off) BY <3>5, <1>0
      <4> QED BY <3>2, <3>5, <4>1, <2>1 DEF Streamed
    <3> QED BY <3>4, <3>5
  <2>4. M(p) > 0 => iv'[p] = Base(p)[1] BY <1>0, <2>1 DEF Streamed
  <2> QED BY <2>2, <2>3, <2>4, <1>0 DEF Streamed
<1>3. Typed' BY <1>0, <1>1 DEF Typed, Inv, Pk, Cells
<1>4. PacketsRight' BY <1>0 DEF PacketsRight
<1>5. mem' = call'.src BY <1>0 DEF Inv
<1> QED BY <1>0, <1>2, <1>3, <1>4, <1>5 DEF Inv, Pk, Cells

LEMMA StreamDoneInv == Legal /\ Inv /\ SStreamDone => Inv'
<1> SUFFICES ASSUME Legal, Inv, SStreamDone PROVE Inv' OBVIOUS
<1>0. call' = call /\ mem' = mem /\ iv' = iv /\ buf' = buf /\ pc = "stream" /\ off' = 1
      /\ pc' = (IF call.op = "enc" THEN "store" ELSE "block")
      /\ off >= 2 /\ off > call.lim /\ off \in Int
  BY DEF Inv, Typed, SStreamDone
<1>1. \A p \in Pk : \A i \in 1..M(p) : buf[p][i] = Msk(Base(p), M(p))[i]
  <2> SUFFICES ASSUME NEW p \in Pk, NEW i \in 1..M(p) PROVE buf[p][i] = Msk(Base(p), M(p))[i] OBVIOUS
  <2>0. M(p) \in Nat /\ M(p) <= call.lim /\ call.lim \in Nat BY LegalFacts
  <2>1. Streamed(p, off) BY <1>0 DEF Inv
  <2>2. i < off BY <2>0, <1>0 DEF Pk, Cells
  <2> QED BY <2>1, <2>2 DEF Streamed, Msk
<1>2. Typed' BY <1>0 DEF Typed, Inv, Pk, Cells
<1>3. PacketsRight' BY <1>0 DEF PacketsRight
<1>4. mem' = call'.src BY <1>0 DEF Inv
<1>5. CASE call.op = "enc"
  <2>1. (\A p \in Pk : \A i \in 1..M(p) : buf[p][i] = Msk(Base(p), M(p))[i])'
    BY <1>0, <1>1 DEF Base, M, Src, ChainOf, N, Pk, Cells
  <2> QED BY <1>0, <1>2, <1>3, <1>4, <1>5, <2>1 DEF Inv
<1>6. CASE call.op = "dec"
  <2>1. \A p \in Pk : DecBlk(p, off)'
    <3> SUFFICES ASSUME NEW p \in Pk PROVE DecBlk(p, off)' BY <1>0
    <3>1. \A i \in 1..M(p) : i >= 1 /\ buf[p][i] = Cip(p)[i] BY <1>1, <1>6 DEF Base, Cip
    <3>2. M(p)' = M(p) /\ N(p)' = N(p) /\ Cip(p)' = Cip(p) BY <1>0 DEF M, N, Cip, Src
    <3> QED BY <3>1, <3>2, <1>0 DEF DecBlk
  <2> QED BY <1>0, <1>2, <1>3, <1>4, <1>6, <2>1 DEF Inv, Pk, Cells
<1> QED BY <1>5, <1>6 DEF Legal

LEMMA BlockDecInv == Legal /\ Inv /\ SBlockDec => Inv'
<1> SUFFICES ASSUME Legal, Inv, SBlockDec PROVE Inv' OBVIOUS
<1>0. call' = call /\ mem' = mem /\ iv' = iv /\ pc' = pc /\ pc = "block" /\ call.op = "dec"
      /\ off' = off + 1 /\ off >= 1 /\ off <= call.lim /\ off \in Int /\ call.lim \in Nat
  BY DEF Inv, Typed, SBlockDec, Legal
<1>1. \A p \in Pk : /\ off > N(p) => buf'[p] = buf[p]
                    /\ ~(off > N(p)) => buf'[p] = [i \in 1..call.wid |->
                       IF i = off THEN D(buf[p][off])
                       ELSE IF i = off - 1 THEN xor(buf[p][i], buf[p][off])
                       ELSE buf[p][i]]
  BY DEF SBlockDec, N
<1>2. \A p \in Pk : buf'[p] \in [1..call.wid -> V]
  <2> SUFFICES ASSUME NEW p \in Pk PROVE buf'[p] \in [1..call.wid -> V] OBVIOUS
  <2>1. buf[p] \in [1..call.wid -> V] BY DEF Inv, Typed
  <2>2. off \in 1..call.wid BY <1>0 DEF Legal
  <2>3. D(buf[p][off]) \in V BY <2>1, <2>2, Block
  <2>4. \A i \in 1..call.wid : xor(buf[p][i], buf[p][off]) \in V BY <2>1, <2>2, GroupL
  <2> QED BY <1>1, <2>1, <2>3, <2>4
<1>3. buf' \in [Pk -> [1..call.wid -> V]]
  <2>1. buf' = [p \in Pk |-> buf'[p]] BY DEF SBlockDec
  <2> QED BY <2>1, <1>2
<1>4. \A p \in Pk : DecBlk(p, off)'
  <2> SUFFICES ASSUME NEW p \in Pk PROVE DecBlk(p, off)' BY <1>0
  <2>0. N(p) \in Nat /\ M(p) \in Nat /\ N(p) <= M(p) /\ M(p) <= call.wid /\ call.wid \in Nat /\ M(p) <= N(p) + 1 BY LegalFacts
  <2>1. DecBlk(p, off) BY <1>0 DEF Inv
  <2>2. N(p)' = N(p) /\ M(p)' = M(p) /\ Cip(p)' = Cip(p) BY <1>0 DEF N, M, Src, Cip
  <2>5. \A i \in 1..M(p) : buf'[p][i] = IF i > N(p) \/ i >= off + 1 THEN Cip(p)[i]
                 ELSE IF i + 1 < off + 1 /\ i < N(p) THEN xor(D(Cip(p)[i]), Cip(p)[i + 1])
                 ELSE D(Cip(p)[i])
    <3> SUFFICES ASSUME NEW i \in 1..M(p)
        PROVE buf'[p][i] = IF i > N(p) \/ i >= off + 1 THEN Cip(p)[i]
                 ELSE IF i + 1 < off + 1 /\ i < N(p) THEN xor(D(Cip(p)[i]), Cip(p)[i + 1])
                 ELSE D(Cip(p)[i])
      OBVIOUS
    <3>0. i \in 1..call.wid BY <2>0 DEF Pk, Cells
    <3>1. buf[p][i] = IF i > N(p) \/ i >= off THEN Cip(p)[i]
                 ELSE IF i + 1 < off /\ i < N(p) THEN xor(D(Cip(p)[i]), Cip(p)[i + 1])
                 ELSE D(Cip(p)[i])
      BY <2>1 DEF DecBlk
    <3>2. CASE off > N(p)
      <4>1. buf'[p][i] = buf[p][i] BY <3>2, <1>1
      <4>2. CASE i > N(p) BY <4>1, <4>2, <3>1
      <4>3. CASE ~(i > N(p))
        <5>1. ~(i >= off) /\ ~(i >= off + 1) BY <4>3, <3>2, <2>0, <1>0
        <5>2. (i + 1 < off /\ i < N(p)) <=> (i + 1 < off + 1 /\ i < N(p)) BY <4>3, <3>2, <2>0, <1>0
        <5> QED BY <4>1, <4>3, <5>1, <5>2, <3>1
      <4> QED BY <4>2, <4>3
    <3>3. CASE ~(off > N(p))
      <4>0. off \in 1..M(p) /\ off \in 1..call.wid /\ off <= N(p) BY <3>3, <2>0, <1>0 DEF Pk, Cells
      <4>1. buf[p][off] = Cip(p)[off] BY <4>0, <2>1, <1>0 DEF DecBlk
      <4>2. buf'[p][i] = IF i = off THEN D(Cip(p)[off])
                         ELSE IF i = off - 1 THEN xor(buf[p][i], Cip(p)[off]) ELSE buf[p][i]
        BY <3>3, <3>0, <4>1, <1>1
      <4>3. CASE i = off
        <5>1. ~(i > N(p)) /\ ~(i >= off + 1) /\ ~(i + 1 < off + 1) BY <4>3, <4>0, <2>0, <1>0
        <5> QED BY <5>1, <4>2, <4>3
      <4>4. CASE i = off - 1
        <5>1. i # off /\ ~(i > N(p)) /\ ~(i >= off) /\ ~(i >= off + 1) /\ ~(i + 1 < off) /\ i + 1 < off + 1 /\ i < N(p) /\ i + 1 = off
          BY <4>4, <4>0, <2>0, <1>0
        <5>2. buf[p][i] = D(Cip(p)[i]) BY <5>1, <3>1
        <5> QED BY <5>1, <5>2, <4>2, <4>4
      <4>5. CASE i # off /\ i # off - 1
        <5>1. buf'[p][i] = buf[p][i] BY <4>2, <4>5
        <5>2. (i >= off) <=> (i >= off + 1) BY <4>5, <1>0
        <5>3. (~(i >= off) /\ i + 1 < off) <=> (~(i >= off + 1) /\ i + 1 < off + 1) BY <4>5, <1>0
        <5> QED BY <5>1, <5>2, <5>3, <3>1, <4>5, <1>0
      <4> QED BY <4>3, <4>4, <4>5
    <3> QED BY <3>2, <3>3
  <2> QED BY <2>5, <2>2, <1>0 DEF DecBlk
<1>5. Typed' BY <1>0, <1>3 DEF Typed, Inv, Pk, Cells
<1>6. PacketsRight' BY <1>0 DEF PacketsRight
<1>7. mem' = call'.src BY <1>0 DEF Inv
<1>8. off' >= 1 BY <1>0
<1> QED BY <1>0, <1>4, <1>5, <1>6, <1>7, <1>8 DEF Inv, Pk, Cells

LEMMA BlockDecDoneInv == Legal /\ Inv /\ SBlockDecDone => Inv'
<1> SUFFICES ASSUME Legal, Inv, SBlockDecDone PROVE Inv' OBVIOUS
<1>0. call' = call /\ mem' = mem /\ iv' = iv /\ buf' = buf /\ pc = "block" /\ call.op = "dec" /\ pc' = "store"
      /\ off' = 1 /\ off > call.lim /\ off \in Int /\ call.lim \in Nat
  BY DEF Inv, Typed, SBlockDecDone, Legal
<1>1. \A p \in Pk : DecBlk(p, call.lim + 1)
  <2> SUFFICES ASSUME NEW p \in Pk PROVE DecBlk(p, call.lim + 1) OBVIOUS
  <2>0. N(p) \in Nat /\ M(p) \in Nat /\ M(p) <= call.lim /\ N(p) <= M(p) BY LegalFacts
  <2>1. DecBlk(p, off) BY <1>0 DEF Inv
  <2>2. \A i \in 1..M(p) : /\ ~(i >= off) /\ ~(i >= call.lim + 1)
                           /\ (i + 1 < off /\ i < N(p)) <=> (i + 1 < call.lim + 1 /\ i < N(p))
    BY <2>0, <1>0
  <2> QED BY <2>1, <2>2 DEF DecBlk
<1>2. \A p \in Pk : DecBlk(p, call.lim + 1)'
  BY <1>0, <1>1 DEF DecBlk, M, N, Cip, Src
<1>3. Typed' BY <1>0 DEF Typed, Inv, Pk, Cells
<1>4. PacketsRight' BY <1>0 DEF PacketsRight
<1>5. mem' = call'.src BY <1>0 DEF Inv
<1> QED BY <1>0, <1>2, <1>3, <1>4, <1>5 DEF Inv, Pk, Cells

LEMMA StoreInv == Legal /\ Inv /\ SStore => Inv'
<1> SUFFICES ASSUME Legal, Inv, SStore PROVE Inv' OBVIOUS
<1>0. call' = call /\ iv' = iv /\ buf' = buf /\ pc = "store" /\ pc' = "done" /\ off' = off /\ mem = call.src
      /\ mem' = [p \in Pk |-> [i \in Cells(p) |-> IF i <= call.m[p] THEN buf[p][i] ELSE mem[p][i]]]
  BY DEF Inv, SStore
<1>1. \A p \in Pk : Right(p)'
  <2> SUFFICES ASSUME NEW p \in Pk PROVE Right(p)' BY <1>0
  <2>0. /\ N(p) \in Nat /\ M(p) \in Nat /\ M(p) <= call.lim /\ N(p) <= M(p) /\ M(p) <= N(p) + 1
        /\ 1..M(p) \subseteq Cells(p) /\ Cells(p) \subseteq Nat \ {0} /\ call.lim \in Nat
        /\ Src(p) \in [1..M(p) -> V]
        /\ \A i \in 1..M(p) : Src(p)[i] = call.src[p][i]
    BY LegalFacts
  <2>1. \A i \in Cells(p) : i > M(p) => mem'[p][i] = call.src[p][i]
    BY <1>0, <2>0 DEF M
  <2>2. \A i \in 1..M(p) : mem'[p][i] = buf[p][i]
    <3> SUFFICES ASSUME NEW i \in 1..M(p) PROVE mem'[p][i] = buf[p][i] OBVIOUS
    <3>1. i \in Cells(p) /\ i <= call.m[p] BY <2>0 DEF M
    <3> QED BY <3>1, <1>0
  <2> DEFINE R == Part(mem'[p], M(p))
  <2>3. \A i \in 1..M(p) : R[i] = buf[p][i] BY <2>2 DEF Part
  <2>4. R = [i \in 1..M(p) |-> R[i]] BY DEF Part
  <2>5. CASE call.op = "enc"
    <3>1. \A i \in 1..M(p) : buf[p][i] = Msk(ChainOf(p), M(p))[i] BY <1>0, <2>5 DEF Inv, Base
    <3>2. N(p) = 0 => \A i \in Cells(p) : mem'[p][i] = call.src[p][i]
      <4> SUFFICES ASSUME N(p) = 0, NEW i \in Cells(p) PROVE mem'[p][i] = call.src[p][i] OBVIOUS
      <4>1. CASE i > M(p) BY <4>1, <2>1
      <4>2. CASE ~(i > M(p))
        <5>1. i = 1 /\ i \in 1..M(p) BY <4>2, <2>0
        <5>2. buf[p][1] = ChainOf(p)[1] BY <5>1, <3>1 DEF Msk
        <5>3. ChainOf(p)[1] = Src(p)[1] BY DEF ChainOf
        <5> QED BY <5>1, <5>2, <5>3, <2>2, <2>0
      <4> QED BY <4>1, <4>2
    <3>3. N(p) > 0 => Scrambled(Src(p), R, N(p), M(p))
      <4> HAVE N(p) > 0
      <4>1. Chained(Src(p), ChainOf(p), N(p), M(p)) /\ ChainOf(p) \in [1..M(p) -> V] BY ChainFacts
      <4>2. \A i \in 1..M(p) : R[i] = IF i = 1 THEN ChainOf(p)[1] ELSE xor(ChainOf(p)[i], K(ChainOf(p)[1], i))
        BY <2>3, <3>1 DEF Msk
      <4>3. 1 \in 1..M(p) BY <2>0
      <4>4. \A i \in 1..M(p) : R[i] \in V
        <5> SUFFICES ASSUME NEW i \in 1..M(p) PROVE R[i] \in V OBVIOUS
        <5>1. ChainOf(p)[1] \in V /\ ChainOf(p)[i] \in V /\ K(ChainOf(p)[1], i) \in V BY <4>1, <4>3, Stream
        <5> QED BY <5>1, <4>2, GroupL
      <4> HIDE DEF R
      <4>5. R \in [1..M(p) -> V] BY <4>4, <2>4
      <4>6. \A i \in 2..M(p) : i \in 1..M(p) /\ i # 1 OBVIOUS
      <4>7. Masked(ChainOf(p), R, M(p)) BY <4>2, <4>3, <4>5, <4>6 DEF Masked
      <4> QED BY <4>1, <4>7 DEF Scrambled
    <3>4. N(p)' = N(p) /\ M(p)' = M(p) /\ Src(p)' = Src(p) /\ call'.op = "enc" BY <1>0, <2>5 DEF N, M, Src
    <3> HIDE DEF R
    <3> QED BY <2>1, <3>2, <3>3, <3>4, <1>0, <2>5, <2>0 DEF Right, N, M, Src, R, Pk, Cells
  <2>6. CASE call.op = "dec"
    <3>1. DecBlk(p, call.lim + 1) BY <1>0, <2>6 DEF Inv
    <3>2. \A i \in 1..M(p) : R[i] = IF i > N(p) THEN Cip(p)[i]
                                  ELSE IF i < N(p) THEN xor(D(Cip(p)[i]), Cip(p)[i + 1])
                                  ELSE D(Cip(p)[i])
      <4> SUFFICES ASSUME NEW i \in 1..M(p)
          PROVE R[i] = IF i > N(p) THEN Cip(p)[i]
                                  ELSE IF i < N(p) THEN xor(D(Cip(p)[i]), Cip(p)[i + 1])
                                  ELSE D(Cip(p)[i]) OBVIOUS
      <4>1. ~(i >= call.lim + 1) /\ (i < N(p) => i + 1 < call.lim + 1) BY <2>0
      <4> QED BY <4>1, <3>1, <2>3 DEF DecBlk
    <3>3. N(p) = 0 => \A i \in Cells(p) : mem'[p][i] = call.src[p][i]
      <4> SUFFICES ASSUME N(p) = 0, NEW i \in Cells(p) PROVE mem'[p][i] = call.src[p][i] OBVIOUS
      <4>1. CASE i > M(p) BY <4>1, <2>1
      <4>2. CASE ~(i > M(p))
        <5>1. i = 1 /\ i \in 1..M(p) BY <4>2, <2>0
        <5>2. R[1] = Cip(p)[1] BY <5>1, <3>2
        <5>3. Cip(p)[1] = Src(p)[1] BY <5>1 DEF Cip, Msk
        <5> QED BY <5>1, <5>2, <5>3, <2>2, <2>3, <2>0
      <4> QED BY <4>1, <4>2
    <3>4. N(p) > 0 => Descrambled(Src(p), R, N(p), M(p))
      <4> HAVE N(p) > 0
      <4>1. Cip(p) \in [1..M(p) -> V] /\ 1 \in 1..M(p) /\ N(p) \in 1..M(p) BY CipFacts, <2>0
      <4>2. Masked(Src(p), Cip(p), M(p))
        <5>1. \A i \in 2..M(p) : i \in 1..M(p) /\ i # 1 OBVIOUS
        <5>2. Cip(p)[1] = Src(p)[1] BY <4>1 DEF Cip, Msk
        <5>3. \A i \in 2..M(p) : Cip(p)[i] = xor(Src(p)[i], K(Src(p)[1], i)) BY <5>1 DEF Cip, Msk
        <5> QED BY <4>1, <5>2, <5>3 DEF Masked
      <4>3. \A i \in 1..M(p) : R[i] \in V
        <5> SUFFICES ASSUME NEW i \in 1..M(p) PROVE R[i] \in V OBVIOUS
        <5>1. Cip(p)[i] \in V /\ D(Cip(p)[i]) \in V BY <4>1, Block
        <5>2. i < N(p) => i + 1 \in 1..M(p) BY <2>0
        <5>3. i < N(p) => Cip(p)[i + 1] \in V BY <4>1, <5>2
        <5> QED BY <5>1, <5>3, <3>2, GroupL
      <4>4. R[N(p)] = D(Cip(p)[N(p)]) BY <4>1, <3>2, <2>0
      <4>5. \A i \in 1..(N(p) - 1) : R[i] = xor(D(Cip(p)[i]), Cip(p)[i + 1])
        <5> SUFFICES ASSUME NEW i \in 1..(N(p) - 1) PROVE R[i] = xor(D(Cip(p)[i]), Cip(p)[i + 1]) OBVIOUS
        <5>1. i \in 1..M(p) /\ i < N(p) /\ ~(i > N(p)) BY <2>0
        <5> QED BY <5>1, <3>2
      <4>6. M(p) = N(p) + 1 => R[M(p)] = Cip(p)[M(p)]
        <5> HAVE M(p) = N(p) + 1
        <5>1. M(p) \in 1..M(p) /\ M(p) > N(p) BY <2>0
        <5> QED BY <5>1, <3>2
      <4> HIDE DEF R
      <4>7. R \in [1..M(p) -> V] BY <4>3, <2>4
      <4>8. Unchained(Cip(p), R, N(p), M(p)) BY <4>4, <4>5, <4>6, <4>7 DEF Unchained
      <4> QED BY <4>2, <4>8 DEF Descrambled
    <3> HIDE DEF R
    <3> QED BY <2>1, <3>3, <3>4, <1>0, <2>6, <2>0 DEF Right, N, M, Src, R, Pk, Cells
  <2> QED BY <2>5, <2>6 DEF Legal
<1>2. PacketsRight' BY <1>0, <1>1 DEF PacketsRight, Pk, Cells
<1>3. Typed' BY <1>0 DEF Typed, Inv, Pk, Cells
<1> QED BY <1>0, <1>2, <1>3 DEF Inv

(* The inductive invariant holds throughout every call; so in the end every    *)
(* packet is right.                                                            *)
THEOREM Correct == SSpec /\ Legal => [](Inv /\ Legal)
<1>1. SInit /\ Legal => Inv /\ Legal BY InitInv
<1>2. (Inv /\ Legal) /\ [SNext]_svars => (Inv /\ Legal)'
  <2> SUFFICES ASSUME Inv, Legal, [SNext]_svars PROVE Inv' /\ Legal' OBVIOUS
  <2>1. call' = call BY NextKeepsCall DEF svars
  <2>2. Legal' BY <2>1 DEF Legal, Pk, Cells
  <2>3. CASE SNext
    BY <2>2, <2>3, LoadInv, BlockEncInv, BlockEncDoneInv, SeedInv, StreamInv, StreamDoneInv, BlockDecInv, BlockDecDoneInv, StoreInv DEF SNext, Pk, Cells
  <2>4. CASE UNCHANGED svars
    <3>0. call' = call /\ mem' = mem /\ buf' = buf /\ iv' = iv /\ pc' = pc /\ off' = off BY <2>4 DEF svars
    <3>1. Typed' BY <3>0 DEF Inv, Typed, Pk
    <3>2. PacketsRight'
      <4>1. \A p : Right(p)' = Right(p) BY <3>0 DEF Right, Cells
      <4> QED BY <3>0, <4>1 DEF Inv, PacketsRight, Pk
    <3>3. /\ \A p : EncBlk(p, off)' = EncBlk(p, off)
          /\ \A p : Streamed(p, off)' = Streamed(p, off)
          /\ \A p : DecBlk(p, off)' = DecBlk(p, off)
          /\ \A p : DecBlk(p, call.lim + 1)' = DecBlk(p, call.lim + 1)
      BY <3>0 DEF EncBlk, Streamed, DecBlk, Cip, Base, Src, ChainOf, N, M
    <3>4. \A p : Base(p)' = Base(p) /\ M(p)' = M(p) BY <3>0 DEF Base, Src, ChainOf, N, M
    <3>5. (pc = "block" /\ call.op = "enc") => \A p \in Pk : EncBlk(p, off)' BY <3>3 DEF Inv
    <3>6. (pc = "block" /\ call.op = "dec") => \A p \in Pk : DecBlk(p, off)' BY <3>3 DEF Inv
    <3>7. pc = "stream" => \A p \in Pk : Streamed(p, off)' BY <3>3 DEF Inv
    <3>8. (pc = "store" /\ call.op = "dec") => \A p \in Pk : DecBlk(p, call.lim + 1)' BY <3>3 DEF Inv
    <3> QED BY <2>2, <3>0, <3>1, <3>2, <3>3, <3>4, <3>5, <3>6, <3>7, <3>8 DEF Inv, Pk
  <2> QED BY <2>2, <2>3, <2>4
<1> QED BY <1>1, <1>2, PTL DEF SSpec

THEOREM EveryPacketRight == SSpec /\ Legal => []PacketsRight
<1>1. Inv /\ Legal => PacketsRight BY DEF Inv
<1> QED BY <1>1, Correct, PTL
=============================================================================
