--------------------------- MODULE CsaThreadsProof ---------------------------
EXTENDS CsaThreads, TLAPS

(* Whatever the others do, and however the steps are interleaved, thread t   *)
(* stays in every set closed under its own steps.                            *)
THEOREM AsIfAlone ==
  ASSUME NEW t \in Thr, NEW S, Closed(t, S)
  PROVE  TSpec => [](sh = Common /\ prv[t] \in S)
<1> DEFINE I == sh = Common /\ prv[t] \in S /\ prv = [u \in Thr |-> prv[u]]
<1>1. TInit => I BY DEF TInit, Closed
<1>2. I /\ [TNext]_tvars => I'
  <2> SUFFICES ASSUME I, [TNext]_tvars PROVE I' OBVIOUS
  <2>1. CASE UNCHANGED tvars BY <2>1 DEF tvars
  <2>2. CASE TNext
    <3>1. PICK u \in Thr : TStep(u) BY <2>2 DEF TNext
    <3>2. sh' = Common BY <3>1 DEF TStep
    <3>3. prv' = [v \in Thr |-> prv'[v]] BY <3>1 DEF TStep
    <3>4. CASE u = t BY <3>1, <3>2, <3>3, <3>4 DEF TStep, Closed
    <3>5. CASE u # t
      <4>1. prv'[t] = prv[t] BY <3>1, <3>5 DEF TStep
      <4> QED BY <4>1, <3>2, <3>3
    <3> QED BY <3>4, <3>5
  <2> QED BY <2>1, <2>2
<1>3. I => sh = Common /\ prv[t] \in S OBVIOUS
<1> QED BY <1>1, <1>2, <1>3, PTL DEF TSpec
=============================================================================
