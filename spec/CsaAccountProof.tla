-------------------------- MODULE CsaAccountProof ---------------------------
(* C20, for payloads, batches, limits and descriptor lengths of any size: the   *)
(* machine's work never exceeds its closed form, ends with it exactly, and it    *)
(* never uses more than one frame.  The descriptors' lengths do not occur.       *)
EXTENDS CsaAccount, TLAPS

ASSUME Shapes == Lens \subseteq Nat /\ Counts \subseteq Nat /\ Limits \subseteq Nat /\ Longest \subseteq Nat /\ Bug = ""

All == IF call.op = "single" THEN Blocks ELSE call.m8
N == IF call.op = "batch" THEN call.n ELSE 0
Busy == call.op = "batch" \/ (call.op = "single" /\ Blocks > 0)
Spent ==
  IF pc = "enter" THEN 0
  ELSE IF pc = "load" THEN 1 + i
  ELSE IF pc = "block" THEN 1 + N + (IF call.enc THEN 0 ELSE Cells) + i
  ELSE IF pc = "stream" THEN 1 + N + (IF call.enc THEN All ELSE 0) + i
  ELSE IF pc = "store" THEN 1 + N + All + Cells + i
  ELSE Expected

Inv ==
  /\ call \in Calls
  /\ pc \in {"enter", "load", "block", "stream", "store", "leave", "done"}
  /\ i \in Nat
  /\ pc \in {"load", "store"} => call.op = "batch" /\ i <= call.n
  /\ pc = "block" => Busy /\ i <= All
  /\ pc = "stream" => Busy /\ i <= Cells
  /\ work = Spent
  /\ frames = (IF pc \in {"enter", "done"} THEN 0 ELSE 1)
  /\ peak = (IF pc = "enter" THEN 0 ELSE 1)

LEMMA Div == \A l \in Nat : l \div 8 \in Nat /\ l % 8 \in 0..7
  OBVIOUS

LEMMA Kinds ==
  ASSUME call \in Calls
  PROVE  /\ call.op \in {"single", "batch", "set"}
         /\ call.op = "single" => call.enc \in BOOLEAN /\ call.len \in Nat /\ Blocks \in Nat
         /\ call.op = "batch" => call.enc \in BOOLEAN /\ call.n \in Nat /\ call.m8 \in Nat /\ call.len \in Nat
<1>1. CASE call \in [op : {"single"}, enc : BOOLEAN, len : Lens] BY <1>1, Shapes, Div DEF Blocks
<1>2. CASE call \in [op : {"batch"}, enc : BOOLEAN, n : Counts, m8 : Limits, len : Longest] BY <1>2, Shapes
<1>3. CASE call \in [op : {"set"}] BY <1>3
<1> QED BY <1>1, <1>2, <1>3 DEF Calls

LEMMA Sums ==
  ASSUME call \in Calls
  PROVE  /\ N \in Nat
         /\ Busy => All \in Nat /\ Cells \in Nat /\ call.enc \in BOOLEAN /\ Expected = 1 + 2 * N + All + Cells
         /\ ~Busy => Expected = 1
         /\ Expected \in Nat
<1>1. CASE call.op = "single"
  <2>1. call.len \in Nat /\ Blocks \in Nat /\ call.len % 8 \in 0..7 BY <1>1, Kinds, Div
  <2>2. Expected = SingleWork(call.len) BY <1>1 DEF Expected
  <2>3. CASE Blocks = 0 BY <1>1, <2>1, <2>2, <2>3 DEF SingleWork, Blocks, N, Busy
  <2>4. CASE Blocks > 0
    <3>1. Expected = 1 + (Blocks + (Blocks - 1) + (IF call.len % 8 > 0 THEN 1 ELSE 0)) BY <1>1, <2>1, <2>2, <2>4 DEF SingleWork, Blocks
    <3>2. Cells = Blocks - 1 + (IF call.len % 8 > 0 THEN 1 ELSE 0) BY <1>1 DEF Cells
    <3>3. N = 0 /\ All = Blocks /\ Busy BY <1>1, <2>4 DEF N, All, Busy
    <3>4. call.enc \in BOOLEAN BY <1>1, Kinds
    <3> QED BY <2>1, <2>4, <3>1, <3>2, <3>3, <3>4
  <2> QED BY <2>1, <2>3, <2>4
<1>2. CASE call.op = "batch"
  <2>1. call.n \in Nat /\ call.m8 \in Nat /\ call.enc \in BOOLEAN BY <1>2, Kinds
  <2>2. Expected = BatchWork(call.n, call.m8) BY <1>2 DEF Expected
  <2>3. N = call.n /\ All = call.m8 /\ Cells = Max(call.m8 - 1, 0) /\ Busy BY <1>2 DEF N, All, Cells, Busy
  <2>4. Max(call.m8 - 1, 0) \in Nat BY <2>1 DEF Max
  <2> QED BY <2>1, <2>2, <2>3, <2>4 DEF BatchWork
<1>3. CASE call.op = "set"
  BY <1>3 DEF Expected, SetWork, N, Busy
<1> QED BY <1>1, <1>2, <1>3, Kinds

THEOREM Invariant == Spec => []Inv
<1>1. Init => Inv
  BY DEF Init, Inv, Spent
<1>2. Inv /\ [Next]_vars => Inv'
  <2> SUFFICES ASSUME Inv, [Next]_vars PROVE Inv' OBVIOUS
  <2>0. call \in Calls /\ i \in Nat /\ Bug = "" BY Shapes DEF Inv
  <2>k. /\ call.op \in {"single", "batch", "set"} /\ N \in Nat /\ Expected \in Nat
        /\ Busy => All \in Nat /\ Cells \in Nat /\ call.enc \in BOOLEAN /\ Expected = 1 + 2 * N + All + Cells
        /\ ~Busy => Expected = 1
        BY <2>0, Kinds, Sums
  <2>s. call' = call => N' = N /\ All' = All /\ Cells' = Cells /\ (Busy <=> Busy') /\ Expected' = Expected
        BY DEF N, All, Cells, Busy, Expected, Blocks
  <2>b. call.op = "batch" => Busy /\ N = call.n /\ N \in Nat BY <2>k DEF Busy, N
  <2>n. call.op # "batch" => N = 0 BY DEF N
  <2>1. CASE UNCHANGED vars
    BY <2>1, <2>s DEF vars, Inv, Spent
  <2>2. CASE Enter
    <3>1. call' = call /\ i' = 0 /\ work = 0 /\ work' = 1 /\ frames' = 1 /\ peak' = 1
      BY <2>2 DEF Enter, Frame, Pay, Max, Inv, Spent
    <3>2. CASE call.op = "set"
      <4>1. pc' = "leave" /\ ~Busy BY <2>2, <3>2 DEF Enter, Busy
      <4> QED BY <3>1, <4>1, <2>k, <2>s, <2>0 DEF Inv, Spent
    <3>3. CASE call.op = "single" /\ Blocks = 0
      <4>1. pc' = "leave" /\ ~Busy BY <2>2, <3>3 DEF Enter, Busy
      <4> QED BY <3>1, <4>1, <2>k, <2>s, <2>0 DEF Inv, Spent
    <3>4. CASE call.op = "single" /\ Blocks # 0
      <4>0. Blocks \in Nat BY <3>4, <2>0, Kinds
      <4>1. pc' = (IF call.enc THEN "block" ELSE "stream") /\ Busy BY <2>2, <3>4, <4>0 DEF Enter, Busy
      <4> QED BY <3>1, <3>4, <4>1, <2>k, <2>s, <2>0, <2>n DEF Inv, Spent
    <3>5. CASE call.op = "batch"
      <4>1. pc' = "load" BY <2>2, <3>5 DEF Enter
      <4> QED BY <3>1, <3>5, <4>1, <2>k, <2>s, <2>0, <2>b DEF Inv, Spent
    <3> QED BY <2>k, <3>2, <3>3, <3>4, <3>5
  <2>3. CASE Block
    <3>0. pc = "block" /\ Busy /\ i <= All /\ call' = call /\ frames = 1 /\ peak = 1 /\ work = 1 + N + (IF call.enc THEN 0 ELSE Cells) + i
      BY <2>3 DEF Block, Inv, Spent
    <3>1. CASE i < All
      <4>1. i' = i + 1 /\ pc' = "block" /\ work' = work + 1 /\ frames' = 1 /\ peak' = 1
        BY <2>3, <2>0, <2>k, <3>0, <3>1 DEF Block, Pay, Frame, Max, All, Busy
      <4> QED BY <2>0, <2>k, <2>s, <3>0, <3>1, <4>1 DEF Inv, Spent
    <3>2. CASE ~(i < All)
      <4>1. i = All BY <2>0, <2>k, <3>0, <3>2
      <4>2. /\ i' = 0 /\ work' = work /\ frames' = frames /\ peak' = peak
            /\ pc' = IF call.enc THEN "stream" ELSE IF call.op = "batch" THEN "store" ELSE "leave"
        BY <2>3, <2>0, <2>k, <3>0, <3>2 DEF Block, All, Busy
      <4> QED BY <2>0, <2>k, <2>s, <2>b, <2>n, <3>0, <4>1, <4>2 DEF Inv, Spent
    <3> QED BY <3>1, <3>2
  <2>4. CASE Stream
    <3>0. pc = "stream" /\ Busy /\ i <= Cells /\ call' = call /\ frames = 1 /\ peak = 1 /\ work = 1 + N + (IF call.enc THEN All ELSE 0) + i
      BY <2>4 DEF Stream, Inv, Spent
    <3>1. CASE i < Cells
      <4>1. i' = i + 1 /\ pc' = "stream" /\ work' = work + 1 /\ frames' = 1 /\ peak' = 1
        BY <2>4, <2>0, <2>k, <3>0, <3>1 DEF Stream, Pay, Frame, Max
      <4> QED BY <2>0, <2>k, <2>s, <3>0, <3>1, <4>1 DEF Inv, Spent
    <3>2. CASE ~(i < Cells)
      <4>1. i = Cells BY <2>0, <2>k, <3>0, <3>2
      <4>2. /\ i' = 0 /\ work' = work /\ frames' = frames /\ peak' = peak
            /\ pc' = IF ~call.enc THEN "block" ELSE IF call.op = "batch" THEN "store" ELSE "leave"
        BY <2>4, <3>0, <3>2 DEF Stream
      <4> QED BY <2>0, <2>k, <2>s, <2>b, <2>n, <3>0, <4>1, <4>2 DEF Inv, Spent
    <3> QED BY <3>1, <3>2
  <2>5. CASE pc = "load" /\ Copy("load", IF call.enc THEN "block" ELSE "stream")
    <3>0. call.op = "batch" /\ i <= call.n /\ call' = call /\ frames = 1 /\ peak = 1 /\ work = 1 + i
      BY <2>5 DEF Copy, Inv, Spent
    <3>1. CASE i < call.n
      <4>1. i' = i + 1 /\ pc' = "load" /\ work' = work + 1 /\ frames' = 1 /\ peak' = 1
        BY <2>5, <2>0, <3>0, <3>1 DEF Copy, Pay, Frame, Max
      <4> QED BY <2>0, <2>b, <2>s, <3>0, <3>1, <4>1 DEF Inv, Spent
    <3>2. CASE ~(i < call.n)
      <4>1. i = call.n BY <2>0, <2>b, <3>0, <3>2
      <4>2. i' = 0 /\ work' = work /\ frames' = frames /\ peak' = peak /\ pc' = IF call.enc THEN "block" ELSE "stream"
        BY <2>5, <3>0, <3>2 DEF Copy
      <4> QED BY <2>0, <2>k, <2>s, <2>b, <3>0, <4>1, <4>2 DEF Inv, Spent
    <3> QED BY <3>1, <3>2
  <2>6. CASE Copy("store", "leave")
    <3>0. pc = "store" /\ call.op = "batch" /\ i <= call.n /\ call' = call /\ frames = 1 /\ peak = 1 /\ work = 1 + N + All + Cells + i
      BY <2>6 DEF Copy, Inv, Spent
    <3>1. CASE i < call.n
      <4>1. i' = i + 1 /\ pc' = "store" /\ work' = work + 1 /\ frames' = 1 /\ peak' = 1
        BY <2>6, <2>0, <3>0, <3>1 DEF Copy, Pay, Frame, Max
      <4> QED BY <2>0, <2>b, <2>k, <2>s, <3>0, <3>1, <4>1 DEF Inv, Spent
    <3>2. CASE ~(i < call.n)
      <4>1. i = call.n BY <2>0, <2>b, <3>0, <3>2
      <4>2. i' = 0 /\ work' = work /\ frames' = frames /\ peak' = peak /\ pc' = "leave"
        BY <2>6, <3>0, <3>2 DEF Copy
      <4> QED BY <2>0, <2>k, <2>s, <2>b, <3>0, <4>1, <4>2 DEF Inv, Spent
    <3> QED BY <3>1, <3>2
  <2>7. CASE Leave
    BY <2>7, <2>0, <2>k, <2>s DEF Leave, Inv, Spent
  <2> QED BY <2>1, <2>2, <2>3, <2>4, <2>5, <2>6, <2>7 DEF Next
<1> QED BY <1>1, <1>2, PTL DEF Spec

THEOREM Cost == Spec => [](WorkBounded /\ WorkExact /\ OneFrame)
<1>1. Inv => WorkBounded /\ WorkExact /\ OneFrame
  <2> SUFFICES ASSUME Inv PROVE WorkBounded /\ WorkExact /\ OneFrame OBVIOUS
  <2>1. /\ N \in Nat /\ Expected \in Nat
        /\ Busy => All \in Nat /\ Cells \in Nat /\ call.enc \in BOOLEAN /\ Expected = 1 + 2 * N + All + Cells
        /\ ~Busy => Expected = 1
    BY Sums DEF Inv
  <2>2. call.op = "batch" => Busy /\ N = call.n BY DEF Busy, N
  <2> QED BY <2>1, <2>2 DEF Inv, Spent, WorkBounded, WorkExact, OneFrame, SpaceNeeded
<1> QED BY <1>1, Invariant, PTL
=============================================================================
