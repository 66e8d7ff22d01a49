---------------------------- MODULE CsaAccount ------------------------------
(* The machine of CsaCost, over any sets of shapes: explored by TLC in CsaCost, *)
(* and proved for all shapes there are in CsaAccountProof.                      *)
EXTENDS Integers
CONSTANTS Lens,      \* lengths of single payloads
          Counts,    \* packets in a batch
          Limits,    \* limits, in blocks
          Longest,   \* lengths in descriptors
          Bug

Max(a, b) == IF a > b THEN a ELSE b
SingleWork(len) ==
  LET b == len \div 8 IN 1 + (IF b = 0 THEN 0 ELSE b + (b - 1) + (IF len % 8 > 0 THEN 1 ELSE 0))
\* whatever lengths the descriptors give
BatchWork(n, m8) == 1 + 2 * n + m8 + Max(m8 - 1, 0)
SetWork == 1
SpaceNeeded == 1

VARIABLES call, pc, i, work, frames, peak
vars == << call, pc, i, work, frames, peak >>

Calls == [op : {"single"}, enc : BOOLEAN, len : Lens]
         \cup [op : {"batch"}, enc : BOOLEAN, n : Counts, m8 : Limits, len : Longest]
         \cup [op : {"set"}]
Init == /\ call \in Calls /\ pc = "enter" /\ i = 0 /\ work = 0 /\ frames = 0 /\ peak = 0

Frame(d) == frames' = frames + d /\ peak' = Max(peak, frames + d)
Pay(w) == work' = work + w
Blocks == call.len \div 8
Cells == IF call.op = "single" THEN Blocks - 1 + (IF call.len % 8 > 0 THEN 1 ELSE 0) ELSE Max(call.m8 - 1, 0)
Enter ==
  /\ pc = "enter" /\ Frame(1) /\ Pay(1) /\ i' = 0
  /\ pc' = CASE call.op = "set" -> "leave"
             [] call.op = "single" -> IF Blocks = 0 THEN "leave" ELSE IF call.enc THEN "block" ELSE "stream"
             [] call.op = "batch" -> "load"
  /\ UNCHANGED call
\* encrypting: blocks from the last to the first, then the keystream; decrypting the other way round
Block ==
  /\ pc = "block"
  /\ LET all == IF call.op = "single" THEN Blocks
                ELSE IF Bug = "limit ignored" THEN Max(call.m8, Blocks) ELSE call.m8 IN
     IF i < all
     THEN /\ Pay(IF Bug = "rescan" /\ call.op = "single" THEN i + 1 ELSE 1) /\ i' = i + 1 /\ pc' = pc
          /\ IF Bug = "recursive chain" /\ call.op = "single" THEN Frame(1) ELSE Frame(0)
     ELSE /\ i' = 0 /\ UNCHANGED << work, frames, peak >>
          /\ pc' = IF call.enc THEN "stream" ELSE IF call.op = "batch" THEN "store" ELSE "leave"
  /\ UNCHANGED call
Stream ==
  /\ pc = "stream"
  /\ IF i < Cells
     THEN i' = i + 1 /\ Pay(1) /\ pc' = pc /\ Frame(0)
     ELSE /\ i' = 0 /\ UNCHANGED << work, frames, peak >>
          /\ pc' = IF ~call.enc THEN "block" ELSE IF call.op = "batch" THEN "store" ELSE "leave"
  /\ UNCHANGED call
Copy(from, to) ==
  /\ pc = from
  /\ IF i < call.n THEN i' = i + 1 /\ Pay(1) /\ pc' = pc /\ (IF Bug = "copies on the stack" THEN Frame(1) ELSE Frame(0))
     ELSE i' = 0 /\ pc' = to /\ UNCHANGED << work, frames, peak >>
  /\ UNCHANGED call
Leave == /\ pc = "leave" /\ frames' = frames - 1 /\ pc' = "done" /\ UNCHANGED << call, i, work, peak >>
Next == Enter \/ Block \/ Stream \/ (pc = "load" /\ Copy("load", IF call.enc THEN "block" ELSE "stream")) \/ Copy("store", "leave") \/ Leave
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Expected == CASE call.op = "single" -> SingleWork(call.len) [] call.op = "batch" -> BatchWork(call.n, call.m8) [] OTHER -> SetWork
WorkBounded == work <= Expected
WorkExact == pc = "done" => work = Expected
OneFrame == peak <= SpaceNeeded /\ (Bug = "" /\ pc = "done" => frames = 0)
Ends == <>(pc = "done")

=============================================================================
