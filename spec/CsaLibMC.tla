----------------------------- MODULE CsaLibMC ------------------------------
(***************************************************************************)
(* Exhaustive exploration of CsaLib with small constants and the           *)
(* uninterpreted cipher, and generation of the behaviours that are         *)
(* replayed into the real library: EmitStep prints every transition of the *)
(* reachable graph once (run with one worker).                             *)
(***************************************************************************)
EXTENDS CsaLib, CsaSym, Json

CONSTANTS Lens,        \* length of each payload
          Limits,      \* limits the caller passes
          Depth,       \* bound on operations per payload
          Bug          \* "" or the name of a design fault (negative controls)

\* history: what the caller believes
VARIABLES intent,      \* h -> the word the caller passed last, by value
          done,        \* b -> operations on payload b: <<op, word, limit>>
          worn         \* for the faults that come with use: what the library counts
mcvars == << vars, intent, done, worn >>
MCLens == (0 :> 17 @@ 1 :> 8)

\* --- the design faults ------------------------------------------------
\* a context remembers the address it was given the word at
W(h) == IF Bug = "aliased word" THEN cwmem ELSE ctx[h].cw
\* a word is remembered by a digest of it; some words agree in theirs
Digest(w) == w % 2
\* the library counts (sets, here), and forgets something when the count overflows
Overflow == 3
Wear == worn' = IF Bug \in {"a set is lost when a count overflows", "a set returns when a count overflows"} THEN (worn + 1) % Overflow ELSE worn

MCInit ==
  /\ LibInit([b \in Bufs |-> Plain(b, Lens[b])], CHOOSE w \in Words : TRUE)
  /\ intent = [h \in Handles |-> None]
  /\ done = [b \in Bufs |-> <<>>]
  /\ worn = 0

Same == UNCHANGED << intent, done, worn >>
Seqs == {<<>>} \cup {<<b>> : b \in Bufs} \cup {s \in [1..2 -> Bufs] : s[1] # s[2]}

Log(bs, op, h, m) == done' = [b \in Bufs |-> IF InBatch(bs, b) THEN Append(done[b], <<op, intent[h], m>>) ELSE done[b]]

BuggySet(h) ==
  IF Bug = "set skipped if set" /\ ctx[h].st = "set"
  THEN call' = [op |-> "set", h |-> h, cw |-> cwmem] /\ UNCHANGED libvars
  ELSE IF Bug = "one key for all"
  THEN /\ ctx[h].st # "none"
       /\ ctx' = [g \in Handles |-> IF g = h THEN [ctx[g] EXCEPT !.st = "set", !.cw = cwmem]
                                    ELSE IF ctx[g].st = "set" THEN [ctx[g] EXCEPT !.cw = cwmem] ELSE ctx[g]]
       /\ call' = [op |-> "set", h |-> h, cw |-> cwmem]
       /\ UNCHANGED << heap, mem, cwmem >>
  ELSE IF Bug = "word known by its digest" /\ ctx[h].st = "set" /\ Digest(ctx[h].cw) = Digest(cwmem)
  THEN call' = [op |-> "set", h |-> h, cw |-> cwmem] /\ UNCHANGED libvars
  ELSE IF Bug = "schedules shared by digest" /\ \E g \in Handles \ {h} : ctx[g].st = "set" /\ Digest(ctx[g].cw) = Digest(cwmem)
  THEN LET g == CHOOSE x \in Handles \ {h} : ctx[x].st = "set" /\ Digest(ctx[x].cw) = Digest(cwmem)
       IN  /\ ctx[h].st # "none"
           /\ ctx' = [ctx EXCEPT ![h].st = "set", ![h].cw = ctx[g].cw]
           /\ call' = [op |-> "set", h |-> h, cw |-> cwmem]
           /\ UNCHANGED << heap, mem, cwmem >>
  ELSE IF Bug = "a set is lost when a count overflows" /\ worn = Overflow - 1 /\ ctx[h].st = "set"
  THEN call' = [op |-> "set", h |-> h, cw |-> cwmem] /\ UNCHANGED libvars
  ELSE IF Bug = "a set returns when a count overflows" /\ worn = Overflow - 1
  THEN /\ ctx[h].st # "none"
       /\ ctx' = [g \in Handles |-> IF g = h \/ ctx[g].st = "set" THEN [ctx[g] EXCEPT !.st = "set", !.cw = cwmem] ELSE ctx[g]]
       /\ call' = [op |-> "set", h |-> h, cw |-> cwmem]
       /\ UNCHANGED << heap, mem, cwmem >>
  ELSE Set(h)

BuggySingle(op, h, b) ==
  IF Bug = "aliased word"
  THEN /\ h \in SHandles /\ ctx[h].st = "set"
       /\ mem' = [mem EXCEPT ![b] = Apply(op, cwmem, @)]
       /\ call' = [op |-> op, h |-> h, b |-> b]
       /\ UNCHANGED << ctx, heap, cwmem >>
  ELSE Single(op, h, b)

BuggyBatch(op, h, bs, m) ==
  IF Bug = "past the terminator" /\ bs = <<>>
  THEN /\ ctx[h].st = "set" /\ Legal(m)
       /\ mem' = [b \in Bufs |-> BApply(op, ctx[h].cw, mem[b], m)]
       /\ call' = [op |-> "b" \o op, h |-> h, bs |-> bs, m |-> m, reply |-> "done"]
       /\ UNCHANGED << ctx, heap, cwmem >>
  ELSE Batch(op, h, bs, m)

BuggyAllocFails(h) ==
  IF Bug = "failed allocation leaks"
  THEN /\ ctx[h].st = "none"
       /\ \E a \in Addrs \ heap : heap' = heap \cup {a}
       /\ call' = [op |-> "alloc", h |-> h, reply |-> "null"]
       /\ UNCHANGED << ctx, mem, cwmem >>
  ELSE AllocFails(h)

\* with no memory left, the library falls back on what another context has
BuggyAlloc(h, a) ==
  IF Bug = "one address for two"
  THEN /\ ctx[h].st = "none"
       /\ LET b == IF \E g \in Handles : ctx[g].st # "none"
                   THEN ctx[CHOOSE g \in Handles : ctx[g].st # "none"].addr ELSE a
          IN /\ heap' = heap \cup {b}
             /\ ctx' = [ctx EXCEPT ![h] = Fresh(b)]
       /\ call' = [op |-> "alloc", h |-> h, reply |-> "ok"]
       /\ UNCHANGED << mem, cwmem >>
  ELSE Alloc(h, a)

BuggyRefuse(op, h, bs, m) ==
  IF Bug = "limit rounded"
  THEN ctx[h].st = "set" /\ ~Legal(m) /\ m < MaxLimit
       /\ mem' = [b \in Bufs |-> IF InBatch(bs, b) THEN BApply(op, ctx[h].cw, mem[b], 8 * (m \div 8)) ELSE mem[b]]
       /\ call' = [op |-> "b" \o op, h |-> h, bs |-> bs, m |-> m, reply |-> "refused"]
       /\ UNCHANGED << ctx, heap, cwmem >>
  ELSE Refuse(op, h, bs, m)

\* every allocator address is as good as any other: take the least free one
\* or, to exercise reuse, the greatest
FreeAddrs == Addrs \ heap
Pick == { a \in FreeAddrs : (\A c \in FreeAddrs : a <= c) \/ (\A c \in FreeAddrs : a >= c) }

MCNext ==
  \/ \E h \in Handles :
       \/ (\E a \in Pick : BuggyAlloc(h, a)) /\ Same
       \/ BuggyAllocFails(h) /\ Same
       \/ Free(h) /\ intent' = [intent EXCEPT ![h] = None] /\ UNCHANGED << done, worn >>
       \/ BuggySet(h) /\ Wear /\ intent' = [intent EXCEPT ![h] = cwmem] /\ UNCHANGED done
       \/ \E op \in {"enc", "dec"}, b \in Bufs :
            Len(done[b]) < Depth /\ BuggySingle(op, h, b) /\ Log(<<b>>, op, h, -1) /\ UNCHANGED << intent, worn >>
       \/ \E op \in {"enc", "dec"}, bs \in Seqs, m \in Limits :
            /\ h \in BHandles
            /\ \A b \in Bufs : InBatch(bs, b) => Len(done[b]) < Depth
            /\ \/ BuggyBatch(op, h, bs, m) /\ Log(bs, op, h, m) /\ UNCHANGED << intent, worn >>
               \/ BuggyRefuse(op, h, bs, m) /\ Same
  \/ \E w \in Words \ {cwmem} : Scribble(w) /\ Same
  \/ Size /\ Same

MCSpec == MCInit /\ [][MCNext]_mcvars

-----------------------------------------------------------------------------
\* C03, C04, C09, C10, C17 at once: the contents of a payload are determined
\* by its original contents and the operations the caller made on it with the
\* words the caller passed last to the contexts used - and by nothing else.
RECURSIVE Replay(_, _)
Replay(p, l) ==
  IF l = <<>> THEN p
  ELSE LET o == l[1]
       IN  Replay(IF o[3] = -1 THEN Apply(o[1], o[2], p) ELSE BApply(o[1], o[2], p, o[3]), Tail(l))
PayloadsDetermined == \A b \in Bufs : mem[b] = Replay(Plain(b, Lens[b]), done[b])
LastWord == \A h \in Handles : ctx[h].st = "set" => ctx[h].cw = intent[h]
\* C03: a pair of opposite operations under one word and limit leaves the original
RoundTrip ==
  \A b \in Bufs :
     (Len(done[b]) = 2 /\ done[b][1][1] # done[b][2][1] /\ done[b][1][2] = done[b][2][2]
       /\ (done[b][1][3] = done[b][2][3]
           \/ {done[b][1][3], done[b][2][3]} \subseteq {-1} \cup {m \in Limits : m >= Lens[b]}))
     => mem[b] = Plain(b, Lens[b])
StepsOk == [][StepProperties]_mcvars

\* identity of a state for the graph of behaviours
HistView == << libvars, intent, done, worn >>
GraphView == << ctx, mem, cwmem, worn >>
Compact == [c |-> [h \in Handles |-> <<ctx[h].st, ctx[h].addr, ctx[h].cw>>], m |-> mem, w |-> cwmem]
EmitStep == PrintT(<<"STEP", ToJson([from |-> ToString(Compact), call |-> call', to |-> ToString(Compact')])>>)
=============================================================================
