------------------------------ MODULE CsaLib -------------------------------
(***************************************************************************)
(* The library as its user sees it: key contexts, payloads, and the calls  *)
(* of dvbcsa.h, each one atomic step.  The cipher is a parameter; it is    *)
(*   - CsaSym (uninterpreted) when TLC explores this specification,        *)
(*   - CSA (the real algorithm), or a table of reference observations,     *)
(*     when traces of the real library are validated (CsaTrace).           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS
  SHandles,      \* caller's variables holding single-packet contexts
  BHandles,      \* caller's variables holding batch contexts
  Words,         \* control words
  Bufs,          \* payloads
  Addrs,         \* addresses the system's allocator may hand out
  BatchSize,     \* the advertised batch size
  BlockLen,      \* 8
  MaxLimit,      \* 184
  Enc(_, _), Dec(_, _), BEnc(_, _, _), BDec(_, _, _)

None == "none"
Handles == SHandles \cup BHandles
Kind(h) == IF h \in SHandles THEN "s" ELSE "b"

VARIABLES
  ctx,     \* h -> [st, addr, cw]: what the caller's variable h refers to
  heap,    \* addresses the library has taken from the allocator
  mem,     \* payload contents
  cwmem,   \* the caller's memory that control words are passed in
  call     \* the last call with its observable reply

libvars == << ctx, heap, mem, cwmem >>
vars == << ctx, heap, mem, cwmem, call >>

NoCtx == [st |-> "none", addr |-> None, cw |-> None]
Fresh(a) == [st |-> "fresh", addr |-> a, cw |-> None]

Legal(m) == m % BlockLen = 0 /\ m <= MaxLimit
Apply(op, w, p)     == IF op = "enc" THEN Enc(w, p) ELSE Dec(w, p)
BApply(op, w, p, m) == IF op = "enc" THEN BEnc(w, p, m) ELSE BDec(w, p, m)

-----------------------------------------------------------------------------
\* dvbcsa_key_alloc, dvbcsa_bs_key_alloc: memory was available at address a ...
Alloc(h, a) ==
  /\ ctx[h].st = "none" /\ a \notin heap
  /\ heap' = heap \cup {a}
  /\ ctx' = [ctx EXCEPT ![h] = Fresh(a)]
  /\ call' = [op |-> "alloc", h |-> h, reply |-> "ok"]
  /\ UNCHANGED << mem, cwmem >>
\* ... or it was not: nothing changes, and the caller's variable holds NULL.
AllocFails(h) ==
  /\ ctx[h].st = "none"
  /\ call' = [op |-> "alloc", h |-> h, reply |-> "null"]
  /\ UNCHANGED libvars
\* dvbcsa_key_free, dvbcsa_bs_key_free
Free(h) ==
  /\ ctx[h].st # "none"
  /\ heap' = heap \ {ctx[h].addr}
  /\ ctx' = [ctx EXCEPT ![h] = NoCtx]
  /\ call' = [op |-> "free", h |-> h]
  /\ UNCHANGED << mem, cwmem >>
\* dvbcsa_key_set, dvbcsa_bs_key_set take the word out of the caller's memory
Set(h) ==
  /\ ctx[h].st # "none"
  /\ ctx' = [ctx EXCEPT ![h].st = "set", ![h].cw = cwmem]
  /\ call' = [op |-> "set", h |-> h, cw |-> cwmem]
  /\ UNCHANGED << heap, mem, cwmem >>
\* the caller uses that memory for something else
Scribble(w) ==
  /\ cwmem' = w
  /\ call' = [op |-> "scribble", cw |-> w]
  /\ UNCHANGED << ctx, heap, mem >>
\* the caller puts new contents in a payload
Fill(b, p) ==
  /\ mem' = [mem EXCEPT ![b] = p]
  /\ call' = [op |-> "fill", b |-> b]
  /\ UNCHANGED << ctx, heap, cwmem >>
\* dvbcsa_encrypt, dvbcsa_decrypt
Single(op, h, b) ==
  /\ h \in SHandles /\ ctx[h].st = "set"
  /\ mem' = [mem EXCEPT ![b] = Apply(op, ctx[h].cw, @)]
  /\ call' = [op |-> op, h |-> h, b |-> b]
  /\ UNCHANGED << ctx, heap, cwmem >>
\* dvbcsa_bs_encrypt, dvbcsa_bs_decrypt: bs is what stands before the terminator
InBatch(bs, b) == \E i \in 1..Len(bs) : bs[i] = b
Batch(op, h, bs, m) ==
  /\ h \in BHandles /\ ctx[h].st = "set" /\ Legal(m)
  /\ Len(bs) <= BatchSize
  /\ mem' = [b \in DOMAIN mem |-> IF InBatch(bs, b) THEN BApply(op, ctx[h].cw, mem[b], m) ELSE mem[b]]
  /\ call' = [op |-> "b" \o op, h |-> h, bs |-> bs, m |-> m, reply |-> "done"]
  /\ UNCHANGED << ctx, heap, cwmem >>
\* an illegal limit is refused
Refuse(op, h, bs, m) ==
  /\ h \in BHandles /\ ctx[h].st = "set" /\ ~Legal(m)
  /\ Len(bs) <= BatchSize
  /\ call' = [op |-> "b" \o op, h |-> h, bs |-> bs, m |-> m, reply |-> "refused"]
  /\ UNCHANGED libvars
\* dvbcsa_bs_batch_size
Size ==
  /\ call' = [op |-> "size", reply |-> BatchSize]
  /\ UNCHANGED libvars

Distinct(s) == \A i, j \in 1..Len(s) : s[i] = s[j] => i = j
LibInit(m0, w0) ==
  /\ ctx = [h \in Handles |-> NoCtx]
  /\ heap = {}
  /\ mem = m0
  /\ cwmem = w0
  /\ call = [op |-> "start"]

-----------------------------------------------------------------------------
(* Properties a user relies on, stated without reference to how the steps
   above are written.  CsaLibMC adds the history variables they need. *)

\* C12: every context in use owns exactly one block of memory, its own
OwnMemory ==
  /\ \A g, h \in Handles : ctx[g].st # "none" /\ ctx[h].st # "none" /\ ctx[g].addr = ctx[h].addr => g = h
  /\ heap = {ctx[h].addr : h \in {g \in Handles : ctx[g].st # "none"}}
FailedAllocChangesNothing == (call'.op = "alloc" /\ call'.reply = "null") => libvars' = libvars
\* C08: a call changes the payloads named in it and nothing else of the caller's
Named(c) == IF c.op \in {"enc", "dec", "fill"} THEN {c.b}
            ELSE IF c.op \in {"benc", "bdec"} THEN {c.bs[i] : i \in 1..Len(c.bs)} ELSE {}
FrameMem == \A b \in DOMAIN mem : b \notin Named(call') => mem'[b] = mem[b]
FrameCw  == call'.op # "scribble" => cwmem' = cwmem
\* C08, C10: and of the contexts only the one it is to change
FrameCtx == \A h \in Handles :
              (call'.op \in {"alloc", "free", "set"} /\ call'.h = h) \/ ctx'[h] = ctx[h]
\* C15
RefusalTouchesNothing ==
  (call'.op \in {"benc", "bdec"} /\ call'.reply = "refused") => libvars' = libvars
RefusedIffIllegal ==
  call'.op \in {"benc", "bdec"} => (call'.reply = "refused" <=> ~Legal(call'.m))
\* C18
EmptyBatchDoesNothing ==
  (call'.op \in {"benc", "bdec"} /\ call'.bs = <<>>) => libvars' = libvars
SizeConstant == call'.op = "size" => call'.reply = BatchSize /\ BatchSize > 0

StepProperties == FailedAllocChangesNothing /\ FrameMem /\ FrameCw /\ FrameCtx
                  /\ RefusalTouchesNothing /\ RefusedIffIllegal /\ EmptyBatchDoesNothing /\ SizeConstant
=============================================================================
