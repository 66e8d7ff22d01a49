----------------------------- MODULE CsaTrace ------------------------------
(***************************************************************************)
(* Validation of traces recorded from the real library: is the recorded    *)
(* sequence of calls and outcomes a behaviour of CsaLib?                   *)
(*                                                                         *)
(* trace.ndjson holds one event per line.  The cipher is                   *)
(*   SpecEnc...  the real DVB-CSA of module CSA (payloads: byte sequences) *)
(*   RefEnc...   uninterpreted: what the library itself did to the same    *)
(*               payload in a fresh context of a fresh process, recorded   *)
(*               in table.json (payloads: hexadecimal strings)             *)
(***************************************************************************)
EXTENDS CsaLib, CSA, Json

Trace == ndJsonDeserialize("trace.ndjson")

\* the real algorithm
SpecEnc(w, p) == Scramble(w, p)
SpecDec(w, p) == Descramble(w, p)
SpecBEnc(w, p, m) == BatchScramble(w, p, m)
SpecBDec(w, p, m) == BatchDescramble(w, p, m)

\* reference observations
Ref == JsonDeserialize("table.json")
Lookup(k) == IF k \in DOMAIN Ref THEN Ref[k] ELSE "no such observation"
HexPrefix(p, m) == SubSeq(p, 1, IF 2 * m < Len(p) THEN 2 * m ELSE Len(p))
HexRest(p, m)   == IF 2 * m < Len(p) THEN SubSeq(p, 2 * m + 1, Len(p)) ELSE ""
Dash(p) == IF p = "" THEN "-" ELSE p
Undash(p) == IF p = "-" THEN "" ELSE p
RefEnc(w, p) == Undash(Lookup("s e " \o w \o " - " \o Dash(p)))
RefDec(w, p) == Undash(Lookup("s d " \o w \o " - " \o Dash(p)))
RefBEnc(w, p, m) == RefEnc(w, HexPrefix(p, m)) \o HexRest(p, m)
RefBDec(w, p, m) == RefDec(w, HexPrefix(p, m)) \o HexRest(p, m)
SameBEnc(w, p, m) == Undash(Lookup("b e " \o w \o " " \o ToString(m) \o " " \o Dash(p)))
SameBDec(w, p, m) == Undash(Lookup("b d " \o w \o " " \o ToString(m) \o " " \o Dash(p)))

TraceWords == {}
TraceBufs == 0 .. 2047
TraceSHandles == 0 .. 63
TraceBHandles == 100 .. 163

VARIABLE l
tvars == << vars, l >>

TraceInit == LibInit([b \in {} |-> <<>>], None) /\ l = 1
IsEvent(e) == l <= Len(Trace) /\ Trace[l].op = e /\ l' = l + 1
Ev == Trace[l]

\* the outcome was recorded in full: it binds the state reached
OutcomeIs(bs, outs) == \A i \in 1..Len(bs) : mem'[bs[i]] = outs[i]
NextAddr == CHOOSE a \in 1 .. (Cardinality(heap) + 1) : a \notin heap

TAlloc    == IsEvent("alloc") /\ IF Ev.reply = "ok" THEN Alloc(Ev.h, NextAddr) ELSE AllocFails(Ev.h)
TFree     == IsEvent("free") /\ Free(Ev.h)
TSet      == IsEvent("set") /\ Set(Ev.h)
TScribble == IsEvent("scribble") /\ Scribble(Ev.cw)
TFill     == /\ IsEvent("fill")
             /\ mem' = (Ev.b :> Ev.p) @@ mem        \* new payloads may appear
             /\ call' = [op |-> "fill", b |-> Ev.b]
             /\ UNCHANGED << ctx, heap, cwmem >>
TSingle   == \E o \in {"enc", "dec"} : IsEvent(o) /\ Single(o, Ev.h, Ev.b) /\ OutcomeIs(<<Ev.b>>, <<Ev.out>>)
TBatch    == \E o \in {"enc", "dec"} :
               /\ IsEvent("b" \o o)
               /\ IF Ev.reply = "done" THEN Batch(o, Ev.h, Ev.bs, Ev.m) ELSE Refuse(o, Ev.h, Ev.bs, Ev.m)
               /\ OutcomeIs(Ev.bs, Ev.outs)
TSize     == IsEvent("size") /\ Ev.reply = BatchSize /\ Size
\* the executor forgets everything
TReset    == /\ IsEvent("reset")
             /\ ctx' = [h \in Handles |-> NoCtx] /\ heap' = {} /\ mem' = [b \in {} |-> <<>>] /\ cwmem' = None
             /\ call' = [op |-> "reset"]

TraceNext == TAlloc \/ TFree \/ TSet \/ TScribble \/ TFill \/ TSingle \/ TBatch \/ TSize \/ TReset
TraceSpec == TraceInit /\ [][TraceNext]_tvars

TraceAccepted == PrintT(<<"MATCHED", TLCGet("stats").diameter - 1, Len(Trace)>>)
                 /\ TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
