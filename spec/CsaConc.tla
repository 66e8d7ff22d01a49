------------------------------ MODULE CsaConc ------------------------------
(***************************************************************************)
(* C11: calls of several threads, each broken into the steps between which *)
(* another thread may run.  The cipher is uninterpreted.                   *)
(*                                                                         *)
(*   enc/dec    1 fetch the word of the context   2 read the payload       *)
(*              3 write the result                                         *)
(*   set        1 read the caller's word   2, 3 write the two halves of    *)
(*              the context (block schedule and word)                      *)
(*   life       1 allocate   2 set   3 use and free (a context of its own) *)
(*                                                                         *)
(* A thread's temporaries are its own.  The design faults a library may    *)
(* have are the values of Bug; TLC must find a schedule against each.      *)
(*                                                                         *)
(* TLC enumerates the programs and the schedules; every complete behaviour *)
(* is replayed with real threads on the real library (harness/conc.c).     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Threads, NCalls, Bug, Warm

\* What a thread may call: operations on the shared context 0 (whose word no
\* thread changes), or anything on its own context.
Kinds == { <<"enc", 0>>, <<"dec", 0>>, <<"enc", 1>>, <<"dec", 1>>, <<"set", 1>>, <<"life", 1>> }
Ctx(t, k) == IF k[2] = 0 THEN 0 ELSE t
Programs == [Threads -> [1..NCalls -> Kinds]]
Steps == 3

VARIABLES prog, pc, ctx, mem, loc, static, sched
vars == << prog, pc, ctx, mem, loc, static, sched >>

\* word number set by call c of thread t
WordOf(t, c) == 10 * t + c
None == [blk |-> 0, word |-> 0]
Op(o, w, v) == << o, w.blk, w.word, v >>
LocInit == [w |-> None, v |-> <<>>]

Init == /\ prog \in Programs
        /\ pc = [t \in Threads |-> [call |-> 1, step |-> 1]]
        /\ ctx = [c \in {0} \cup Threads |-> [blk |-> c + 1, word |-> c + 1]]
        /\ mem = [t \in Threads |-> [c \in 1..NCalls |-> <<t, c>>]]
        /\ loc = [t \in Threads |-> LocInit]
        /\ static = [loc |-> LocInit, ready |-> Warm, filled |-> Warm, last |-> 0, lastblk |-> 0]
        /\ sched = <<>>

Tmp(t) == IF Bug = "static temporaries" THEN static.loc ELSE loc[t]
SetTmp(t, x) == IF Bug = "static temporaries"
                THEN static' = [static EXCEPT !.loc = x] /\ UNCHANGED loc
                ELSE loc' = [loc EXCEPT ![t] = x] /\ UNCHANGED static

DoOp(t, c, k, s) ==
  LET x == Ctx(t, k)
  IN CASE s = 1 -> /\ IF Bug = "tables built on first use" /\ ~static.ready
                      THEN static' = [static EXCEPT !.ready = TRUE] /\ loc' = [loc EXCEPT ![t] = [w |-> ctx[x], v |-> <<"builder">>]]
                      ELSE SetTmp(t, [w |-> ctx[x], v |-> <<>>])
                   /\ UNCHANGED << ctx, mem >>
       [] s = 2 -> /\ IF Bug = "tables built on first use"
                      THEN /\ static' = [static EXCEPT !.filled = @ \/ loc[t].v = <<"builder">>]
                           /\ loc' = [loc EXCEPT ![t].v = IF static'.filled THEN mem[t][c] ELSE <<"garbage">>]
                      ELSE SetTmp(t, [Tmp(t) EXCEPT !.v = mem[t][c]])
                   /\ IF Bug = "context as scratch" THEN ctx' = [ctx EXCEPT ![x].word = 0] ELSE UNCHANGED ctx
                   /\ UNCHANGED mem
       [] s = 3 -> /\ mem' = [mem EXCEPT ![t][c] = Op(k[1], Tmp(t).w, Tmp(t).v)]
                   /\ IF Bug = "context as scratch" THEN ctx' = [ctx EXCEPT ![x].word = Tmp(t).w.word] ELSE UNCHANGED ctx
                   /\ UNCHANGED << loc, static >>

DoSet(t, c, k, s) ==
  LET x == Ctx(t, k)
      w == WordOf(t, c)
  IN CASE s = 1 -> /\ IF Bug = "remembered schedule"
                      THEN /\ static' = [static EXCEPT !.last = w]
                           /\ UNCHANGED loc
                      ELSE SetTmp(t, [w |-> [blk |-> w, word |-> w], v |-> <<>>])
                   /\ UNCHANGED << ctx, mem >>
       [] s = 2 -> /\ IF Bug = "remembered schedule"
                      THEN ctx' = [ctx EXCEPT ![x].blk = static.last]
                      ELSE ctx' = [ctx EXCEPT ![x].blk = Tmp(t).w.blk]
                   /\ UNCHANGED << mem, loc, static >>
       [] s = 3 -> /\ ctx' = [ctx EXCEPT ![x].word = IF Bug = "remembered schedule" THEN w ELSE Tmp(t).w.word]
                   /\ UNCHANGED << mem, loc, static >>

DoLife(t, c, k, s) ==
  LET w == WordOf(t, c)
      \* the fault: the library keeps a freed context (whose word is static.last) and hands it out again
      mine == Bug = "unprotected spare" /\ loc[t].v = <<"spare">>
  IN CASE s = 1 -> /\ loc' = [loc EXCEPT ![t] = IF Bug = "unprotected spare" /\ ~static.ready THEN [LocInit EXCEPT !.v = <<"spare">>] ELSE LocInit]
                   /\ UNCHANGED << ctx, mem, static >>
       [] s = 2 -> /\ loc' = [loc EXCEPT ![t].w = [blk |-> w, word |-> w]]
                   /\ IF mine THEN static' = [static EXCEPT !.ready = TRUE, !.last = w] ELSE UNCHANGED static
                   /\ UNCHANGED << ctx, mem >>
       [] s = 3 -> /\ mem' = [mem EXCEPT ![t][c] = Op("enc", IF mine THEN [blk |-> static.last, word |-> static.last] ELSE loc[t].w, mem[t][c])]
                   /\ UNCHANGED << ctx, loc, static >>

Step(t) ==
  LET c == pc[t].call
      s == pc[t].step
      k == prog[t][c]
  IN  /\ c <= NCalls
      /\ CASE k[1] = "set" -> DoSet(t, c, k, s)
           [] k[1] = "life" -> DoLife(t, c, k, s)
           [] OTHER -> DoOp(t, c, k, s)
      /\ pc' = [pc EXCEPT ![t] = IF s = Steps THEN [call |-> c + 1, step |-> 1] ELSE [call |-> c, step |-> s + 1]]
      /\ sched' = Append(sched, t)
      /\ UNCHANGED prog
Next == \E t \in Threads : Step(t)
Spec == Init /\ [][Next]_vars

Done == \A t \in Threads : pc[t].call > NCalls

\* What thread t's call c gives when t runs alone: the word is the last one t
\* set in the context before c, or the initial one.
LastWord(t, c) ==
  LET ss == { i \in 1..(c - 1) : prog[t][i][1] = "set" }
  IN  IF prog[t][c][2] = 0 THEN 1
      ELSE IF ss = {} THEN t + 1
      ELSE WordOf(t, CHOOSE i \in ss : \A j \in ss : j <= i)
Alone(t, c) ==
  LET k == prog[t][c]
      w == LastWord(t, c)
  IN  CASE k[1] = "set" -> << t, c >>
        [] k[1] = "life" -> Op("enc", [blk |-> WordOf(t, c), word |-> WordOf(t, c)], <<t, c>>)
        [] OTHER -> Op(k[1], [blk |-> w, word |-> w], <<t, c>>)
AsAlone == Done => \A t \in Threads, c \in 1..NCalls : mem[t][c] = Alone(t, c)
\* and the contexts are left with the words last set
ContextsAsAlone ==
  Done => \A t \in Threads :
     LET ss == { i \in 1..NCalls : prog[t][i][1] = "set" }
         w == IF ss = {} THEN t + 1 ELSE WordOf(t, CHOOSE i \in ss : \A j \in ss : j <= i)
     IN  ctx[t] = [blk |-> w, word |-> w] /\ ctx[0] = [blk |-> 1, word |-> 1]
\* Steps of different threads touch disjoint things, but for reading a shared context.
FootprintDisjoint == Bug = "" => static = [loc |-> LocInit, ready |-> Warm, filled |-> Warm, last |-> 0, lastblk |-> 0]

-----------------------------------------------------------------------------
\* The refinement of CsaThreads.  A thread's own state: its program, where it
\* is, its context, payloads and temporaries.  It may read context 0.
Own(t) == [prog |-> prog[t], pc |-> pc[t], ctx |-> ctx[t], mem |-> mem[t], loc |-> loc[t]]
OwnStart(t, p) == /\ p.prog \in [1..NCalls -> Kinds] /\ p.pc = [call |-> 1, step |-> 1]
                  /\ p.ctx = [blk |-> t + 1, word |-> t + 1]
                  /\ p.mem = [c \in 1..NCalls |-> <<t, c>>] /\ p.loc = LocInit
\* One step of a thread that has the library for itself.
Solo(t, sh, p) ==
  LET c == p.pc.call
      s == p.pc.step
      k == p.prog[c]
      w == WordOf(t, c)
      x == IF k[2] = 0 THEN sh ELSE p.ctx
      q == CASE k[1] \in {"enc", "dec"} /\ s = 1 -> [p EXCEPT !.loc = [w |-> x, v |-> <<>>]]
             [] k[1] \in {"enc", "dec"} /\ s = 2 -> [p EXCEPT !.loc.v = p.mem[c]]
             [] k[1] \in {"enc", "dec"} /\ s = 3 -> [p EXCEPT !.mem[c] = Op(k[1], p.loc.w, p.loc.v)]
             [] k[1] = "set" /\ s = 1 -> [p EXCEPT !.loc = [w |-> [blk |-> w, word |-> w], v |-> <<>>]]
             [] k[1] = "set" /\ s = 2 -> [p EXCEPT !.ctx.blk = p.loc.w.blk]
             [] k[1] = "set" /\ s = 3 -> [p EXCEPT !.ctx.word = p.loc.w.word]
             [] k[1] = "life" /\ s = 1 -> [p EXCEPT !.loc = LocInit]
             [] k[1] = "life" /\ s = 2 -> [p EXCEPT !.loc.w = [blk |-> w, word |-> w]]
             [] k[1] = "life" /\ s = 3 -> [p EXCEPT !.mem[c] = Op("enc", p.loc.w, p.mem[c])]
  IN  [q EXCEPT !.pc = IF s = Steps THEN [call |-> c + 1, step |-> 1] ELSE [call |-> c, step |-> s + 1]]
SoloRel(t, sh, p, q) == p.pc.call <= NCalls /\ q = Solo(t, sh, p)
Alone2 == INSTANCE CsaThreads WITH
            Thr <- Threads, Common <- [blk |-> 1, word |-> 1], Start <- OwnStart, Rel <- SoloRel,
            prv <- [t \in Threads |-> Own(t)], sh <- ctx[0]
Refines == Alone2!TSpec

NoHistory == << prog, pc, ctx, mem, loc, static >>
EmitDone == ~(\A t \in Threads : pc'[t].call > NCalls) \/ PrintT(<<"SCHED", ToJson([prog |-> prog, sched |-> sched'])>>)
=============================================================================
