----------------------------- MODULE CsaThreads -----------------------------
(***************************************************************************)
(* Threads without bounds: any threads, any number of calls and steps.     *)
(* Every thread has a state of its own (the contexts only it uses, its     *)
(* payloads, its temporaries, where it is) and may read what is shared     *)
(* (contexts whose word nobody changes), which no step writes.  CsaConc    *)
(* refines this (TLC), so its threads have no other way to interact;       *)
(* CsaThreadsProof shows that then each thread is always in a state that   *)
(* it reaches alone: C11, C10.                                             *)
(***************************************************************************)
CONSTANTS Thr, Common, Start(_, _), Rel(_, _, _, _)
VARIABLES prv, sh
tvars == << prv, sh >>

TInit == sh = Common /\ prv = [t \in Thr |-> prv[t]] /\ \A t \in Thr : Start(t, prv[t])
TStep(t) == /\ Rel(t, sh, prv[t], prv'[t])
            /\ prv' = [u \in Thr |-> IF u = t THEN prv'[t] ELSE prv[u]]
            /\ sh' = sh
TNext == \E t \in Thr : TStep(t)
TSpec == TInit /\ [][TNext]_tvars

(* What thread t reaches alone: it is in every set that holds its starts    *)
(* and is closed under its steps, hence in the least such set.              *)
Closed(t, S) == /\ \A p : Start(t, p) => p \in S
                /\ \A p \in S : \A q : Rel(t, Common, p, q) => q \in S
=============================================================================
