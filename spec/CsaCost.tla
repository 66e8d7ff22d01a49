------------------------------ MODULE CsaCost ------------------------------
(***************************************************************************)
(* C20: what a call costs.  The calls as machines that account for work    *)
(* (cipher passes and packet copies) and for working space (frames in use, *)
(* a frame being as much as the widest pass needs).                        *)
(*                                                                         *)
(*   single   one block pass per whole block, one keystream pass per block *)
(*            after the first (and for a residue), nothing below 8 bytes   *)
(*   batch    all packets at once: a block pass and a keystream pass for   *)
(*            every 8 bytes of the limit, a copy in and out for each packet*)
(*   set      a fixed number of steps                                      *)
(*                                                                         *)
(* TLC shows for every shape within the bounds that the machine ends, with *)
(* exactly the work of the closed forms below and never more than one      *)
(* frame; the closed forms then judge the measured work of the real        *)
(* library for shapes of any size (WorkOf, evaluated by TLC), up to a      *)
(* constant factor.                                                        *)
(***************************************************************************)
EXTENDS CsaAccount, Sequences, TLC, Json, IOUtils
CONSTANTS MaxBlocks, MaxPackets
MCLens == 0..(8 * MaxBlocks + 7)
MCCounts == 0..MaxPackets
MCLimits == 0..MaxBlocks
MCLongest == {0, 7, 8, 8 * MaxBlocks, 64 * MaxBlocks + 5}

-----------------------------------------------------------------------------
\* The work of given calls, [op, len] or [op, n, m8]: passes and copies.
WorkOf(c) == CASE c.op = "single" -> << SingleWork(c.len), 0 >>
               [] c.op = "batch" -> << BatchWork(c.n, c.m8) - 2 * c.n, 2 * c.n >>
               [] OTHER -> << SetWork, 0 >>
Tell == "SHAPES" \notin DOMAIN IOEnv \/
        LET cs == JsonDeserialize(IOEnv.SHAPES)
            works == [k \in DOMAIN cs |-> WorkOf(cs[k])]
        IN  JsonSerialize(IOEnv.WORK, works)
ASSUME Tell
=============================================================================
