------------------------------- MODULE CsaCore -------------------------------
(***************************************************************************)
(* The packet cipher over an arbitrary block cipher and keystream, as       *)
(* relations between payloads; no bound on the number of blocks.            *)
(*                                                                         *)
(* V is the set of blocks (a residue is a cell like the others), xor its    *)
(* addition, E and D the block cipher under the control word, K(s, i) the   *)
(* keystream at cell i of a packet whose first ciphertext block is s.       *)
(*                                                                         *)
(* CsaProof proves theorems about these relations; TLC shows in CsaLink     *)
(* that CSA is an instance, and in CsaBatch (property Refines) that the     *)
(* batch design is an instance of CsaSlots, the machine over these cells.   *)
(***************************************************************************)
EXTENDS Integers
CONSTANTS V, xor(_, _), zero, E(_), D(_), K(_, _)

Group ==
  /\ zero \in V
  /\ \A a, b \in V : xor(a, b) \in V
  /\ \A a, b, c \in V : xor(xor(a, b), c) = xor(a, xor(b, c))
  /\ \A a, b \in V : xor(a, b) = xor(b, a)
  /\ \A a \in V : xor(a, a) = zero /\ xor(a, zero) = a
BlockPair == \A a \in V : E(a) \in V /\ D(a) \in V /\ D(E(a)) = a /\ E(D(a)) = a
KeystreamTyped == \A s \in V, i \in Nat : K(s, i) \in V

(* A payload: cells 1..n are whole blocks, cell n+1 the residue, if any.     *)
(* Payload(p, n, m): n >= 1 blocks, m cells in all (m = n or n + 1).         *)
Payload(p, n, m) == n \in Nat \ {0} /\ m \in {n, n + 1} /\ p \in [1..m -> V]

(* The chained block pass: cells from the last block to the first.           *)
Chained(p, c, n, m) ==
  /\ c \in [1..m -> V]
  /\ c[n] = E(p[n])
  /\ \A i \in 1..(n - 1) : c[i] = E(xor(p[i], c[i + 1]))
  /\ m = n + 1 => c[m] = p[m]

(* The stream pass: all cells but the first.                                 *)
Masked(c, s, m) ==
  /\ s \in [1..m -> V]
  /\ s[1] = c[1]
  /\ \A i \in 2..m : s[i] = xor(c[i], K(c[1], i))

Scrambled(p, s, n, m) == \E c : Chained(p, c, n, m) /\ Masked(c, s, m)

(* Descrambling as the library does it: stream pass, then the blocks.        *)
Unchained(c, p, n, m) ==
  /\ p \in [1..m -> V]
  /\ p[n] = D(c[n])
  /\ \A i \in 1..(n - 1) : p[i] = xor(D(c[i]), c[i + 1])
  /\ m = n + 1 => p[m] = c[m]
Descrambled(s, p, n, m) == \E c : Masked(s, c, m) /\ Unchained(c, p, n, m)
=============================================================================
