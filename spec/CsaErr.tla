------------------------------ MODULE CsaErr -------------------------------
(***************************************************************************)
(* C07 and C19 on the uninterpreted cipher: how damage spreads, whatever   *)
(* the block cipher and the keystream generator are.                       *)
(***************************************************************************)
EXTENDS CsaSym, TLC
CONSTANTS Lens, Bug

W == 1
Dmg(i) == {<<"d", i>>}
\* p with damage in the cells of S (the last cell + 1 is the residue)
Damaged(p, S) ==
  [ p EXCEPT !.cells = [i \in 1..Len(p.cells) |-> IF i \in S THEN Xor(p.cells[i], Dmg(i)) ELSE p.cells[i]],
             !.res   = IF Len(p.cells) + 1 \in S /\ p.len % 8 # 0 THEN Xor(p.res, Dmg(Len(p.cells) + 1)) ELSE p.res ]

VARIABLES len, hit, side
Init == /\ len \in Lens
        /\ hit \in SUBSET (1..(Blocks(len) + IF len % 8 = 0 THEN 0 ELSE 1))
        /\ side \in {"dec", "enc"}
Next == UNCHANGED << len, hit, side >>
Spec == Init /\ [][Next]_<< len, hit, side >>

Chain2(w, c) == IF Bug = "forward chaining"
                THEN [i \in 1..Len(c) |-> IF i = 1 THEN D(w, c[1]) ELSE Xor(D(w, c[i]), c[i - 1])]
                ELSE SymUnchain(w, c)
\* Design faults, as negative controls: the chain runs forwards; the keystream
\* of a block depends on the block before it (ciphertext feedback); the chain
\* takes in the scrambled last block; the residue takes part in the chain.
Mask2(w, p) ==
  IF Bug = "keystream fed back"
  THEN [p EXCEPT !.cells = [i \in 1..Len(p.cells) |-> IF i = 1 THEN p.cells[1] ELSE Xor(p.cells[i], K(w, p.cells[i - 1], i))]]
  ELSE SymMask(w, p)
Descr(w, p) ==
  IF p.len < 8 THEN p
  ELSE LET q == Mask2(w, p)
           c == IF Bug = "residue chained" /\ p.len % 8 # 0
                THEN [q.cells EXCEPT ![Len(q.cells)] = Xor(@, p.res)] ELSE q.cells
       IN [q EXCEPT !.cells = Chain2(w, c)]
Scr(w, p) ==
  IF Bug = "forward chaining" /\ p.len >= 8
  THEN LET c == FoldLeft(LAMBDA acc, x : Append(acc, E(w, IF acc = <<>> THEN x ELSE Xor(x, acc[Len(acc)]))), <<>>, p.cells)
       IN  SymMask(w, [p EXCEPT !.cells = c])
  ELSE SymScramble(w, p)

P == Plain(1, len)
Diff(u, v) == Xor(u, v)

\* damage anywhere but in the first block
DamageLocal ==
  (side = "dec" /\ 1 \notin hit /\ len >= 8) =>
    LET a == Descr(W, P)
        b == Descr(W, Damaged(P, hit))
        n == Blocks(len)
    IN  /\ \A i \in 1..n : i \notin hit =>
             Diff(a.cells[i], b.cells[i]) = IF i + 1 \in hit /\ i < n THEN Dmg(i + 1) ELSE {}
        /\ Diff(a.res, b.res) = IF n + 1 \in hit /\ len % 8 # 0 THEN Dmg(n + 1) ELSE {}
\* a changed plaintext block: nothing after it changes but for the keystream
ChangeLocal ==
  (side = "enc" /\ len >= 8) =>
    LET a == Scr(W, P)
        b == Scr(W, Damaged(P, hit))
        n == Blocks(len)
        ks(x, i) == IF i = 1 THEN {} ELSE K(W, x.cells[1], i)
        last == IF hit = {} THEN 0 ELSE CHOOSE i \in hit : \A j \in hit : j <= i
    IN  /\ \A i \in 1..n : i > last => Xor(a.cells[i], ks(a, i)) = Xor(b.cells[i], ks(b, i))
        /\ len % 8 # 0 => Xor(Xor(a.res, ks(a, n + 1)), Xor(b.res, ks(b, n + 1))) = IF n + 1 \in hit THEN Dmg(n + 1) ELSE {}
\* C07: damage in the residue only leaves every block alone
ResidueAlone ==
  (hit \subseteq {Blocks(len) + 1} /\ len >= 8) =>
    LET f(p) == IF side = "enc" THEN Scr(W, p) ELSE Descr(W, p)
    IN  f(P).cells = f(Damaged(P, hit)).cells
\* C03
RoundTrip == SymDescramble(W, SymScramble(W, P)) = P /\ SymScramble(W, SymDescramble(W, P)) = P
Short == len < 8 => SymScramble(W, P) = P /\ SymDescramble(W, P) = P
=============================================================================
