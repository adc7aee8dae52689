------------------------------- MODULE Omega -------------------------------
(* The symplectic form for n modes: n diagonal blocks [[0, 1], [-1, 0]].    *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANT MaxModes
VARIABLE n
Init == n = 1
Next == n < MaxModes /\ n' = n + 1
Spec == Init /\ [][Next]_n
Form(m) == [r \in 1 .. 2 * m |-> [c \in 1 .. 2 * m |->
             IF r % 2 = 1 /\ c = r + 1 THEN 1 ELSE IF r % 2 = 0 /\ c = r - 1 THEN -1 ELSE 0]]
RECURSIVE Dot(_, _, _, _)
Dot(A, r, c, k) == IF k = 0 THEN 0 ELSE A[r][k] * A[k][c] + Dot(A, r, c, k - 1)
Antisym == LET F == Form(n) IN \A r, c \in 1 .. 2 * n : F[r][c] = -F[c][r]
Involution == n <= 8 => LET F == Form(n) IN \A r, c \in 1 .. 2 * n :
                Dot(F, r, c, 2 * n) = IF r = c THEN -1 ELSE 0
Emit == PrintT("@@" \o ToJson([n |-> n, omega |-> Form(n)]))
=============================================================================
