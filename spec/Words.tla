------------------------------- MODULE Words -------------------------------
(***************************************************************************)
(* Evolution operators as words of a free monoid.  A letter is a record    *)
(* naming an atom the harness interprets as a matrix:                      *)
(*   [t |-> "P", k, a]       propagator of slot k at amplitude vector a    *)
(*   [t |-> "D", k, j, a]    derivative of that propagator w.r.t. control j*)
(*   [t |-> "I"]             initial operator / state                      *)
(*   [t |-> "T"]             inverse (adjoint) of the target               *)
(* A word <<x1, ..., xm>> stands for the matrix product x1 . ... . xm.     *)
(* Because the monoid is free, every algebraic law checked here holds for  *)
(* every choice of matrices.                                               *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences

P(k, a)    == [t |-> "P", k |-> k, j |-> 0, a |-> a]
D(k, j, a) == [t |-> "D", k |-> k, j |-> j, a |-> a]
I0         == [t |-> "I", k |-> 0, j |-> 0, a |-> << >>]
T0         == [t |-> "T", k |-> 0, j |-> 0, a |-> << >>]

\* A pulse is a sequence (slots) of sequences (controls) of amplitude ids.
\* Slots are numbered 1..n; boundaries 0..n.
RECURSIVE Fwd(_, _)
Fwd(p, b) == IF b = 0 THEN <<I0>> ELSE <<P(b, p[b])>> \o Fwd(p, b - 1)

RECURSIVE Onwd(_, _)   \* evolution from boundary b to the end, b < n
Onwd(p, b) == IF b >= Len(p) THEN << >> ELSE Onwd(p, b + 1) \o <<P(b + 1, p[b + 1])>>

Onto(p, b) == <<T0>> \o Onwd(p, b)

Full(p)    == Fwd(p, Len(p))

\* derivative of the full evolution w.r.t. amplitude (k, j)
DFull(p, k, j) == Onwd(p, k) \o <<D(k, j, p[k])>> \o Fwd(p, k - 1)
\* derivative of the overlap tr(T . Full)
DOverlap(p, k, j) == <<T0>> \o DFull(p, k, j)

\* laws
SplitLaw(p) == \A b \in 0 .. Len(p) : Onwd(p, b) \o Fwd(p, b) = Full(p)
OverlapLaw(p) == \A b \in 0 .. Len(p) : Onto(p, b) \o Fwd(p, b) = <<T0>> \o Full(p)
\* Replacing slot k's letter by its derivative letter is the product rule:
ProductRule(p) == \A k \in 1 .. Len(p) : \A j \in 1 .. Len(p[k]) :
    LET w == DFull(p, k, j)  f == Full(p)
    IN /\ Len(w) = Len(f)
       /\ \A i \in 1 .. Len(f) : IF i = Len(p) - k + 1 THEN w[i] = D(k, j, p[k]) ELSE w[i] = f[i]
=============================================================================
