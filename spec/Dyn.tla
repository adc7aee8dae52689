-------------------------------- MODULE Dyn --------------------------------
(***************************************************************************)
(* The dynamics object as a cached computation, as pure functions on a     *)
(* record d:                                                               *)
(*   cur   the pulse held (slot -> control -> amplitude id)                *)
(*   evo   the pulse the evolution lists were computed for, or NoPulse     *)
(*   pn, fid, grad   same for pre-normalised overlap, error, gradient      *)
(*   st    statistics counters                                             *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE FiniteSets

NoPulse == << >>
ZeroSt == [upd |-> 0, chg |-> 0, slots |-> 0, rec |-> 0, fid |-> 0, grad |-> 0]

RECURSIVE SumSeq(_)
SumSeq(s) == IF s = << >> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
NCh(p, q) == SumSeq([k \in 1 .. Len(p) |-> Cardinality({j \in 1 .. Len(p[k]) : p[k][j] # q[k][j]})])
NSl(p, q) == Cardinality({k \in 1 .. Len(p) : p[k] # q[k]})
NAll(p)   == SumSeq([k \in 1 .. Len(p) |-> Len(p[k])])

\* (re)initialise with pulse p: everything is a change
NewD(p, st) == [cur |-> p, evo |-> NoPulse, pn |-> NoPulse, fid |-> NoPulse, grad |-> NoPulse,
                st |-> [st EXCEPT !.upd = @ + 1, !.chg = @ + NAll(p), !.slots = @ + Len(p)]]

\* supply pulse q: an equal one changes nothing, another one drops the caches
SupplyD(d, q) ==
  IF q = d.cur THEN d
  ELSE [cur |-> q, evo |-> NoPulse, pn |-> NoPulse, fid |-> NoPulse, grad |-> NoPulse,
        st |-> [d.st EXCEPT !.upd = @ + 1, !.chg = @ + NCh(d.cur, q), !.slots = @ + NSl(d.cur, q)]]

EvoD(d) == IF d.evo = d.cur THEN d ELSE [d EXCEPT !.evo = d.cur, !.st.rec = @ + 1]

\* kind: "unit" (overlap first, shared with the gradient), "trace", "approx"
FidD(kind, d) ==
  IF d.fid = d.cur THEN d
  ELSE LET e == EvoD(d)
           n == IF kind = "unit" /\ d.pn = d.cur THEN 0 ELSE 1
       IN [e EXCEPT !.fid = d.cur, !.pn = (IF kind = "unit" THEN d.cur ELSE @), !.st.fid = @ + n]

\* the unitary gradient needs the overlap's phase and hence the fidelity;
\* the finite-difference gradient needs the error at the pulse itself
GradD(kind, d) ==
  IF d.grad = d.cur THEN d
  ELSE LET e == EvoD(d)
           needF == \/ kind = "unit" /\ d.pn # d.cur
                    \/ kind = "approx" /\ d.fid # d.cur
       IN [e EXCEPT !.grad = d.cur,
                    !.pn   = (IF kind = "unit" THEN d.cur ELSE @),
                    !.fid  = (IF kind \in {"unit", "approx"} THEN d.cur ELSE @),
                    !.st.fid  = @ + (IF needF THEN 1 ELSE 0),
                    !.st.grad = @ + 1]

\* caches of d never belong to another pulse than the one held
CoherentD(d) == \A c \in {d.evo, d.pn, d.fid, d.grad} : c = NoPulse \/ c = d.cur
=============================================================================
