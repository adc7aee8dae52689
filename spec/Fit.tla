-------------------------------- MODULE Fit --------------------------------
(* Fitting a pulse shape into bounds.  A bound is a record [k, v] with k one of
   "num", "none", "inf" (infinite is the same as none), v a rational.          *)
EXTENDS Rat, TLC
NoB == [k |-> "none", v |-> <<0, 1>>]
InfB == [k |-> "inf", v |-> <<0, 1>>]
NumB(r) == [k |-> "num", v |-> r]
Is(b) == b.k = "num"
Consistent(lb, ub) == (Is(lb) /\ Is(ub)) => RLe(lb.v, ub.v)
Fits(s, off, lb, ub) == /\ Is(ub) => RLe(RAdd(RMaxS(s), off), ub.v)
                        /\ Is(lb) => RLe(lb.v, RAdd(RMinS(s), off))
Shift(s, d) == TLCEval([i \in DOMAIN s |-> RAdd(s[i], d)])
Scale(s, c) == TLCEval([i \in DOMAIN s |-> RMul(s[i], c)])
FitCase(s, off, lb, ub) ==
  IF Fits(s, off, lb, ub) THEN "asis"
  ELSE IF ~Is(lb) THEN "down" ELSE IF ~Is(ub) THEN "up"
  ELSE IF RLt(RSub(ub.v, lb.v), RSub(RMaxS(s), RMinS(s))) THEN "compress" ELSE "shift"
Fit(s, off, lb, ub) ==
  LET mx == RMaxS(s)
      mn == RMinS(s)
      c  == FitCase(s, off, lb, ub)
  IN CASE c = "asis" -> Shift(s, off)
       [] c = "down" -> Shift(s, RSub(ub.v, mx))
       [] c = "up"   -> Shift(s, RSub(lb.v, mn))
       [] c = "shift" -> Shift(s, RSub(lb.v, mn))
       [] c = "compress" -> LET q == RDiv(RSub(ub.v, lb.v), RSub(mx, mn))
                            IN Shift(Scale(s, q), RSub(lb.v, RMul(mn, q)))
\* what "fitted" means, independently of how
InBounds(p, lb, ub) == \A i \in DOMAIN p : (Is(lb) => RLe(lb.v, p[i])) /\ (Is(ub) => RLe(p[i], ub.v))
\* differences keep their proportions, with a factor in (0, 1]
Undistorted(p, s) == \A j, k \in DOMAIN s :
   RMul(RSub(p[1], p[j]), RSub(s[1], s[k])) = RMul(RSub(p[1], p[k]), RSub(s[1], s[j]))
NotStretched(p, s) == \A i, j \in DOMAIN s : RLe(RAbs(RSub(p[i], p[j])), RAbs(RSub(s[i], s[j])))
SameOrder(p, s) == \A i, j \in DOMAIN s : RLt(s[i], s[j]) => RLe(p[i], p[j])
=============================================================================
