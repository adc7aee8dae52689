----------------------------- MODULE PulseTrace -----------------------------
(***************************************************************************)
(* Pulses recorded from the real generators, in thousandths: `w' is the      *)
(* pulse of a twin without bounds (same random numbers), `out' the bounded   *)
(* one.  Each record must be a fit of w as Fit.tla describes, up to the      *)
(* rounding of the recording.  A bound <<0, v>> is absent.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
Trace == JsonDeserialize("trace.json")
VARIABLE l
Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1
Spec == Init /\ [][Next]_l
Eps == 2
Abs(a) == IF a < 0 THEN -a ELSE a
RECURSIVE MaxS(_), MinS(_)
MaxS(s) == IF Len(s) = 1 THEN s[1] ELSE LET m == MaxS(Tail(s)) IN IF m < s[1] THEN s[1] ELSE m
MinS(s) == IF Len(s) = 1 THEN s[1] ELSE LET m == MinS(Tail(s)) IN IF s[1] < m THEN s[1] ELSE m
Close(a, b) == Abs(a - b) <= Eps
Judge(r) ==
  LET w == r.w
      o == r.out
      L == r.lb[1] = 1
      U == r.ub[1] = 1
      lb == r.lb[2]
      ub == r.ub[2]
      mx == MaxS(w)
      mn == MinS(w)
      MayFit == (U => mx <= ub + Eps) /\ (L => mn >= lb - Eps)
      MayNot == (U /\ mx >= ub - Eps) \/ (L /\ mn <= lb + Eps)
      I == DOMAIN w
  IN /\ DOMAIN o = I
     /\ \/ MayFit /\ \A i \in I : Close(o[i], w[i])
        \/ MayNot /\ U /\ ~L /\ \A i \in I : Close(o[i], w[i] - mx + ub)
        \/ MayNot /\ L /\ (~U \/ mx - mn <= ub - lb + Eps) /\ \A i \in I : Close(o[i], w[i] - mn + lb)
        \/ MayNot /\ L /\ U /\ mx - mn >= ub - lb - Eps
           /\ \A i \in I : Abs((o[i] - lb) * (mx - mn) - (w[i] - mn) * (ub - lb)) <= 2 * ((mx - mn) + (ub - lb)) + 8
\* random kinds: range of the unbounded pulse, first and second differences, in thousandths (-1: not limited)
Within(r) == LET w == r.w
                 x == [i \in DOMAIN w |-> w[i] - r.off]
             IN /\ r.range >= 0 => \A i \in DOMAIN x : Abs(x[i]) <= r.range + Eps
                /\ r.start >= 0 => Abs(x[1]) <= r.start + Eps
                /\ r.d1 >= 0 => \A i \in 1 .. Len(x) - 1 : Abs(x[i + 1] - x[i]) <= r.d1 + Eps
                /\ r.d2 >= 0 => /\ \A i \in 1 .. Len(x) - 2 : Abs(x[i + 2] - 2 * x[i + 1] + x[i]) <= r.d2 + 2 * Eps
                                /\ (Len(x) > 1 => Abs(x[2] - x[1]) <= r.d2 + Eps)
Emit == l <= Len(Trace) =>
          /\ (~Judge(Trace[l]) => PrintT("@@" \o ToJson([i |-> l, why |-> "fit"])))
          /\ (~Within(Trace[l]) => PrintT("@@" \o ToJson([i |-> l, why |-> "range"])))
Consumed == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
