------------------------------ MODULE GrapeOps ------------------------------
(* One iteration of gradient ascent.  A pulse of one control is the sequence of its
   values at the times; the last time starts no slot and repeats the slot before.  *)
EXTENDS Integers, Sequences
Clip(x, lim) == IF lim = <<>> THEN x ELSE IF x < lim[1] THEN lim[1] ELSE IF x > lim[2] THEN lim[2] ELSE x
\* u: the pulse, d: step times gradient of each slot, p: step times penalty of each slot
NewRow(u, d, p, lim) == LET w == [m \in 1 .. Len(u) - 1 |-> Clip(u[m] + d[m] - p[m], lim)] IN Append(w, w[Len(w)])
\* penalties: a for power, b for lateness (slots are counted from zero)
Penalty(u, m, a, b, dt) == 2 * a * u * dt + 2 * b * (m - 1) * (m - 1) * u * dt
\* adaptive: half, same or double step; the best of the three is kept unless it is worse
\* than what was kept before, when nothing changes but the step, which is halved
Exps == {-1, 0, 1}
NextExp(x, k) == x + k
Regress(prev, best) == best < prev
=============================================================================
