-------------------------------- MODULE Grape --------------------------------
(* Gradient ascent with gradients as they may come: the update rule with steps,
   limits and penalties over integers, and the adaptive choice of steps.        *)
EXTENDS GrapeOps, FiniteSets, TLC, Json
CONSTANTS Mode, Cfgs, Us, Gs, MaxR, Ovs
VARIABLES c, us, gs, x, ov, hist
vars == <<c, us, gs, x, ov, hist>>

Slots == 1 .. c.M - 1
ClipAll(u) == [j \in 1 .. c.J |-> [m \in 1 .. c.M |-> Clip(u[j][m], c.lim)]]
Init == /\ c \in Cfgs
        /\ \E u \in [1 .. c.J -> [1 .. c.M -> Us]] : us = <<[j \in 1 .. c.J |-> [m \in 1 .. c.M |-> Clip(u[j][m], c.lim)]]>>
        /\ gs = <<>> /\ x = 0 /\ ov = 0 /\ hist = <<>>
U == us[Len(us)]
Updated(g, e) == [j \in 1 .. c.J |-> NewRow(U[j], [m \in Slots |-> e * g[j][m]],
                                            [m \in Slots |-> e * Penalty(U[j][m], m, c.a, c.b, c.dt)], c.lim)]
Plain == /\ Mode = "plain" /\ Len(us) < MaxR
         /\ \E g \in [1 .. c.J -> [Slots -> Gs]] : us' = Append(us, Updated(g, c.e)) /\ gs' = Append(gs, g)
         /\ UNCHANGED <<c, x, ov, hist>>
\* steps are e, halved or doubled x times (e large enough to be halved)
Pow(k) == IF k >= 0 THEN 2 ^ k ELSE 1
E(k) == (c.e * 16 * Pow(k)) \div (16 * Pow(-k))
Adaptive == /\ Mode = "adaptive" /\ Len(us) < MaxR
            /\ \E g \in [1 .. c.J -> [Slots -> Gs]] : \E o \in [Exps -> Ovs] :
                 LET best == CHOOSE k \in Exps : \A l \in Exps : o[l] < o[k] \/ (o[l] = o[k] /\ k <= l) IN
                 /\ gs' = Append(gs, g)
                 /\ IF Regress(ov, o[best]) THEN us' = Append(us, U) /\ x' = x - 1 /\ ov' = ov
                    ELSE us' = Append(us, Updated(g, E(x + best))) /\ x' = NextExp(x, best) /\ ov' = o[best]
                 /\ hist' = Append(hist, [x |-> x, best |-> best, o |-> o[best]])
            /\ UNCHANGED c
Next == Plain \/ Adaptive
Spec == Init /\ [][Next]_vars

TypeOK == Len(us) = Len(gs) + 1
InLimits == c.lim # <<>> => \A k \in 1 .. Len(us) : \A j \in 1 .. c.J : \A m \in 1 .. c.M : us[k][j][m] >= c.lim[1] /\ us[k][j][m] <= c.lim[2]
LastRepeats == \A k \in 2 .. Len(us) : \A j \in 1 .. c.J : us[k][j][c.M] = us[k][j][c.M - 1]
\* without penalties every slot moves along its gradient or stays at a limit
Uphill == c.a = 0 /\ c.b = 0 => \A k \in 1 .. Len(gs) : \A j \in 1 .. c.J : \A m \in Slots : (us[k + 1][j][m] - us[k][j][m]) * gs[k][j][m] >= 0
\* with no gradient a slot without penalty stays
Still == \A k \in 1 .. Len(gs) : \A j \in 1 .. c.J : \A m \in Slots :
           gs[k][j][m] = 0 /\ c.a = 0 /\ (c.b = 0 \/ m = 1) => us[k + 1][j][m] = us[k][j][m]
\* what the adaptive routine keeps never gets worse, and its step is halved whenever nothing is kept
Better == [][ov' >= ov /\ (us' # us /\ us'[Len(us')] # U => Mode = "plain" \/ ov' >= ov)]_vars
BestSoFar == Mode = "adaptive" /\ hist # <<>> => \A k \in 1 .. Len(hist) : hist[k].o <= ov
Emit == Mode = "plain" /\ Len(us) = MaxR => PrintT("@@" \o ToJson([c |-> c, us |-> us, gs |-> gs]))
=============================================================================
