----------------------------- MODULE GrapeTrace -----------------------------
(* Runs recorded from the real routines, in millionths, with the gradients and
   overlaps of the recorded pulses computed independently.  For the adaptive
   routine these are given for every step size that may be reached.            *)
EXTENDS GrapeOps, TLC, Json
Trace == JsonDeserialize("trace.json")
VARIABLE l
Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1
Spec == Init /\ [][Next]_l
Tol == 4
Abs(a) == IF a < 0 THEN -a ELSE a
Close(a, b) == Abs(a - b) <= Tol
CloseRow(s, t) == Len(s) = Len(t) /\ \A m \in 1 .. Len(s) : Close(s[m], t[m])
CloseU(u, v) == Len(u) = Len(v) /\ \A j \in 1 .. Len(u) : CloseRow(u[j], v[j])
Start(r) == CloseU(r.u[1], [j \in 1 .. Len(r.start) |-> [m \in 1 .. Len(r.start[j]) |-> Clip(r.start[j][m], r.lim)]])
Inside(r) == r.lim # <<>> => \A k \in 1 .. Len(r.u) : \A j \in 1 .. Len(r.u[k]) : \A m \in 1 .. Len(r.u[k][j]) :
               r.u[k][j][m] >= r.lim[1] - 1 /\ r.u[k][j][m] <= r.lim[2] + 1
Stepped(r, k, d, p) == CloseU(r.u[k + 1], [j \in 1 .. Len(r.u[k]) |-> NewRow(r.u[k][j], d[j], p[j], r.lim)])
Chain(r) == Len(r.u) = r.R /\ \A k \in 1 .. Len(r.u) - 1 : Stepped(r, k, r.d[k], r.p[k])
\* adaptive: all the ways the recorded pulses may have come about; the exponent is kept
\* as an index into the tables (X0 for the step asked for)
Best(o, x) == LET S == {o[x + k] : k \in Exps} IN CHOOSE b \in S : \A s \in S : s <= b
Grow(r, k, st) ==
  LET o == r.ov[k]
      b == Best(o, st.x)
      acc == {[x |-> NextExp(st.x, e), prev |-> o[st.x + e], done |-> st.done] :
                e \in {e \in Exps : o[st.x + e] >= b - 50 /\ Stepped(r, k, r.dx[k][st.x + e], r.px[k][st.x + e])}}
  IN IF Abs(r.log[k] - b) > 50 THEN {} ELSE
     (IF b >= st.prev - 50 THEN acc ELSE {}) \cup
     (IF b <= st.prev + 50 /\ CloseU(r.u[k + 1], r.u[k]) THEN {[x |-> st.x - 1, prev |-> st.prev, done |-> st.done]} ELSE {})
RECURSIVE Ways(_, _)
Ways(r, k) == IF k = 1 THEN {[x |-> r.x0, prev |-> 0, done |-> FALSE]}
              ELSE UNION {Grow(r, k - 1, s) : s \in {t \in Ways(r, k - 1) : r.goal < 0 \/ t.prev <= r.goal + 50}}
AChain(r) == LET W == Ways(r, Len(r.u)) IN
             /\ W # {} /\ Len(r.u) <= r.R
             \* an early end only when the overlap asked for was reached, and then it ends
             /\ \E s \in W : Len(r.u) = r.R \/ (r.goal >= 0 /\ s.prev >= r.goal - 50)
Final(r) == r.uf <= 10 /\ r.ht
Emit == l <= Len(Trace) =>
          LET r == Trace[l]
              bad(b, w) == ~b => PrintT("@@" \o ToJson([i |-> l, why |-> w])) IN
          /\ bad(Start(r), "start") /\ bad(Inside(r), "limits") /\ bad(Final(r), "final")
          /\ bad(IF r.kind = "adaptive" THEN AChain(r) ELSE Chain(r), "chain")
Consumed == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
