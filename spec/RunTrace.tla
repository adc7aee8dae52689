------------------------------ MODULE RunTrace ------------------------------
(* Runs of the real optimisers with the real minimisers, recorded call by call,
   checked against the rules of Optim: a run goes on exactly as long as no event
   meets a condition, and the result is what the events make it.  Errors and
   gradient norms are recorded in units of 1e-9 (capped), amplitudes in units of
   1e-6, time in units of the fake clock.                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Outcome
Runs == JsonDeserialize("trace.json")
VARIABLES r, l, nF, nG, nI, cur, over
vars == <<r, l, nF, nG, nI, cur, over>>
\* r: which run; l: next event; cur: pulse in the system; over: condition met ("" while running)
R == Runs[r]
E == R.ev[l]
Near(a, b) == a - b <= 3 /\ b - a <= 3
Say(p, w) == PrintT("@@" \o ToJson([r |-> r, l |-> l, p |-> p, why |-> w]))
Chk(c, p, w) == IF c THEN TRUE ELSE Say(p, w)

InBounds(a, b) ==   \* a: amplitudes [slot][control], b: per control <<has lower, lower, has upper, upper>>
  \A k \in DOMAIN a : \A j \in DOMAIN a[k] :
    /\ b[j][1] = 1 => a[k][j] >= b[j][2] - 2
    /\ b[j][3] = 1 => a[k][j] <= b[j][4] + 2
Bounded(e) == Chk(~R.bounded \/ InBounds(R.pulses[e.p], R.bounds), "P09", "evaluated-outside-bounds")
\* the value handed to the minimiser, or the fact that the run was ended there
Value(e) == Chk(e.raised \/ Near(e.ret, R.err[e.p]), "P07", "value-returned")

Init == /\ r \in 1 .. Len(Runs) /\ l = 1 /\ nF = 0 /\ nG = 0 /\ nI = 0 /\ cur = Runs[r].init /\ over = ""

Goal(e) == R.err[e.p] <= R.targ
Ambiguous(e) == Near(R.err[e.p], R.targ)
StepF == /\ E.op = "F" /\ nF' = nF + 1 /\ cur' = E.p /\ UNCHANGED <<nG, nI>>
         /\ over' = IF IF Ambiguous(E) THEN E.raised ELSE Goal(E) THEN "goal"
                    ELSE IF nF + 1 > R.calls THEN "calls" ELSE ""
         /\ Bounded(E) /\ Value(E)
StepG == /\ E.op = "G" /\ nG' = nG + 1 /\ cur' = E.p /\ UNCHANGED <<nF, nI>>
         /\ over' = IF IF Near(E.ret, R.mingrad) THEN E.raised ELSE E.ret < R.mingrad THEN "grad" ELSE ""
         /\ Bounded(E)
StepCB == /\ E.op = "CB" /\ nI' = nI + 1 /\ UNCHANGED <<nF, nG, cur>>
          /\ over' = IF E.t - R.t0 > R.wall THEN "wall" ELSE ""
StepRet == /\ E.op = "ret" /\ cur' = (IF E.p = 0 THEN cur ELSE E.p) /\ UNCHANGED <<nF, nG, nI>> /\ over' = "ret"
Next == /\ l <= Len(R.ev) /\ over = "" /\ r' = r /\ l' = l + 1
        /\ StepF \/ StepG \/ StepCB \/ StepRet
Spec == Init /\ [][Next]_vars

\* ---- after each event
Last == R.ev[l - 1]
Judge ==
  /\ l > 1 /\ over \in {"goal", "calls", "grad", "wall"} =>
       /\ Chk(Last.raised, "P06", "went-on-after-" \o over)
       /\ Chk(l - 1 = Len(R.ev), "P06", "events-after-" \o over)
  /\ l > 1 /\ over = "" => /\ Chk(~Last.raised, "P06", "stopped-without-reason")
                            /\ Chk(l <= Len(R.ev), "P06", "run-without-end")
  /\ l = 1 => /\ Chk(~R.initbounded \/ InBounds(R.pulses[R.init], R.bounds), "P09", "initial-outside-bounds")
  \* the result
  /\ l > Len(R.ev) /\ over # "" =>
       LET x == R.res 
           o == Returned(R.class, R.warn)
           F == {x.flags[k] : k \in DOMAIN x.flags} IN
       /\ Chk(x.why = (IF over = "ret" THEN o.why ELSE over), "P06", "reason-" \o over \o "-reported-" \o x.why)
       /\ Chk(over = "ret" /\ R.class # "MIN" => F = o.flags, "P06", "flags-of-return")
       /\ Chk(over # "ret" => F = (CASE over = "goal" -> {"goal_achieved"} [] over = "calls" -> {"max_fid_func_exceeded"}
                                     [] over = "grad" -> {"grad_norm_min_reached"} [] OTHER -> {"wall_time_limit_exceeded"}), "P06", "flags-after-" \o over)
       /\ Chk("goal_achieved" \in F <=> over = "goal", "P06", "goal_achieved")
       /\ Chk(x.pulse = cur, "P07", "final_amps")
       /\ Chk(x.left = cur, "P07", "pulse-left")
       /\ Chk(Near(x.err, R.err[cur]), "P07", "fid_err")
       /\ Chk(x.evo = 1, "P07", "evo_full_final")
       /\ Chk(x.init = R.init, "P07", "initial_amps")
       /\ Chk(Near(x.initerr, R.err[R.init]), "P07", "initial_fid_err")
       /\ Chk(x.nF = nF, "P07", "num_fid_func_calls")
       /\ Chk(x.nI = nI, "P07", "num_iter")
       /\ Chk(x.wall = R.tend - R.t0, "P07", "wall_time")
       /\ Chk(~R.bounded \/ InBounds(R.pulses[cur], R.bounds), "P09", "final-outside-bounds")
       /\ Chk(R.stats = <<>> \/ R.stats = <<nF, nG, x.nI>>, "P12", "run-statistics")
\* every check of a state has been made (they print what they find)
Judged == Judge
CallLimit == over = "" => nF <= R.calls
Progress == l <= Len(R.ev) + 1
=============================================================================
