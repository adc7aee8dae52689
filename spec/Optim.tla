------------------------------- MODULE Optim -------------------------------
(***************************************************************************)
(* The optimiser: callbacks made by an arbitrary function minimiser, the   *)
(* termination conditions, the result objects, the records of the run and  *)
(* repeated runs of one optimiser object.                                  *)
(*                                                                         *)
(* Amounts are abstract: ErrRank[i] orders the fidelity errors of the      *)
(* pulses, GradRank[i] their gradient norms.  Pulses have even ranks; a    *)
(* limit with an even rank equals that pulse's value, with an odd rank it  *)
(* lies between two pulses.                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Dyn, Outcome

CONSTANTS Class,      \* "MIN", "BFGS", "LBFGSB", "CRAB" (minimize), "FMIN" (Nelder-Mead)
          Pulses, ErrRank, GradRank,
          FidKind,    \* see Dyn
          UseGrad,    \* the minimiser may ask for gradients
          Settings,   \* sequence of [targ, calls, mingrad, wall, iters, bounds]
          Warns,      \* return codes the minimiser may give
          Ticks,      \* amounts of time that may pass
          Between,    \* operations explored between runs: subset of {"set","reset","reinit","use"}
          MaxBetween, MaxEv, MaxRuns,
                  StartSet,   \* settings a behaviour may begin with
          DumpLevels  \* levels of recording explored (chosen at the beginning): "NONE", "SUMMARY", "FULL"

VARIABLES
  d,        \* the dynamics
  set,      \* settings in force
  lvl,      \* recording level
  phase,    \* "idle" or "run"
  clock,    \* time
  run,      \* the run in progress: [t0, nF, nG, nI, init, it]
  rec,      \* records: iteration summaries, error log, gradient log (grow over runs)
  res,      \* result objects handed out so far
  hist      \* operations performed

vars == <<d, set, lvl, phase, clock, run, rec, res, hist>>
NP == Len(Pulses)
Idx(c) == CHOOSE i \in 1 .. NP : Pulses[i] = c
Crab == Class \in {"CRAB", "FMIN"}
NoSum == [nF |-> -1, nG |-> -1, err |-> 0, gn |-> 0]

Init ==
  \E i \in {1}, l \in DumpLevels, s \in StartSet :
    /\ d = NewD(Pulses[i], ZeroSt)
    /\ set = s /\ lvl = l /\ phase = "idle" /\ clock = 0
    /\ run = [t0 |-> 0, nF |-> 0, nG |-> 0, nI |-> 0, init |-> 0, it |-> NoSum, ev |-> 0]
    /\ rec = [sum |-> << >>, err |-> << >>, gn |-> << >>]
    /\ res = << >>
    /\ hist = <<[op |-> "create", i |-> i, w |-> 0, s |-> s, fin |-> FALSE, lvl |-> l]>>

S == Settings[set]
Op(op, i, w, fin) == hist' = Append(hist, [op |-> op, i |-> i, w |-> w, s |-> set', fin |-> fin, lvl |-> lvl])
NRuns == Cardinality({n \in 1 .. Len(hist) : hist[n].op = "start"})
\* operations since the last run ended
RECURSIVE Gap(_)
Gap(h) == IF h = << >> \/ h[Len(h)].fin \/ h[Len(h)].op = "create" THEN 0 ELSE 1 + Gap(SubSeq(h, 1, Len(h) - 1))

\* ---- the outcome of a run --------------------------------------------
\* reason and flags for a condition met in a callback
Condition(c) == CASE c = "goal" -> {"goal_achieved"}
                  [] c = "calls" -> {"max_fid_func_exceeded"}
                  [] c = "grad" -> {"grad_norm_min_reached"}
                  [] c = "wall" -> {"wall_time_limit_exceeded"}
Finish(d1, r, why, flags, now) ==
  LET d2 == EvoD(FidD(FidKind, d1)) IN
  /\ d' = d2
  /\ res' = Append(res, [why |-> why, flags |-> flags, pulse |-> Idx(d2.cur), init |-> r.init,
                         nF |-> r.nF, nG |-> r.nG, nI |-> r.nI, wall |-> now - r.t0,
                         t0 |-> r.t0, st |-> d2.st, s |-> set])
  /\ phase' = "idle"
  /\ run' = r

Continue(d1, r) == d' = d1 /\ run' = r /\ UNCHANGED <<res, phase>>

\* ---- the run -----------------------------------------------------------
Start ==
  /\ phase = "idle" /\ NRuns < MaxRuns
  /\ phase' = "run"
  \* statistics start afresh, then the initial error and evolution are computed
  /\ d' = EvoD(FidD(FidKind, [d EXCEPT !.st = ZeroSt]))
  /\ run' = [t0 |-> clock, nF |-> 0, nG |-> 0, nI |-> 0, init |-> Idx(d.cur), it |-> NoSum, ev |-> 0]
  /\ UNCHANGED <<set, lvl, clock, rec, res>>
  /\ Op("start", Idx(d.cur), 0, FALSE)

Running == phase = "run" /\ run.ev < MaxEv

F(i) ==
  LET d1 == FidD(FidKind, SupplyD(d, Pulses[i]))
      r  == [run EXCEPT !.nF = @ + 1, !.ev = @ + 1, !.it.nF = run.nF + 1, !.it.err = i]
      goal == ErrRank[i] <= S.targ
      over == r.nF > S.calls
  IN /\ Running
     /\ rec' = (IF lvl = "FULL" THEN [rec EXCEPT !.err = Append(@, i)] ELSE rec)
     /\ UNCHANGED <<set, lvl, clock>>
     /\ IF goal THEN Finish(d1, r, "goal", Condition("goal"), clock)
        ELSE IF over THEN Finish(d1, r, "calls", Condition("calls"), clock)
        ELSE Continue(d1, r)
     /\ Op("F", i, 0, goal \/ over)

G(i) ==
  LET d1 == GradD(FidKind, SupplyD(d, Pulses[i]))
      r  == [run EXCEPT !.nG = @ + 1, !.ev = @ + 1, !.it.nG = run.nG + 1, !.it.gn = i]
      low == GradRank[i] < S.mingrad
  IN /\ Running /\ UseGrad
     /\ rec' = (IF lvl = "FULL" THEN [rec EXCEPT !.gn = Append(@, i)] ELSE rec)
     /\ UNCHANGED <<set, lvl, clock>>
     /\ IF low THEN Finish(d1, r, "grad", Condition("grad"), clock) ELSE Continue(d1, r)
     /\ Op("G", i, 0, low)

CB ==
  LET r == [run EXCEPT !.nI = @ + 1, !.ev = @ + 1]
      wall == clock - run.t0
      late == wall > S.wall
      line == [idx |-> Len(rec.sum), nI |-> r.nI, nF |-> r.it.nF, nG |-> r.it.nG,
               err |-> r.it.err, gn |-> r.it.gn, wall |-> wall]
  IN /\ Running
     /\ rec' = (IF lvl = "NONE" THEN rec ELSE [rec EXCEPT !.sum = Append(@, line)])
     /\ UNCHANGED <<set, lvl, clock>>
     /\ IF late THEN Finish(d, r, "wall", Condition("wall"), clock) ELSE Continue(d, r)
     /\ Op("CB", 0, 0, late)

Tick(t) ==
  /\ Running
  /\ hist[Len(hist)].op # "tick"
  /\ clock' = clock + t
  /\ run' = [run EXCEPT !.ev = @ + 1]
  /\ UNCHANGED <<d, set, lvl, phase, rec, res>>
  /\ Op("tick", t, 0, FALSE)

Ret(i, w) ==
  /\ phase = "run"
  /\ LET o == Returned(Class, w) IN Finish(SupplyD(d, Pulses[i]), run, o.why, o.flags, clock)
  /\ UNCHANGED <<set, lvl, clock, rec>>
  /\ Op("ret", i, w, TRUE)

\* ---- between runs --------------------------------------------------------
Idle == phase = "idle" /\ NRuns >= 1 /\ Gap(hist) < MaxBetween
Set(s) ==
  /\ Idle /\ "set" \in Between /\ s # set
  /\ set' = s
  /\ UNCHANGED <<d, lvl, phase, clock, run, rec, res>>
  /\ Op("set", s, 0, FALSE)
Reset(i) ==       \* supply another pulse to start from
  /\ Idle /\ "reset" \in Between
  /\ d' = SupplyD(d, Pulses[i])
  /\ UNCHANGED <<set, lvl, phase, clock, run, rec, res>>
  /\ Op("reset", i, 0, FALSE)
ReInit(i) ==      \* re-initialise the controls with another pulse
  /\ Idle /\ "reinit" \in Between
  /\ d' = NewD(Pulses[i], d.st)
  /\ UNCHANGED <<set, lvl, phase, clock, run, rec, res>>
  /\ Op("reinit", i, 0, FALSE)
Use(i) ==         \* use the dynamics for something else
  /\ Idle /\ "use" \in Between
  /\ d' = EvoD(FidD(FidKind, SupplyD(d, Pulses[i])))
  /\ UNCHANGED <<set, lvl, phase, clock, run, rec, res>>
  /\ Op("use", i, 0, FALSE)

Next ==
  \/ Start
  \/ \E i \in 1 .. NP : F(i) \/ G(i)
  \/ CB
  \/ \E t \in Ticks : Tick(t)
  \/ \E i \in 1 .. NP, w \in Warns : Ret(i, w)
  \/ \E s \in 1 .. Len(Settings) : Set(s)
  \/ \E i \in 1 .. NP : Reset(i) \/ ReInit(i) \/ Use(i)

Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------ properties
TypeOK == /\ phase \in {"idle", "run"}
          /\ Idx(d.cur) \in 1 .. NP
          /\ CoherentD(d)

\* The history alone decides what should be reported: these restate the run
\* from the sequence of operations, independently of the bookkeeping above.
Starts == {n \in 1 .. Len(hist) : hist[n].op = "start"}
LastStart == CHOOSE n \in Starts : \A m \in Starts : m <= n
RunEvents == {n \in LastStart + 1 .. Len(hist) : hist[n].op \in {"F", "G", "CB", "tick", "ret"}}
N(op) == Cardinality({n \in RunEvents : hist[n].op = op})
Elapsed(m) == SumSeq([k \in 1 .. m - LastStart |-> IF hist[LastStart + k].op = "tick" THEN hist[LastStart + k].i ELSE 0])
CallsUpTo(m) == Cardinality({n \in RunEvents : n <= m /\ hist[n].op = "F"})
Meets(n) == LET e == hist[n]  s == Settings[e.s] IN
   \/ e.op = "F" /\ (ErrRank[e.i] <= s.targ \/ CallsUpTo(n) > s.calls)
   \/ e.op = "G" /\ GradRank[e.i] < s.mingrad
   \/ e.op = "CB" /\ Elapsed(n) > s.wall
\* a run goes on exactly as long as no event met a condition
StopsAtFirst ==
  Starts # {} =>
   /\ (phase = "run" => \A n \in RunEvents : ~Meets(n) /\ hist[n].op # "ret")
   /\ \A n \in RunEvents : hist[n].fin <=> (Meets(n) \/ hist[n].op = "ret")
   /\ (phase = "idle" => Cardinality({n \in RunEvents : hist[n].fin}) = 1)
ReasonTrue ==
  (Starts # {} /\ phase = "idle") =>
    LET r == res[Len(res)]
        s == Settings[r.s]
        n == CHOOSE n \in RunEvents : hist[n].fin
        e == hist[n] IN
    /\ ("goal_achieved" \in r.flags) <=> (e.op = "F" /\ ErrRank[e.i] <= s.targ)
    /\ r.why = "goal" <=> "goal_achieved" \in r.flags
    /\ r.why = "grad" => e.op = "G" /\ GradRank[r.pulse] < s.mingrad
    /\ r.why = "wall" <=> "wall_time_limit_exceeded" \in r.flags
    /\ r.why = "wall" => e.op = "CB" /\ r.wall > s.wall
    /\ r.why = "calls" => r.nF = s.calls + 1
    /\ Cardinality(r.flags) <= 1
    /\ r.nF = N("F") /\ r.nG = N("G") /\ r.nI = N("CB") /\ r.wall = Elapsed(Len(hist))
    \* the pulse described is the one last supplied by the minimiser
    /\ LET P == {m \in RunEvents : hist[m].op \in {"F", "G", "ret"}} IN
       r.pulse = IF P = {} THEN r.init ELSE hist[CHOOSE m \in P : \A k \in P : k <= m].i
    /\ r.init = hist[LastStart].i
\* statistics of a run count only what happened in it
FreshStats ==
  \A k \in 1 .. Len(res) : LET r == res[k] IN
    /\ r.st.rec <= 1 + r.nF + r.nG + 1
    /\ r.st.upd <= r.nF + r.nG + 1
    /\ r.st.fid <= 1 + r.st.upd
    /\ r.st.grad <= r.nG
    /\ r.nG = 0 => r.st.grad = 0
LimitsKept == \A k \in 1 .. Len(res) : res[k].nF <= Settings[res[k].s].calls + 1
RecordsOk ==
  /\ \A k \in 1 .. Len(rec.sum) : rec.sum[k].idx = k - 1
  /\ lvl = "NONE" => rec.sum = << >>
  /\ lvl # "FULL" => rec.err = << >> /\ rec.gn = << >>
  /\ lvl = "FULL" => Len(rec.err) = Cardinality({n \in 1 .. Len(hist) : hist[n].op = "F"})
  /\ lvl # "NONE" => Len(rec.sum) = Cardinality({n \in 1 .. Len(hist) : hist[n].op = "CB"})
\* result objects and records once made never change
Immutable == [][/\ \A k \in 1 .. Len(res) : res'[k] = res[k]
                /\ \A k \in 1 .. Len(rec.sum) : rec'.sum[k] = rec.sum[k]
                /\ \A k \in 1 .. Len(rec.err) : rec'.err[k] = rec.err[k]
                /\ \A k \in 1 .. Len(rec.gn) : rec'.gn[k] = rec.gn[k]]_vars

Done == phase = "idle" /\ Len(res) = MaxRuns
Emit == (Done /\ (MaxBetween = 0 \/ Between \cap {"use"} = {} \/ Gap(hist) = MaxBetween))
        => PrintT("@@" \o ToJson([h |-> hist, res |-> res, rec |-> rec, st |-> d.st]))
=============================================================================
