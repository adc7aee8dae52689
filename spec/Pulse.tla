------------------------------- MODULE Pulse -------------------------------
(***************************************************************************)
(* A pulse generator of a deterministic kind: created with parameters,      *)
(* (re)initialised, asked for pulses with or without new parameters, given  *)
(* new bounds, reset.  Every number is an exact rational; the sine and the  *)
(* two Gaussian kinds give the argument of the function instead of its      *)
(* value (turns, exponents).  Times are slot start times.                   *)
(***************************************************************************)
EXTENDS Fit, TLC, Json, FiniteSets
CONSTANTS Cfgs,                                \* generators to consider: see AllCfgs
          Kinds, Taus, Scales, Offsets, Bounds, \* Bounds: set of <<lb, ub>>
          Waves, Lens, Freqs, Phases,           \* parameters of the periodic kinds, phase in turns
          Grads, Starts, Ends,                  \* parameters of the linear kind
          Means, Vars, Decays,
          MaxGiven,                             \* parameters given at a time
          Rand,                                 \* simulation: one random choice of the arguments per step
          MaxOps
None == <<0, 0>>          \* parameter not given
Opt(S) == S \cup {None}
Periodic == {"SINE", "SQUARE", "SAW", "TRIANGLE"}
Exact == {"ZERO", "LIN", "SQUARE", "SAW", "TRIANGLE"}
\* parameter vectors <<a, b, c, d>>: what they mean depends on the kind
GivenIn(a) == Cardinality({i \in DOMAIN a : a[i] # None})
Vectors(k) == CASE k \in Periodic -> Opt(Waves) \X Opt(Lens) \X Opt(Freqs) \X Opt(Phases)
             [] k = "LIN" -> Opt(Grads) \X Opt(Starts) \X Opt(Ends) \X {None}
             [] k = "GAUSSIAN" -> Opt(Means) \X Opt(Vars) \X {None} \X {None}
             [] k = "GAUSSIAN_EDGE" -> Opt(Decays) \X {None} \X {None} \X {None}
             [] OTHER -> {None} \X {None} \X {None} \X {None}
Pars(k) == {a \in Vectors(k) : GivenIn(a) <= MaxGiven}
Nothing == <<None, None, None, None>>
VARIABLES cfg,   \* [kind, taus, scale, off, lb, ub, par]: as created
          p,     \* current parameters
          lim,   \* current bounds
          state, \* "new" | "ready" | "rejected" | "vague"
          hist
vars == <<cfg, p, lim, state, hist>>
T == RSumS(cfg.taus)
N == Len(cfg.taus)
At(i) == RSumS(SubSeq(cfg.taus, 1, i - 1))
Or(x, y) == IF x = None THEN y ELSE x
\* ------------------------------------------------------------- parameters
\* periodic: [by, val, phase]; given several, number of waves wins over wavelength over frequency
Drive(a, old) == IF a[1] # None THEN [by |-> "waves", val |-> a[1]]
                 ELSE IF a[2] # None THEN [by |-> "len", val |-> a[2]]
                 ELSE IF a[3] # None THEN [by |-> "freq", val |-> a[3]] ELSE old
FreqOf(d) == CASE d.by = "waves" -> RDiv(d.val, T) [] d.by = "len" -> RInv(d.val) [] OTHER -> d.val
Default(k, a, t) ==
  CASE k \in Periodic -> [d |-> Drive(a, [by |-> "freq", val |-> <<1, 1>>]), phase |-> Or(a[4], <<0, 1>>)]
    [] k = "LIN" -> [grad |-> IF a[3] = None THEN a[1] ELSE None,
                     start |-> Or(a[2], <<-1, 1>>),
                     end |-> IF a[3] # None THEN a[3] ELSE IF a[1] # None THEN None ELSE <<1, 1>>]
    [] k = "GAUSSIAN" -> [mean |-> Or(a[1], RMul(t, <<1, 2>>)), var |-> Or(a[2], RMul(t, <<1, 2>>))]
    [] k = "GAUSSIAN_EDGE" -> [decay |-> Or(a[1], RMul(t, <<1, 10>>))]
    [] OTHER -> [z |-> 0]
Given(k, q, a) ==
  CASE k \in Periodic -> [d |-> Drive(a, q.d), phase |-> Or(a[4], q.phase)]
    [] k = "LIN" -> [grad |-> IF a[1] # None THEN a[1] ELSE q.grad,
                     start |-> Or(a[2], q.start),
                     end |-> IF a[3] # None THEN a[3] ELSE IF a[1] # None THEN None ELSE q.end]
    [] k = "GAUSSIAN" -> [mean |-> Or(a[1], q.mean), var |-> Or(a[2], q.var)]
    [] k = "GAUSSIAN_EDGE" -> [decay |-> Or(a[1], q.decay)]
    [] OTHER -> q
Gradient(q) == IF q.end = None THEN q.grad
               ELSE IF N = 1 THEN <<0, 1>> ELSE RDiv(RSub(q.end, q.start), At(N))
\* ------------------------------------------------------------------ shapes
Turns(q, i) == RAdd(RMul(FreqOf(q.d), At(i)), q.phase)
Square(x) == RInt(4 * RFloor(x) - 2 * RFloor(RMul(<<2, 1>>, x)) + 1)
Saw(x) == RMul(<<2, 1>>, RSub(x, RInt(RFloor(RAdd(x, <<1, 2>>)))))
Triangle(x) == LET y == RAdd(x, <<1, 4>>)
               IN RSub(RMul(<<2, 1>>, RAbs(RMul(<<2, 1>>, RSub(y, RInt(RFloor(RAdd(y, <<1, 2>>))))))), <<1, 1>>)
Raw(k, q, i) ==
  CASE k = "ZERO" -> <<0, 1>>
    [] k = "LIN" -> RAdd(q.start, RMul(Gradient(q), At(i)))
    [] k = "SQUARE" -> Square(Turns(q, i))
    [] k = "SAW" -> Saw(Turns(q, i))
    [] k = "TRIANGLE" -> Triangle(Turns(q, i))
    [] k = "SINE" -> Turns(q, i)                                        \* sin of that many turns
    [] k = "GAUSSIAN" -> LET d == RSub(At(i), q.mean) IN RNeg(RDiv(RMul(d, d), RMul(<<2, 1>>, q.var)))  \* exp of it
    [] k = "GAUSSIAN_EDGE" -> RNeg(RDiv(RMul(At(i), At(i)), q.decay))   \* 1 - exp of it - exp of Far
Far(k, q, i) == IF k = "GAUSSIAN_EDGE" THEN LET d == RSub(At(i), T) IN RNeg(RDiv(RMul(d, d), q.decay)) ELSE <<0, 1>>
Shape(k, q) == TLCEval([i \in 1 .. N |-> Raw(k, q, i)])
Scaled(k, q) == Scale(Shape(k, q), cfg.scale)
\* Values at a jump of the waveform, or a fit decided by an equality, depend on rounding
Jump(k, q, i) == LET x == Turns(q, i) IN
   \/ k = "SQUARE" /\ RIsInt(RMul(<<2, 1>>, x)) /\ ~(i = 1 /\ x = <<0, 1>>)
   \/ k = "SAW" /\ RIsInt(RAdd(x, <<1, 2>>))
Touch(k, q) == k \in {"LIN", "SAW", "TRIANGLE"} /\ Is(lim[1]) /\ Is(lim[2])
               /\ LET s == Scaled(k, q) IN RAdd(RMaxS(s), cfg.off) = lim[2].v \/ RAdd(RMinS(s), cfg.off) = lim[1].v
Sharp(k, q) == k \in Exact => (~Touch(k, q) /\ (k \in Periodic => \A i \in 1 .. N : ~Jump(k, q, i)))
Pulse(k, q) == IF k \in Exact THEN Fit(Scaled(k, q), cfg.off, lim[1], lim[2]) ELSE Shape(k, q)
\* -------------------------------------------------------------- transitions
Rec(op, a, q, out) ==
  [op |-> op, a |-> a, lb |-> lim'[1], ub |-> lim'[2], state |-> state', out |-> out,
   far |-> IF out = <<>> \/ cfg.kind # "GAUSSIAN_EDGE" THEN <<>> ELSE [i \in 1 .. N |-> Far(cfg.kind, q, i)],
   sharp |-> out # <<>> /\ Sharp(cfg.kind, q),
   freq |-> IF cfg.kind \in Periodic /\ state' = "ready" THEN FreqOf(q.d) ELSE None,
   grad |-> IF cfg.kind = "LIN" /\ state' = "ready" THEN Gradient(q) ELSE None,
   fit |-> IF out # <<>> /\ cfg.kind \in Exact THEN FitCase(Scaled(cfg.kind, q), cfg.off, lim[1], lim[2]) ELSE ""]
Log(op, a, q, out) == hist' = Append(hist, Rec(op, a, q, out))
Good == Consistent(lim[1], lim[2])
Live == state \in {"new", "ready"}
InitPulse(a) ==
  /\ Live /\ UNCHANGED <<cfg, lim>>
  /\ (a # Nothing => cfg.kind \in Periodic \cup {"LIN"})
  /\ IF Good THEN p' = Given(cfg.kind, p, a) /\ state' = "ready" ELSE p' = p /\ state' = "rejected"
  /\ Log("init", a, p', <<>>)
\* The Gaussian kinds use parameters given here for this pulse only: what a later
\* pulse without parameters should be is not said, so nothing follows ("vague").
Gen(a) ==
  /\ Live /\ UNCHANGED <<cfg, lim>>
  /\ IF Good
     THEN LET q == Given(cfg.kind, p, a) IN
          /\ p' = q
          /\ state' = (IF cfg.kind \in {"GAUSSIAN", "GAUSSIAN_EDGE"} /\ a # Nothing THEN "vague" ELSE "ready")
          /\ Log("gen", a, q, Pulse(cfg.kind, q))
     ELSE p' = p /\ state' = "rejected" /\ Log("gen", a, p, <<>>)
SetBounds(b) ==
  /\ Live /\ lim' = b /\ UNCHANGED <<cfg, p, state>> /\ Log("bounds", Nothing, p, <<>>)
Reset ==
  /\ lim' = <<cfg.lb, cfg.ub>> /\ p' = Default(cfg.kind, cfg.par, T) /\ state' = "new"
  /\ UNCHANGED cfg /\ Log("reset", Nothing, p', <<>>)
BoundsFor(k) == IF k \in Exact THEN Bounds ELSE {b \in Bounds : ~Is(b[1]) /\ ~Is(b[2])}
AllCfgs == UNION {{[kind |-> k, taus |-> ts, scale |-> s, off |-> o, lb |-> b[1], ub |-> b[2], par |-> a] :
                    ts \in Taus, s \in Scales, o \in Offsets, b \in BoundsFor(k), a \in Pars(k)} : k \in Kinds}
Init ==
  /\ cfg \in Cfgs
  /\ p = Default(cfg.kind, cfg.par, T) /\ lim = <<cfg.lb, cfg.ub>>
  /\ state = "new" /\ hist = <<>>
Some(S) == IF Rand THEN {RandomElement(S)} ELSE S
Next == /\ Len(hist) < MaxOps
        /\ \/ \E a \in Some(Pars(cfg.kind)) : Gen(a)
           \/ Rand /\ Gen(Nothing)
           \/ \E a \in Some(Pars(cfg.kind)) : InitPulse(a)
           \/ \E b \in Some(BoundsFor(cfg.kind)) : SetBounds(b)
           \/ Reset
Spec == Init /\ [][Next]_vars
\* -------------------------------------------------------------- properties
TypeOK == state \in {"new", "ready", "rejected", "vague"}
\* P13
Gens == {j \in 1 .. Len(hist) : hist[j].out # <<>>}
LastGen == Len(hist) > 0 /\ hist[Len(hist)].out # <<>>
Bounded == (LastGen /\ cfg.kind \in Exact) =>
   LET o == hist[Len(hist)].out
       s == Scaled(cfg.kind, p)
   IN /\ Len(o) = N
      /\ InBounds(o, lim[1], lim[2])
      /\ (Fits(s, cfg.off, lim[1], lim[2]) => o = Shift(s, cfg.off))
      /\ Undistorted(o, s) /\ NotStretched(o, s) /\ SameOrder(o, s)
      /\ ((~Is(lim[1]) \/ ~Is(lim[2])) => \E d \in {RSub(o[1], s[1])} : o = Shift(s, d))
Rejects == (Len(hist) > 0 /\ hist[Len(hist)].op \in {"gen", "init"}) =>
   ((state = "rejected") = ~Consistent(lim[1], lim[2]))
\* P14: asking again without parameters, also after re-initialising, gives the same pulse
Again == (Len(hist) > 1 /\ LastGen) =>
   \A j \in Gens : (/\ j < Len(hist) /\ hist[j].state = "ready"
                    /\ \A i \in j + 1 .. Len(hist) : hist[i].op \in {"gen", "init"} /\ hist[i].a = Nothing)
                   => hist[j].out = hist[Len(hist)].out
\* number of waves, wavelength and frequency agree with the last one given
GivenAt == {j \in 1 .. Len(hist) : hist[j].op \in {"gen", "init"} /\ hist[j].state = "ready"
              /\ \E x \in 1 .. 3 : hist[j].a[x] # None}
Resets == {j \in 1 .. Len(hist) : hist[j].op = "reset"}
LastOf(S) == CHOOSE j \in S : \A i \in S : i <= j
Driven == (cfg.kind \in Periodic /\ state = "ready" /\ GivenAt # {}) =>
   LET j == LastOf(GivenAt)
       a == hist[j].a
       f == FreqOf(p.d)
   IN (\A i \in Resets : i < j) =>
      /\ (a[1] # None => RMul(f, T) = a[1])
      /\ (a[1] = None /\ a[2] # None => RMul(f, a[2]) = <<1, 1>>)
      /\ (a[1] = None /\ a[2] = None => f = a[3])
\* a line reaches the values it was asked for
Ends2 == (cfg.kind = "LIN" /\ LastGen /\ p.end # None /\ N > 1) =>
   Raw("LIN", p, N) = p.end /\ Raw("LIN", p, 1) = p.start
Range == (LastGen /\ cfg.kind \in {"SQUARE", "SAW", "TRIANGLE"}) =>
   \A i \in 1 .. N : RLe(RAbs(Raw(cfg.kind, p, i)), <<1, 1>>)
Emit == (Len(hist) = MaxOps \/ (state \in {"rejected", "vague"} /\ Len(hist) > 0 /\ hist[Len(hist)].op # "bounds" /\ MaxOps < 4))
        => PrintT("@@" \o ToJson([c |-> cfg, h |-> hist]))
=============================================================================
