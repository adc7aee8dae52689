------------------------------- MODULE Config -------------------------------
(* What an optimisation is configured to be, from the options of the call.
   A call gives each option one of the values of Dom ("-": not given).  Entry
   points: create_pulse_optimizer, optimize_pulse (general), and the unitary,
   CRAB and CRAB-unitary conveniences.  Parameters may be given as an argument
   ("arg"), as an entry of a dictionary ("dict") or as both: the entry wins.
   The same parameter given through any entry point means the same.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Varied,      \* sets of options varied together (the others not given)
          Mode         \* "combine": all values of every set of Varied; "random"
VARIABLES c, todo
vars == <<c, todo>>

Crabs == {"crab", "crabunit"}
Entries == {"create", "general", "unitary"} \cup Crabs
Base == [
  alg |-> {"GRAPE", "grape", "Grape", "CRAB", "crab", "None", "BAD"},
  method |-> {"DEF", "def", "None", "", "FMIN", "fmin", "FMIN_BFGS", "fmin_bfgs", "LBFGSB", "lbfgsb", "FMIN_L_BFGS_B",
              "fmin_l_bfgs_b", "L-BFGS-B", "Nelder-Mead", "nelder-mead", "BFGS", "Powell", "NOPE"},
  via |-> {"alg"},                                  \* method given as optim_alg
  dyn |-> {"UNIT", "GEN_MAT", "SYMPL", "None", "", "BAD"},
  prop |-> {"DEF", "None", "", "APPROX", "DIAG", "FRECHET", "AUG_MAT", "BAD"},
  fid |-> {"DEF", "def", "None", "", "UNIT", "unit", "TRACEDIFF", "tracediff", "TraceDiff", "TDAPPROX", "tdapprox", "TD_APPROX", "BAD"},
  pulse |-> {"DEF", "def", "None", "RND", "LIN", "ZERO", "SINE", "SQUARE", "SAW", "TRIANGLE", "GAUSSIAN", "GAUSSIAN_EDGE",
             "RNDFOURIER", "RNDWAVES", "RNDWALK1", "RNDWALK2", "BAD"},
  ramp |-> {"GAUSSIAN_EDGE", "LIN", "BAD"},
  timing |-> {"none", "slots", "time", "tau", "tau-and-both", "no-slots", "tau-list", "one"},
  log |-> {"INTENSE", "VERBOSE", "DEBUG", "INFO", "WARN"},   \* how much is logged
  amode |-> {"ALL", "all", "DYNAMIC"},                       \* old name of the timeslot computer's type
  gens |-> {"none", "single", "fewer", "more", "wrong"},     \* CRAB generators put in place by hand, not fitting
  oper |-> {"drift-array", "drift-none", "drift-list-bad", "drift-short", "drift-long", "drift-empty", "drift-dim",
            "ctrls-qobj", "ctrls-none", "ctrls-entry", "ctrls-1d", "ctrls-empty", "ctrls-dim", "ctrls-short", "ctrls-long",
            "ctrls-ragged", "initial-array", "initial-none", "target-array", "target-none", "target-dim", "initial-dim",
            "ok-tuple", "ok-per-slot", "ok-nested", "ok-array"},
  targ |-> {"arg", "dict", "both"}, iters |-> {"arg", "dict", "both"}, wall |-> {"arg", "dict", "both"},
  mingrad |-> {"arg", "dict", "both"}, calls |-> {"dict"},
  maxcor |-> {"arg", "dict", "both"}, accur |-> {"arg", "dict", "both"}, mopt |-> {"dict"},
  phase |-> {"arg", "dict", "both"}, scale |-> {"arg", "dict", "both"},
  scaling |-> {"arg", "dict", "both"}, offset |-> {"arg", "dict", "both"}, action |-> {"arg", "dict", "both"},
  ncoef |-> {"arg", "dict", "both"}, cscale |-> {"arg", "dict", "both"}, freq |-> {"dict"}, crabp |-> {"dict", "own"},
  dynp |-> {"dict", "own"}, propp |-> {"dict"}, fidp |-> {"dict"}, optp |-> {"dict", "own"},   \* own: parameters the component has itself
   tslotp |-> {"dict"}, pulsep |-> {"dict"}, rampp |-> {"dict"},
  lb |-> {"arg", "list"}, ub |-> {"arg", "list"}, stats |-> {"on"}]
Fields == DOMAIN Base
\* what an entry point lets one say
Only(e, f) ==
  CASE e \in Crabs /\ f \in {"alg", "via"} -> {}
    [] e \in {"unitary", "crabunit"} /\ f \in {"dyn", "prop", "fid"} -> {}
    [] e \in Crabs /\ f = "amode" -> {}
    [] e # "create" /\ f = "gens" -> {}
    [] e \in Crabs /\ f \in {"mingrad", "maxcor", "accur"} -> {"dict"}
    [] e \in {"unitary", "crab", "crabunit"} /\ f = "scale" -> {"dict"}
    [] e = "crab" /\ f = "phase" -> {"dict"}
    [] e \notin Crabs /\ f \in {"ncoef", "cscale", "action"} -> {"dict"}
    [] OTHER -> Base[f]
Dom(e, f) == {"-"} \cup (Base[f] \cap Only(e, f))

Up(s) == CASE s \in {"grape", "Grape", "GRAPE"} -> "GRAPE" [] s \in {"crab", "CRAB"} -> "CRAB" [] OTHER -> s
Alg == IF c.entry \in Crabs THEN "CRAB" ELSE IF c.alg = "-" THEN "GRAPE" ELSE Up(c.alg)
Crab == Alg = "CRAB"
Meth == IF c.method = "-" THEN IF c.entry \in Crabs THEN "fmin" ELSE "DEF" ELSE c.method
MethKind == CASE Meth \in {"DEF", "def", "None"} -> IF Crab THEN "FMIN" ELSE "LBFGSB"
              [] Meth \in {"FMIN", "fmin"} -> "FMIN"
              [] Meth \in {"FMIN_BFGS", "fmin_bfgs"} -> "BFGS"
              [] Meth \in {"LBFGSB", "lbfgsb", "FMIN_L_BFGS_B", "fmin_l_bfgs_b"} -> "LBFGSB"
              [] Meth = "" -> "" [] OTHER -> "MIN"
Dyn == IF c.entry \in {"unitary", "crabunit"} THEN "UNIT" ELSE IF c.dyn \in {"-", "None", ""} THEN "GEN_MAT" ELSE c.dyn
Prop == CASE c.prop \in {"-", "DEF", "None"} -> IF Crab THEN "APPROX" ELSE IF Dyn = "UNIT" THEN "DIAG" ELSE "FRECHET"
          [] c.prop = "" -> IF Dyn = "UNIT" THEN "DIAG" ELSE "FRECHET"
          [] OTHER -> c.prop
Fid == CASE c.fid \in {"-", "DEF", "def", "None", ""} -> IF Dyn = "UNIT" THEN "UNIT" ELSE "TRACEDIFF"
         [] c.fid \in {"UNIT", "unit"} -> "UNIT"
         [] c.fid \in {"TRACEDIFF", "tracediff", "TraceDiff"} -> "TRACEDIFF"
         [] c.fid \in {"TDAPPROX", "tdapprox", "TD_APPROX"} -> "TDAPPROX"
         [] OTHER -> c.fid
Pulse == IF c.pulse \in {"-", "DEF", "def", "None"} THEN IF Crab THEN "none" ELSE "RND" ELSE c.pulse
PropDefaulted == c.prop \in {"-", "DEF", "None"}

OperOk == c.oper \in {"-", "ok-tuple", "ok-per-slot", "ok-nested", "ok-array"}
\* mistakes of the call that have to be refused, and no others
Faults == (IF Alg \notin {"GRAPE", "CRAB"} THEN {"alg"} ELSE {})
  \cup (IF Alg = "GRAPE" /\ MethKind = "FMIN" THEN {"fmin without crab"} ELSE {})
  \cup (IF MethKind = "" THEN {"method"} ELSE {})
  \cup (IF Meth = "NOPE" THEN {"solver"} ELSE {})
  \cup (IF Dyn = "BAD" THEN {"dyn"} ELSE {}) \cup (IF Prop = "BAD" THEN {"prop"} ELSE {})
  \cup (IF Fid = "BAD" THEN {"fid"} ELSE {}) \cup (IF Pulse = "BAD" THEN {"pulse"} ELSE {})
  \cup (IF c.ramp = "BAD" THEN {"ramp"} ELSE {})
  \cup (IF c.timing \in {"none", "slots", "time", "no-slots"} THEN {"timing"} ELSE {})
  \cup (IF c.gens # "-" THEN {"generators"} ELSE {})
  \cup (IF OperOk THEN {} ELSE {c.oper})
\* combinations nothing is said about
Open == \/ Crab /\ MethKind \in {"BFGS", "LBFGSB"}
        \/ Crab /\ c.prop = ""
        \/ Fid = "TRACEDIFF" /\ Prop = "APPROX" /\ c.fid \notin {"-", "DEF", "def", "None", ""}
        \/ c.gens # "-" /\ ~Crab
        \/ c.via # "-" /\ c.method = "-"
        \/ c.timing = "one" /\ c.oper \in {"ctrls-ragged", "drift-short", "ctrls-short"}

\* where the value of a parameter comes from
Src(f) == CASE c[f] \in {"dict", "both"} -> "dict" [] c[f] = "arg" -> "arg" [] OTHER -> "default"
GuessParam(f) == IF Crab /\ Pulse = "none" THEN "default" ELSE Src(f)
\* what an object's own parameters say comes after what the call says of it
OwnAfter(f) == CASE f \in {"lb", "ub"} /\ c.optp = "own" -> "own" [] f = "cscale" /\ c.crabp = "own" -> "own" [] OTHER -> Src(f)
Optimizer == CASE MethKind = "BFGS" -> "OptimizerBFGS" [] MethKind = "LBFGSB" -> "OptimizerLBFGSB"
               [] MethKind = "FMIN" -> "OptimizerCrabFmin" [] OTHER -> IF Crab THEN "OptimizerCrab" ELSE "Optimizer"
Defaults == [targ |-> IF c.entry \in Crabs THEN "1e-5" ELSE "1e-10", mingrad |-> IF c.entry \in Crabs THEN "0" ELSE "1e-10",
             iters |-> "500", wall |-> "180"]
Res == [alg |-> Alg, optimizer |-> Optimizer,
        method |-> (IF Meth \in {"DEF", "def", "None"} THEN IF Crab THEN "FMIN" ELSE "FMIN_L_BFGS_B" ELSE Meth),
        dyn |-> CASE Dyn = "UNIT" -> "DynamicsUnitary" [] Dyn = "SYMPL" -> "DynamicsSymplectic" [] OTHER -> "DynamicsGenMat",
        prop |-> CASE Prop = "APPROX" -> "PropCompApproxGrad" [] Prop = "DIAG" -> "PropCompDiag"
                   [] Prop = "AUG_MAT" -> "PropCompAugMat" [] OTHER -> "PropCompFrechet",
        fid |-> CASE Fid = "UNIT" -> "FidCompUnitary" [] Fid = "TDAPPROX" -> "FidCompTraceDiffApprox" [] OTHER -> "FidCompTraceDiff",
        pulse |-> Pulse, ramp |-> c.ramp,
        src |-> [f \in Fields |-> IF f \in {"scaling", "offset", "action", "pulsep"} THEN GuessParam(f) ELSE OwnAfter(f)],
        dflt |-> Defaults]
\* the same said to the general function
Canon == [f \in Fields \cup {"entry"} |->
            CASE f = "entry" -> "general" [] f = "alg" -> Alg [] f = "method" -> Meth
              [] f \in {"via", "log", "amode"} -> "-" [] f = "dyn" -> Dyn [] OTHER -> c[f]]

Blank(e) == [f \in Fields \cup {"entry"} |-> IF f = "entry" THEN e ELSE "-"]
Init == IF Mode = "combine"
          THEN /\ todo = {}
               /\ \E e \in Entries : \E S \in Varied : \E g \in [S -> UNION {Base[f] : f \in S} \cup {"-"}] :
                     /\ \A f \in S : g[f] \in Dom(e, f)
                     /\ c = [f \in Fields \cup {"entry"} |-> IF f \in S THEN g[f] ELSE Blank(e)[f]]
          ELSE todo = Fields /\ \E e \in Entries : c = Blank(e)
Often == {"alg", "method", "dyn", "prop", "fid", "pulse"}
Clean(f) == IF f = "gens" THEN {"-"} ELSE IF f = "timing" THEN {"-", "tau", "tau-and-both", "tau-list", "one"} ELSE IF f = "oper" THEN {"-", "ok-tuple", "ok-per-slot", "ok-nested", "ok-array"}
            ELSE IF f \in {"alg", "dyn", "prop", "fid", "pulse", "ramp", "method"} THEN (Base[f] \ {"BAD", "NOPE", "", "None"}) \cup {"-"} ELSE {"-"} \cup Base[f]
Next == /\ todo # {}
        /\ LET f == CHOOSE x \in todo : TRUE 
               r == RandomElement(1 .. 20)
               D == Dom(c.entry, f)
               v == IF f \notin Often /\ r > 8 THEN "-" ELSE IF r = 20 THEN RandomElement(D) ELSE RandomElement(D \cap Clean(f)) IN
           /\ c' = [c EXCEPT ![f] = v] /\ todo' = todo \ {f}
Spec == Init /\ [][Next]_vars
Done == todo = {} /\ ~Open

TypeOK == /\ c.entry \in Entries /\ \A f \in Fields : c[f] \in Dom(c.entry, f)
\* a parameter in a dictionary is the one in force
DictWins == Done => \A f \in Fields \ {"cscale", "lb", "ub"} : c[f] \in {"dict", "both"} => Res.src[f] = "dict" \/ (f \in {"scaling", "offset", "action", "pulsep"} /\ Crab /\ Pulse = "none")
\* names in another case select the same
CaseBlind == Done /\ Faults = {} => Optimizer \in {"Optimizer", "OptimizerBFGS", "OptimizerLBFGSB", "OptimizerCrab", "OptimizerCrabFmin"}
\* CRAB optimisers exactly for CRAB
AlgFits == Done /\ Faults = {} => (Crab <=> Optimizer \in {"OptimizerCrab", "OptimizerCrabFmin"})
\* what has no mistake in it has a canonical form without one
CanonOk == Done /\ Faults = {} => Canon.alg \in {"GRAPE", "CRAB"} /\ Canon.dyn \in {"UNIT", "GEN_MAT", "SYMPL"}
\* how much is logged is not part of what the call amounts to
LogOnly == Done => Canon.log = "-" /\ "log" \notin Faults
Emit == Done => PrintT("@@" \o ToJson([c |-> c, faults |-> Faults, res |-> Res, canon |-> Canon]))
=============================================================================
