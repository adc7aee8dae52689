-------------------------------- MODULE Crab --------------------------------
(***************************************************************************)
(* CRAB pulses: generator objects over their life, and the optimisation     *)
(* variables of several of them.  Coefficient vectors are named: 0 is what  *)
(* initialisation makes (random or flat), v > 0 the v-th vector of the test.*)
(* A pulse is described by the stages it goes through.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Cfgs,       \* generators to consider, see AllCfgs
          Dims, NCs,  \* dimension of the system (0: no system), number of coefficients asked for (0: not given)
          Lims,       \* set of <<lower, upper>>: "none", "inf" or a number of tenths as <<"at", n>>
          Vecs, MaxOps
Actions == {"MODULATE", "modulate", "ADD", "Add", "", "BLEND"}
At(b) == b[1] = "at"
AllCfgs == [dim : Dims, nc : NCs, fix : BOOLEAN, guess : BOOLEAN, action : Actions, ramp : BOOLEAN,
            lim : Lims, rndc : BOOLEAN, rndf : BOOLEAN, via : {"params", "attrs"}]
VARIABLES cfg, nc, src, ready, set, lim, hist
vars == <<cfg, nc, src, ready, set, lim, hist>>
\* attributes given after creation are gone after a reset
Attr(x, y) == IF set THEN x ELSE y
Guess == Attr(cfg.guess, FALSE)
Ramp == Attr(cfg.ramp, FALSE)
Lim == Attr(cfg.lim, <<<<"none", 0>>, <<"none", 0>>>>)
RndC == Attr(cfg.rndc, TRUE)
RndF == Attr(cfg.rndf, TRUE)
DefaultNC == IF cfg.dim = 0 THEN 4 ELSE IF cfg.dim - 1 < 2 THEN 2 ELSE cfg.dim - 1
NCof(asked, have) == IF asked > 0 THEN asked ELSE IF have > 0 THEN have ELSE DefaultNC
Basis == IF cfg.fix THEN 2 ELSE 3
Size == nc * Basis
Act == CASE cfg.action \in {"MODULATE", "modulate"} -> "modulate" [] cfg.action \in {"ADD", "Add"} -> "add" [] OTHER -> "ignore"
LimKind(l) == CASE ~At(l[1]) /\ ~At(l[2]) -> "free"
                [] At(l[1]) /\ At(l[2]) -> "both"
                [] ~At(l[1]) /\ l[2][2] > 0 -> "upper"
                [] ~At(l[1]) -> "upper-low"        \* upper bound at or below zero
                [] ~At(l[2]) /\ l[1][2] < 0 -> "lower"
                [] OTHER -> "lower-high"
Stages(v) == <<[op |-> "sum", vec |-> v, freq |-> IF cfg.fix THEN "harmonic" ELSE "variable"]>>
  \o (IF Guess /\ Act # "ignore" THEN <<[op |-> Act, vec |-> 0, freq |-> ""]>> ELSE <<>>)
  \o (IF Ramp THEN <<[op |-> "ramp", vec |-> 0, freq |-> ""]>> ELSE <<>>)
  \o (IF lim'[3] = "free" THEN <<>> ELSE <<[op |-> lim'[3], vec |-> 0, freq |-> ""]>>)
Log(op, a, v, out) == hist' = Append(hist, [op |-> op, nc |-> a, v |-> v, out |-> out, src |-> src',
                          len |-> nc' * Basis, ncs |-> nc', rndc |-> RndC, rndf |-> RndF, ready |-> ready',
                          lo |-> lim'[1], up |-> lim'[2]])
Init == /\ cfg \in Cfgs
        /\ nc = cfg.nc /\ src = 0 /\ ready = FALSE /\ set = TRUE /\ hist = <<>>
        /\ lim = <<cfg.lim[1], cfg.lim[2], "free">>
Initd(a, v) == /\ nc' = NCof(a, nc) /\ src' = v /\ ready' = TRUE
               /\ lim' = <<Lim[1], Lim[2], LimKind(Lim)>> /\ UNCHANGED <<cfg, set>>
InitPulse(a, v) == Initd(a, v) /\ Log("init", a, v, <<>>)
\* the variables are set by the optimiser
Set(v) == /\ ready /\ src' = v /\ UNCHANGED <<cfg, nc, ready, set, lim>> /\ Log("set", 0, v, <<>>)
Gen == /\ IF ready THEN UNCHANGED <<cfg, nc, src, ready, set, lim>> ELSE Initd(0, 0)
       /\ Log("gen", 0, 0, Stages(src'))
GenWith(v) == /\ IF ready THEN src' = v /\ UNCHANGED <<cfg, nc, ready, set, lim>> ELSE Initd(0, v)
              /\ Log("genwith", 0, v, Stages(v))
Reset == /\ ready' = FALSE /\ src' = 0 /\ set' = (cfg.via = "params") /\ UNCHANGED <<cfg, nc, lim>>
         /\ Log("reset", 0, 0, <<>>)
Next == /\ Len(hist) < MaxOps
        /\ \/ \E a \in NCs, v \in Vecs \cup {0} : InitPulse(a, v)
           \/ \E v \in Vecs : Set(v) \/ GenWith(v)
           \/ Gen \/ Reset
Spec == Init /\ [][Next]_vars
\* ------------------------------------------------------------- properties
Order == [sum |-> 1, modulate |-> 2, add |-> 2, ramp |-> 3, both |-> 4, upper |-> 4, lower |-> 4]
         @@ [x \in {"upper-low", "lower-high"} |-> 4]
Last == hist[Len(hist)]
TypeOK == /\ ready => (nc > 0 /\ Size = nc * Basis)
          /\ Len(hist) > 0 => Last.src = src
StagesOrdered == (Len(hist) > 0 /\ Last.out # <<>>) =>
   /\ Last.out[1].op = "sum"
   /\ \A i, j \in DOMAIN Last.out : i < j => Order[Last.out[i].op] < Order[Last.out[j].op]
   /\ (\A b \in {lim[1], lim[2]} : ~At(b)) <=> \A i \in DOMAIN Last.out : Order[Last.out[i].op] < 4
   /\ Last.out[1].vec = src
\* nothing but an explicit new number changes the number of coefficients
Stable == [][nc > 0 => (nc' = nc \/ (hist'[Len(hist')].op = "init" /\ hist'[Len(hist')].nc = nc'))]_vars
\* what is read back is what was last set, until coefficients are made anew
ReadBack == \A v \in Vecs : (Len(hist) > 0 /\ Last.op \in {"set", "genwith"} /\ Last.v = v) => src = v
Emit == Len(hist) = MaxOps => PrintT("@@" \o ToJson([c |-> cfg, h |-> hist]))
=============================================================================
