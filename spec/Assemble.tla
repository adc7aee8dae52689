------------------------------ MODULE Assemble ------------------------------
(***************************************************************************)
(* Putting dynamics and an optimiser together by hand: generators,         *)
(* controls, initial operator, target, slots, components and options may   *)
(* be set in any order and set again later.  An initialisation (or a run)  *)
(* attempted while something is missing, of a wrong type or inconsistent   *)
(* is refused with one of the errors the faults call for; nothing that was *)
(* set is lost by that, and as soon as the set-up is complete everything   *)
(* is what the settings in force say - whatever the way they came about.   *)
(* Values are names: the harness knows a concrete operand for each.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Kind,        \* "UNIT", "GEN_MAT", "SYMPL"
          Simulated,   \* one random value per operation instead of all of them
          Ops,         \* the operations explored
          FromScratch, \* the set-ups a history may start from: {TRUE} nothing set, {FALSE} complete
          MaxOps
VARIABLES cfg,   \* the settings in force
          via,   \* by which name generators were set since the last initialisation
          rdy,   \* "no": never initialised or refused; "yes": initialised with these settings; "old": settings changed since
          pulse, \* amplitudes supplied last (0: those a run left behind)
          hist
vars == <<cfg, via, rdy, pulse, hist>>

GoodDrifts == {"A1", "B1", "A2", "L3", "L2"}
BadDrifts  == {"arr", "mixed", "empty", "number"}
GoodCtrls  == {"a1", "b1", "a2", "T3", "T2"}
BadCtrls   == {"ragged", "empty", "mixed", "flat", "text", "single"}
GoodOpers  == {"U1", "V1", "U2"}
BadOpers   == {"arr", "none"}
Slots      == {2, 3}
Dtypes     == {"Qobj", "ndarray", "auto"}
Props      == IF Kind = "UNIT" THEN {"DIAG", "FRECHET", "AUG_MAT"} ELSE {"FRECHET", "AUG_MAT"}
Fids       == IF Kind = "UNIT" THEN {"UNIT", "TRACEDIFF", "TDAPPROX"} ELSE {"TRACEDIFF", "TDAPPROX"}
Phases     == {"PSU", "SU"}
Sides      == {"preop", "postop"}
Scales     == {"auto", "half", "two"}   \* of the trace difference measures
Levels     == {"NONE", "SUMMARY", "FULL"}
Tcs        == {"err", "goal"}
BadTcs     == {"none", "nogoal", "dict"}
Pulses     == 1 .. 2

Size(v) == CASE v \in {"A1", "B1", "L3", "L2", "a1", "b1", "T3", "T2", "U1", "V1"} -> 1
             [] v \in {"A2", "a2", "U2"} -> 2
             [] OTHER -> 0
Rows(v) == CASE v \in {"L3", "T3"} -> 3 [] v \in {"L2", "T2"} -> 2 [] OTHER -> 0
NumCtrls(v) == CASE v = "b1" -> 1 [] v \in GoodCtrls -> 2 [] OTHER -> 0

\* what each setting is reproached with at initialisation
DriftErr(v, n) == CASE v \in {"none", "arr", "mixed", "number"} -> {"TypeError"}
                    [] v = "empty" -> {"ValueError"}
                    [] Rows(v) \notin {0, n} -> {"ValueError"}
                    [] OTHER -> {}
CtrlErr(v, n) == CASE v \in {"none", "mixed", "flat", "text", "single"} -> {"TypeError"}
                   [] v \in {"empty", "ragged"} -> {"ValueError"}
                   [] Rows(v) \notin {0, n} -> {"ValueError"}
                   [] OTHER -> {}
OperErr(v) == IF v \in BadOpers THEN {"TypeError"} ELSE {}
InitErr(c) == DriftErr(c.drift, c.slots) \cup CtrlErr(c.ctrls, c.slots) \cup OperErr(c.ini) \cup OperErr(c.tgt)
              \cup (IF c.dtype = "text" THEN {"ValueError"} ELSE {})
              \cup (IF c.prop = "none" \/ c.fid = "none" THEN {"UsageError"} ELSE {})
RunErr(c, r) == IF c.tc \in BadTcs \/ c.dyn = "none" \/ r = "no" THEN {"UsageError"} ELSE {}

\* operators of different sizes together: nothing is said about when that is found out
Sizes(c) == {Size(v) : v \in {c.drift, c.ctrls, c.ini, c.tgt}} \ {0}
\* exact gradients are needed by the trace difference
Meaning(c) == /\ Cardinality(Sizes(c)) <= 1 /\ c.slots # 0
              /\ ~(c.prop = "APPROX" /\ c.fid = "TRACEDIFF")

Empty == [drift |-> "none", ctrls |-> "none", ini |-> "none", tgt |-> "none", slots |-> 0, dtype |-> "auto",
          prop |-> IF Kind = "UNIT" THEN "DIAG" ELSE "FRECHET", fid |-> IF Kind = "UNIT" THEN "UNIT" ELSE "TRACEDIFF",
          phase |-> "PSU", scale |-> "auto", side |-> IF Kind = "SYMPL" THEN "postop" ELSE "preop", level |-> "NONE", tc |-> "none", dyn |-> "ok"]
Complete == [Empty EXCEPT !.drift = "A1", !.ctrls = "a1", !.ini = "U1", !.tgt = "V1", !.slots = 3, !.tc = "err"]

Entry(op, f, v, h, c, r, e, p) == [op |-> op, f |-> f, v |-> v, how |-> h, cfg |-> c, rdy |-> r, err |-> e, pulse |-> p,
                                   nc |-> NumCtrls(c.ctrls), sz |-> Size(c.drift)]
Log(op, f, v, h, e) == hist' = Append(hist, Entry(op, f, v, h, cfg', rdy', e, pulse'))

Init == \E s \in FromScratch :
        /\ cfg = (IF s THEN Empty ELSE Complete)
        /\ via = [f \in {"drift", "ctrls"} |-> IF s THEN "free" ELSE "gen"] /\ rdy = "no" /\ pulse = 0
        /\ hist = <<Entry("new", "", "", "", cfg, "no", {}, 0)>>

\* settings that count at the next initialisation only
Stale == IF rdy = "yes" THEN "old" ELSE rdy
Put(f, v) == /\ cfg' = [cfg EXCEPT ![f] = v] /\ rdy' = Stale /\ UNCHANGED pulse
SetGen(f, v, h) == /\ via[f] \in {"free", h} /\ (h = "ham" => Kind = "UNIT")
                   /\ Put(f, v) /\ via' = [via EXCEPT ![f] = h] /\ Log("set", f, v, h, {})
SetPlain(f, v) == /\ Put(f, v) /\ UNCHANGED via /\ Log("set", f, v, "", {})
\* a fidelity computer that cannot work with the propagators is refused when it is made
SetFid(v) == IF v = "TRACEDIFF" /\ cfg.prop \in {"APPROX", "none"}
             THEN cfg.prop = "APPROX" /\ UNCHANGED <<cfg, via, rdy, pulse>> /\ Log("set", "fid", v, "", {"UsageError"})
             \* what everything there is to dump is, depends on the measure
             ELSE /\ cfg' = [cfg EXCEPT !.fid = v, !.phase = "PSU", !.scale = "auto", !.level = IF @ = "FULL" THEN "any" ELSE @] /\ rdy' = Stale /\ UNCHANGED <<pulse, via>>
                  /\ Log("set", "fid", v, "", {})
\* another size for everything at once
Resize(z) == /\ cfg' = [cfg EXCEPT !.drift = IF z = 1 THEN "B1" ELSE "A2", !.ctrls = IF z = 1 THEN "a1" ELSE "a2",
                                   !.ini = IF z = 1 THEN "U1" ELSE "U2", !.tgt = IF z = 1 THEN "V1" ELSE "U2"]
             /\ via = [drift |-> "free", ctrls |-> "free"]
             /\ via' = [drift |-> "gen", ctrls |-> "gen"]
             /\ rdy' = Stale /\ UNCHANGED pulse /\ Log("resize", "", "", "", {})

\* settings that count at once, and refused values of them
Live(f, v) == /\ cfg' = [cfg EXCEPT ![f] = v] /\ UNCHANGED <<via, rdy, pulse>> /\ Log("live", f, v, "", {})
Refused(f, v, e) == /\ UNCHANGED <<cfg, via, rdy, pulse>> /\ Log("live", f, v, "", e)

Initialise(p) == /\ Meaning(cfg)
                 /\ UNCHANGED cfg /\ via' = [drift |-> "free", ctrls |-> "free"]
                 /\ rdy' = (IF InitErr(cfg) = {} THEN "yes" ELSE "no")
                 /\ pulse' = (IF InitErr(cfg) = {} THEN p ELSE 0)
                 /\ Log("init", "", "", "", InitErr(cfg))
Update(p) == rdy = "yes" /\ UNCHANGED <<cfg, via, rdy>> /\ pulse' = p /\ Log("update", "", "", "", {})
Read      == rdy = "yes" /\ UNCHANGED <<cfg, via, rdy, pulse>> /\ Log("read", "", "", "", {})
\* asking too early may fail in any way, but does no harm
Early     == rdy # "yes" /\ UNCHANGED <<cfg, via, rdy, pulse>> /\ Log("early", "", "", "", {})
Run(h)    == /\ rdy # "old" /\ cfg.prop # "none" /\ cfg.fid # "none" /\ (cfg.fid = "TDAPPROX" <=> cfg.prop = "APPROX")
             /\ UNCHANGED <<cfg, via, rdy>>
             /\ pulse' = (IF RunErr(cfg, rdy) = {} THEN 0 ELSE pulse)
             /\ Log("run", "", "", h, RunErr(cfg, rdy))

Pick(S) == IF Simulated /\ S # {} THEN {RandomElement(S)} ELSE S
\* in simulation most values are good ones
Mostly(G, B) == IF ~Simulated THEN G \cup B ELSE IF RandomElement(1 .. 5) = 1 THEN Pick(B) ELSE Pick(G)
Fitting(G) == IF ~Simulated \/ Cardinality(Sizes(cfg)) # 1 \/ RandomElement(1 .. 6) = 1 THEN G
              ELSE {v \in G : Size(v) \in Sizes(cfg)}
Has(o) == o \in Ops
Next == /\ Len(hist) < MaxOps
        /\ \/ Has("drift") /\ \E v \in Mostly(Fitting(GoodDrifts), BadDrifts) : \E h \in Pick({"gen", "ham"}) : SetGen("drift", v, h)
           \/ Has("ctrls") /\ \E v \in Mostly(Fitting(GoodCtrls), BadCtrls) : \E h \in Pick({"gen", "ham"}) : SetGen("ctrls", v, h)
           \/ Has("ini") /\ \E v \in Mostly(Fitting(GoodOpers), BadOpers) : SetPlain("ini", v)
           \/ Has("tgt") /\ \E v \in Mostly(Fitting(GoodOpers), BadOpers) : SetPlain("tgt", v)
           \/ Has("slots") /\ cfg.fid # "none" /\ \E v \in Pick(Slots) : SetPlain("slots", v)
           \/ Has("dtype") /\ \E v \in Mostly(Dtypes, {"text"}) : SetPlain("dtype", v)
           \/ Has("prop") /\ \E v \in Mostly(Props, {"APPROX", "none"}) : SetPlain("prop", v)
           \/ Has("fid") /\ \E v \in Mostly(Fids, {"none"}) : SetFid(v)
           \/ Has("fid") /\ cfg.fid \in {"TRACEDIFF", "TDAPPROX"} /\ \E v \in Pick(Scales) : SetPlain("scale", v)
           \/ Has("side") /\ \E v \in Pick(Sides) : SetPlain("side", v)
           \/ Has("side") /\ \E v \in Pick({"middle", "number"}) : Refused("side", v, {"ValueError"})
           \/ Has("phase") /\ Kind = "UNIT" /\ cfg.fid = "UNIT" /\ \E v \in Pick(Phases) : Live("phase", v)
           \/ Has("phase") /\ Kind = "UNIT" /\ cfg.fid = "UNIT" /\ \E v \in Pick({"none", "XSU"}) : Refused("phase", v, {"UsageError"})
           \/ Has("level") /\ cfg.fid # "none" /\ \E v \in Pick(Levels) : Live("level", v)
           \/ Has("level") /\ cfg.fid # "none" /\ Refused("level", "EVERYTHING", {"ValueError"})
           \/ Has("level") /\ cfg.fid # "none" /\ Refused("level", "number", {"TypeError"})
           \/ Has("tc") /\ \E v \in Mostly(Tcs, BadTcs) : Live("tc", v)
           \/ Has("dyn") /\ \E v \in Mostly({"ok"}, {"none"}) : Live("dyn", v)
           \/ Has("resize") /\ \E z \in Pick({1, 2}) : Resize(z)
           \/ Has("init") /\ \E p \in Pick(Pulses) : Initialise(p)
           \/ Has("update") /\ \E p \in Pick(Pulses) : Update(p)
           \/ Has("read") /\ Read
           \/ Has("early") /\ Early
           \/ Has("run") /\ \E h \in Pick({"attribute", "argument"}) : Run(h)
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------ invariants
TypeOK == /\ rdy \in {"no", "yes", "old"} /\ pulse \in 0 .. 2
          /\ cfg.phase \in Phases /\ cfg.scale \in Scales /\ cfg.level \in Levels \cup {"any"} /\ cfg.side \in Sides
\* initialised dynamics have no fault in what they were initialised with
SoundWhenReady == rdy = "yes" => InitErr(cfg) = {} /\ Cardinality(Sizes(cfg)) = 1
\* the settings in force are those given last, refused or not
LastSet(f) == LET S == {k \in 2 .. Len(hist) : hist[k].op \in {"set", "live"} /\ hist[k].f = f /\ hist[k].err = {}}
                  R == {k \in 1 .. Len(hist) : hist[k].op \in {"new", "resize"} \/ (f \in {"phase", "scale", "level"} /\ hist[k].op = "set" /\ hist[k].f = "fid" /\ hist[k].err = {})}
                  m == CHOOSE k \in S \cup R : \A l \in S \cup R : l <= k
              IN IF m \in S THEN hist[m].v ELSE hist[m].cfg[f]
LastWins == \A f \in {"drift", "ctrls", "ini", "tgt", "slots", "dtype", "prop", "phase", "scale", "side", "level", "tc", "dyn"} : cfg[f] = LastSet(f)
\* whether something is refused depends on the settings in force alone
NoMemory == \A k \in 2 .. Len(hist) : hist[k].op = "init" => hist[k].err = InitErr(hist[k].cfg)
\* nothing refused changes a setting
RefusedHarmless == [][Len(hist') > Len(hist) /\ hist'[Len(hist')].err # {} => cfg' = cfg]_vars
\* from anywhere three kinds of corrections lead to an initialised object
Repairable == InitErr([cfg EXCEPT !.drift = "A1", !.ctrls = "a1", !.ini = "U1", !.tgt = "V1", !.slots = 3, !.dtype = "auto",
                                  !.prop = "FRECHET", !.fid = "TRACEDIFF"]) = {}
Emit == Len(hist) = MaxOps => PrintT("@@" \o ToJson(hist))
=============================================================================
