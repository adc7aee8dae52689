-------------------------------- MODULE Evo --------------------------------
(***************************************************************************)
(* Every history of operations on a dynamics object: amplitudes are        *)
(* supplied, evolution / fidelity / gradient are computed lazily and       *)
(* cached (module Dyn), and statistics count the work.  The invariants say *)
(* no read can return anything but the value for the pulse most recently   *)
(* supplied, and that no work is done twice.                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Dyn
W == INSTANCE Words

CONSTANTS Pulses,     \* sequence of pulses (slot -> control -> amplitude id)
          FidKind,    \* "unit", "trace" or "approx" (finite differences, needs the error itself)
          NSys,       \* number of physical systems a re-initialisation may switch to
          InitAt,     \* indices of pulses allowed for the first initialisation
          Ops,        \* set of operation names explored
          MaxOps

VARIABLES
  sys,       \* which physical system (generators, initial, target) is configured
  d,         \* the dynamics (module Dyn)
  buf,       \* content of the caller's buffer (last array supplied)
  evos,      \* pulse of each evolution computed so far, in order
  hist       \* operations with their expected observations

vars == <<sys, d, buf, evos, hist>>
NP == Len(Pulses)
Idx(c) == IF c = NoPulse THEN 0 ELSE CHOOSE i \in 1 .. NP : Pulses[i] = c

Log(op, i, rd, e) ==
  /\ d' = e
  /\ evos' = (IF e.st.rec > d.st.rec THEN Append(evos, [i |-> Idx(e.cur), s |-> sys']) ELSE evos)
  /\ hist' = Append(hist, [op |-> op, i |-> i, s |-> sys', read |-> rd, st |-> e.st,
                           evos |-> Len(evos')])

Init ==
  \E i \in InitAt :
    /\ sys = 1 /\ buf = Pulses[i] /\ evos = << >>
    /\ d = NewD(Pulses[i], ZeroSt)
    /\ hist = <<[op |-> "init", i |-> i, s |-> 1, read |-> 0, st |-> d.st, evos |-> 0]>>

\* Supply pulse i, either as a fresh array or through the buffer supplied last.
Supply(op, i) ==
  /\ Len(Pulses[i]) = Len(d.cur)
  /\ sys' = sys /\ buf' = Pulses[i]
  /\ Log(op, i, 0, SupplyD(d, Pulses[i]))

\* The caller overwrites the buffer supplied last, without supplying it.
Scribble(i) ==
  /\ Len(Pulses[i]) = Len(d.cur)
  /\ sys' = sys /\ buf' = Pulses[i]
  /\ Log("scribble", i, 0, d)

Read(op, e, c) == UNCHANGED <<sys, buf>> /\ Log(op, 0, Idx(c), e)
ReadEvo  == LET e == EvoD(d)           IN Read("evo", e, e.evo)
ReadFid  == LET e == FidD(FidKind, d)  IN Read("fid", e, e.fid)
ReadGrad == LET e == GradD(FidKind, d) IN Read("grad", e, e.grad)

\* Look at the public lists without asking for a computation: nothing is
\* promised about the value, but it must not disturb later reads.
Peek == UNCHANGED <<sys, buf>> /\ Log("peek", 0, 0, d)

ReInit(i, y) ==
  /\ sys' = y /\ buf' = Pulses[i]
  /\ Log("reinit", i, 0, NewD(Pulses[i], d.st))

Next ==
  /\ Len(hist) < MaxOps
  /\ \/ "supply" \in Ops /\ \E i \in 1 .. NP : Supply("supply", i)
     \/ "resupply" \in Ops /\ \E i \in 1 .. NP : Supply("resupply", i)
     \/ "scribble" \in Ops /\ \E i \in 1 .. NP : Pulses[i] # buf /\ Scribble(i)
     \/ "evo" \in Ops /\ ReadEvo
     \/ "fid" \in Ops /\ ReadFid
     \/ "grad" \in Ops /\ ReadGrad
     \/ "peek" \in Ops /\ Peek
     \/ "reinit" \in Ops /\ \E i \in 1 .. NP, y \in 1 .. NSys : ReInit(i, y)

Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------ invariants
Contents == {Pulses[i] : i \in 1 .. NP}
TypeOK == /\ d.cur \in Contents
          /\ {d.evo, d.pn, d.fid, d.grad} \subseteq Contents \cup {NoPulse}
\* a cache never belongs to another pulse than the one held
NoStale == CoherentD(d)
\* every read returns the value for the content held at that point: the content
\* held is the one of the last supply/(re)init in the history
LastSupply == LET S == {n \in 1 .. Len(hist) : hist[n].op \in {"init", "reinit", "supply", "resupply"}}
              IN hist[CHOOSE n \in S : \A m \in S : m <= n].i
ReadsCurrent == /\ Idx(d.cur) = LastSupply
                /\ hist[Len(hist)].op \in {"evo", "fid", "grad"} => hist[Len(hist)].read = LastSupply
\* at most one computation of each kind per change of the held pulse
Changes == Cardinality({n \in 1 .. Len(hist) :
              \/ hist[n].op \in {"init", "reinit"}
              \/ hist[n].op \in {"supply", "resupply"} /\ hist[n].st.upd # hist[n-1].st.upd})
WorkBound == /\ d.st.rec <= Changes /\ d.st.fid <= Changes /\ d.st.grad <= Changes
             /\ d.st.upd = Changes /\ Len(evos) = d.st.rec
Laws == \A i \in 1 .. NP : W!SplitLaw(Pulses[i]) /\ W!OverlapLaw(Pulses[i]) /\ W!ProductRule(Pulses[i])
\* recorded computations never change
EvosGrow == [][\A k \in 1 .. Len(evos) : evos'[k] = evos[k]]_vars

\* ------------------------------------------------------------ emission
Emit == Len(hist) = MaxOps => PrintT("@@" \o ToJson([h |-> hist, e |-> evos]))

WordTable == [m \in 1 .. NP |->
   LET p == Pulses[m]
       n == Len(p) IN
   [ i |-> m, pulse |-> p,
     prop |-> [k \in 1 .. n |-> <<W!P(k, p[k])>>],
     pgrad |-> [k \in 1 .. n |-> [j \in 1 .. Len(p[k]) |-> <<W!D(k, j, p[k])>>]],
     fwd  |-> [b \in 1 .. n + 1 |-> W!Fwd(p, b - 1)],
     onwd |-> [b \in 1 .. n |-> W!Onwd(p, b - 1)],
     onto |-> [b \in 1 .. n + 1 |-> W!Onto(p, b - 1)],
     full |-> W!Full(p),
     over |-> <<W!T0>> \o W!Full(p),
     dfull |-> [k \in 1 .. n |-> [j \in 1 .. Len(p[k]) |-> W!DFull(p, k, j)]],
     dover |-> [k \in 1 .. n |-> [j \in 1 .. Len(p[k]) |-> W!DOverlap(p, k, j)]] ]]
FirstInit == CHOOSE x \in InitAt : TRUE
EmitWords == (Len(hist) = 1 /\ hist[1].i = FirstInit)
             => \A n \in 1 .. NP : PrintT("@@" \o ToJson([w |-> WordTable[n]]))
=============================================================================
