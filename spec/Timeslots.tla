------------------------------ MODULE Timeslots ------------------------------
(* The timeslot grid of a dynamics object.  It is set through three attributes:
   the number of slots, the total time, or explicit durations, in any order and
   before or after the grid was first used; the last setting decides.  Times are
   integers (of some unit); the grid of equal slots has denominator n.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Ns, Ts, Taus, DefN, DefT, MaxOps, Sources
VARIABLES n, T, tau, buf, ctl, hist
vars == <<n, T, tau, buf, ctl, hist>>

RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE s[1] + Sum(Tail(s))
Explicit == tau # <<>>
\* number of slots, total time, and the grid as numerators over a denominator.
\* (the total of equal slots whose total was never set is the default one)
Grid(m, t, u) == IF u # <<>>
                 THEN [n |-> Len(u), t |-> Sum(u), den |-> 1, dur |-> u, grid |-> [k \in 1 .. Len(u) + 1 |-> Sum(SubSeq(u, 1, k - 1))]]
                 ELSE [n |-> m, t |-> t, den |-> m, dur |-> [k \in 1 .. m |-> t], grid |-> [k \in 1 .. m + 1 |-> (k - 1) * t]]
G == Grid(n, T, tau)

Put(op, v, u) == hist' = Append(hist, [op |-> op, v |-> v, u |-> u, g |-> Grid(n', T', tau')])

Init == /\ buf = <<>> /\ ctl = 0
        /\ \/ "bare" \in Sources /\ n = DefN /\ T = DefT /\ tau = <<>>
              /\ hist = <<[op |-> "bare", v |-> 0, u |-> <<>>, g |-> Grid(n, T, tau)]>>
           \/ "equal" \in Sources /\ n \in Ns /\ T \in Ts /\ tau = <<>>
              /\ hist = <<[op |-> "equal", v |-> T, u |-> <<n>>, g |-> Grid(n, T, tau)]>>
           \/ "tau" \in Sources /\ tau \in Taus /\ n = Len(tau) /\ T = Sum(tau)
              /\ hist = <<[op |-> "tau", v |-> 0, u |-> tau, g |-> Grid(n, T, tau)]>>

SetN(m) == n' = m /\ tau' = <<>> /\ UNCHANGED <<T, buf, ctl>> /\ Put("setN", m, <<>>)
SetT(t) == T' = t /\ tau' = <<>> /\ UNCHANGED <<n, buf, ctl>> /\ Put("setT", t, <<>>)
SetTau(u) == tau' = u /\ n' = Len(u) /\ T' = Sum(u) /\ buf' = u /\ UNCHANGED ctl /\ Put("setTau", 0, u)
ClearTau == tau' = <<>> /\ UNCHANGED <<n, T, buf, ctl>> /\ Put("clearTau", 0, <<>>)
\* the caller overwrites the array he gave; nothing was set
Scribble == /\ buf # <<>> /\ hist[Len(hist)].op # "scribble"
            /\ UNCHANGED <<n, T, tau, buf, ctl>> /\ Put("scribble", 0, <<>>)
Look(op) == UNCHANGED <<n, T, tau, buf, ctl>> /\ Put(op, 0, <<>>)
\* controls for the present grid (with or without asking for the slots to be set up)
Controls(f) == ctl' = n /\ UNCHANGED <<n, T, tau, buf>> /\ Put("controls", f, <<>>)
Use(op) == ctl = n /\ UNCHANGED <<n, T, tau, buf, ctl>> /\ Put(op, 0, <<>>)

Next == /\ Len(hist) < MaxOps
        /\ \/ \E m \in Ns : SetN(m)
           \/ \E t \in Ts : SetT(t)
           \/ \E u \in Taus : SetTau(u)
           \/ ClearTau \/ Scribble
           \/ \E o \in {"num_tslots", "evo_time", "durations", "init_timeslots", "pulse", "amp_times"} : Look(o)
           \/ \E f \in {0, 1} : Controls(f)
           \/ \E o \in {"run", "save"} : Use(o)
Spec == Init /\ [][Next]_vars

TypeOK == n \in Ns \cup {DefN} \cup {Len(u) : u \in Taus} /\ (Explicit => n = Len(tau) /\ T = Sum(tau))
Consistent == /\ Len(G.dur) = G.n /\ Sum(G.dur) = G.t * G.den
              /\ G.grid[1] = 0 /\ \A k \in 1 .. G.n : G.grid[k + 1] = G.grid[k] + G.dur[k]
              /\ G.grid[G.n + 1] = G.t * G.den
Setting == {"setN", "setT", "setTau", "clearTau", "bare", "equal", "tau"}
Last(S) == hist[CHOOSE k \in 1 .. Len(hist) : hist[k].op \in S /\ \A j \in k + 1 .. Len(hist) : hist[j].op \notin S]
LastWins == /\ Explicit <=> Last(Setting).op \in {"setTau", "tau"}
            /\ Explicit => tau = Last(Setting).u
            /\ ~Explicit => \A j \in 1 .. G.n : G.dur[j] = G.dur[1]
            \* the number of slots is the one set last, by itself or with durations
            /\ LET l == Last({"setN", "setTau", "equal", "tau", "bare"}) IN
               n = (CASE l.op = "setN" -> l.v [] l.op \in {"setTau", "tau"} -> Len(l.u) [] l.op = "equal" -> l.u[1] [] OTHER -> DefN)
            /\ LET l == Last({"setT", "setTau", "equal", "tau", "bare"}) IN
               T = (CASE l.op \in {"setT", "equal"} -> l.v [] l.op \in {"setTau", "tau"} -> Sum(l.u) [] OTHER -> DefT)
\* looking never changes the grid
LooksPure == [][hist'[Len(hist')].op \notin Setting => UNCHANGED <<n, T, tau>>]_vars
Emit == Len(hist) = MaxOps => PrintT("@@" \o ToJson(hist))
=============================================================================
