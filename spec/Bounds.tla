------------------------------- MODULE Bounds -------------------------------
(* From the bounds asked for to those of every optimisation variable and of the
   initial pulse.  A limit is <<"none",0>>, <<"inf",0>> or <<"at",v>>; a request
   is one limit for all controls or a sequence of limits, and the user may set
   the list of pairs for every variable himself.  Runs follow each other on one
   optimiser, with requests changed in between: every run uses the present ones. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Reqs,        \* set of [nc, ns, lo, up, crab] first requests
          MaxOps
VARIABLES cfg, lo, up, ex, hist
vars == <<cfg, lo, up, ex, hist>>
One(r, c) == IF r.k = "scalar" THEN r.v[1] ELSE r.v[c]
Norm(l) == IF l[1] = "inf" THEN <<"none", 0>> ELSE l
\* variable m of ns * nc belongs to control ((m - 1) % nc) + 1
Ctrl(m) == ((m - 1) % cfg.nc) + 1
Want(l, u, e) == IF e # <<>> THEN e
                 ELSE [m \in 1 .. cfg.nc * cfg.ns |-> <<Norm(One(l, Ctrl(m))), Norm(One(u, Ctrl(m)))>>]
PerCtrl(l, u) == [c \in 1 .. cfg.nc |-> <<Norm(One(l, c)), Norm(One(u, c))>>]
Pairs(k) == [m \in 1 .. cfg.nc * cfg.ns |-> <<<<"at", -100 - m - k>>, <<"at", 100 + m + k>>>>]
Put(op) == hist' = Append(hist, [op |-> op, lo |-> lo', up |-> up', ex |-> ex',
                                 want |-> Want(lo', up', ex'), ctrl |-> PerCtrl(lo', up')])
Init == \E r \in Reqs : /\ cfg = [nc |-> r.nc, ns |-> r.ns, crab |-> r.crab]
                        /\ lo = r.lo /\ up = r.up /\ ex = <<>>
                        /\ hist = <<[op |-> "create", lo |-> lo, up |-> up, ex |-> ex,
                                     want |-> Want(lo, up, ex), ctrl |-> PerCtrl(lo, up)]>>
Ran == hist[Len(hist)].op = "run"
Run == ~Ran /\ UNCHANGED <<cfg, lo, up, ex>> /\ Put("run")
Shapes == {r \in Reqs : r.nc = cfg.nc /\ r.ns = cfg.ns /\ r.crab = cfg.crab}
ReqAgain(r) == Ran /\ lo' = r.lo /\ up' = r.up /\ UNCHANGED <<cfg, ex>> /\ Put("request")
SetPairs(k) == ~cfg.crab /\ Ran /\ ex' = Pairs(k) /\ UNCHANGED <<cfg, lo, up>> /\ Put("pairs")
DropPairs == Ran /\ ex # <<>> /\ ex' = <<>> /\ UNCHANGED <<cfg, lo, up>> /\ Put("drop")
Next == /\ Len(hist) < MaxOps
        /\ Run \/ (~cfg.crab /\ \E r \in Shapes : ReqAgain(r)) \/ (\E k \in {1, 2} : SetPairs(k)) \/ DropPairs
Spec == Init /\ [][Next]_vars
Fin(l, s) == IF l[1] = "at" THEN l[2] ELSE s * 1000
TypeOK == Len(hist[Len(hist)].want) = cfg.nc * cfg.ns
\* all slots of a control have the same pair unless the user gave them one by one
PerControl == ex = <<>> => LET w == Want(lo, up, ex) IN
                \A a, b \in DOMAIN w : Ctrl(a) = Ctrl(b) => w[a] = w[b]
Ordered == \A m \in DOMAIN Want(lo, up, ex) : LET p == Want(lo, up, ex)[m] IN Fin(p[1], -1) <= Fin(p[2], 1)
NoInf == \A m \in DOMAIN Want(lo, up, ex) : LET p == Want(lo, up, ex)[m] IN {p[1][1], p[2][1]} \subseteq {"none", "at"}
Emit == (Len(hist) = MaxOps \/ (cfg.crab /\ Len(hist) = 2)) /\ Ran => PrintT("@@" \o ToJson([cfg |-> cfg, h |-> hist]))
=============================================================================
