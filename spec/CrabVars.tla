------------------------------ MODULE CrabVars ------------------------------
(* The vector of optimisation variables of several CRAB generators: which part
   belongs to which generator, over a sequence of evaluations, some of vectors
   that change the block of one control only or nothing at all, with the pulse
   of the system set directly (not through the coefficients) in between.  After
   every evaluation the pulse of the system is the one of the coefficients.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxCtrls, NCs, Vecs, MaxEv
VARIABLES ncs, fix, blk, src, hist
vars == <<ncs, fix, blk, src, hist>>
Basis == IF fix THEN 2 ELSE 3
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE s[1] + Sum(Tail(s))
Start(j) == Basis * Sum(SubSeq(ncs, 1, j - 1))
Total == Basis * Sum(ncs)
Layout == [j \in 1 .. Len(ncs) |-> <<Start(j), Start(j) + Basis * ncs[j]>>]
Init == /\ \E n \in 1 .. MaxCtrls : ncs \in [1 .. n -> NCs]
        /\ fix \in BOOLEAN /\ blk = [j \in 1 .. Len(ncs) |-> 0] /\ hist = <<>>
        /\ src \in {"coefficients", "direct"}
\* evaluate the vector made of block w[j] of control j
Eval(w) == /\ blk' = w /\ src' = "coefficients" /\ UNCHANGED <<ncs, fix>>
           /\ hist' = Append(hist, [op |-> "eval", w |-> w])
\* set another pulse on the dynamics
Direct == /\ src' = "direct" /\ UNCHANGED <<ncs, fix, blk>>
          /\ hist' = Append(hist, [op |-> "direct", w |-> blk])
Next == /\ Len(hist) < MaxEv
        /\ \/ \E v \in Vecs : Eval([j \in 1 .. Len(ncs) |-> v])
           \/ \E j \in 1 .. Len(ncs), v \in Vecs : Eval([blk EXCEPT ![j] = v])
           \/ Eval(blk)
           \/ src = "coefficients" /\ Direct
Spec == Init /\ [][Next]_vars
Partition == \A x \in 0 .. Total - 1 : Cardinality({j \in 1 .. Len(ncs) : Layout[j][1] <= x /\ x < Layout[j][2]}) = 1
TypeOK == Layout[1][1] = 0 /\ Layout[Len(ncs)][2] = Total
EvalDecides == hist # <<>> /\ hist[Len(hist)].op = "eval" => src = "coefficients" /\ blk = hist[Len(hist)].w
Emit == Len(hist) = MaxEv /\ hist[MaxEv].op = "eval"
        => PrintT("@@" \o ToJson([ncs |-> ncs, fix |-> fix, total |-> Total, lay |-> Layout, h |-> hist]))
=============================================================================
