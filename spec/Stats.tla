------------------------------- MODULE Stats -------------------------------
(***************************************************************************)
(* A statistics object: counters grow, `calculate' derives the means,      *)
(* `clear' and `reset' start afresh.  A mean is a ratio <<total, count>>;   *)
(* with a count of zero it is undefined.                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Detailed,   \* whether the per-timeslot counters exist
          Amounts,    \* amounts a counter may grow by
          MaxOps
Basic  == {"iter", "upd", "slots", "chg"}
Extra  == {"gens", "props", "fwds", "onwds", "tgen", "tprop", "tfwd", "tonwd"}
Counters == Basic \cup (IF Detailed THEN Extra ELSE {})
\* mean -> <<total, count>>
MeanOf == [m_upd   |-> <<"upd", "iter">>, m_slots |-> <<"slots", "upd">>, m_chg |-> <<"chg", "upd">>]
MeanOfX == [m_gens |-> <<"gens", "upd">>,  m_tgen |-> <<"tgen", "gens">>,
            m_props |-> <<"props", "upd">>, m_tprop |-> <<"tprop", "props">>,
            m_fwds |-> <<"fwds", "upd">>,  m_tfwd |-> <<"tfwd", "fwds">>,
            m_onwds |-> <<"onwds", "upd">>, m_tonwd |-> <<"tonwd", "onwds">>]
Means == IF Detailed THEN MeanOf @@ MeanOfX ELSE MeanOf
Zero == [c \in Counters |-> 0]
Undefined == <<0, 0>>

VARIABLES n,      \* counters
          m,      \* means as last calculated: <<total, count>>, or <<-1, -1>> when not calculated since clear
          span,   \* <<start, end>> of the optimisation, end 0 while running
          dur,    \* duration as last calculated
          hist
vars == <<n, m, span, dur, hist>>
NotYet == [k \in DOMAIN Means |-> <<-1, -1>>]
Log(op, c, a) == hist' = Append(hist, [op |-> op, c |-> c, a |-> a, n |-> n', m |-> m', dur |-> dur'])
Init == /\ n = Zero /\ m = NotYet /\ span = <<0, 0>> /\ dur = 0
        /\ hist = <<[op |-> "new", c |-> "", a |-> 0, n |-> n, m |-> m, dur |-> dur]>>
Count(c, a) == n' = [n EXCEPT ![c] = @ + a] /\ UNCHANGED <<m, span, dur>> /\ Log("count", c, a)
Begin(t) == span' = <<t, 0>> /\ UNCHANGED <<n, m, dur>> /\ Log("begin", "", t)
End(t) == span[1] > 0 /\ span' = <<span[1], span[1] + t>> /\ UNCHANGED <<n, m, dur>> /\ Log("end", "", span[1] + t)
Calc == /\ m' = [k \in DOMAIN Means |-> IF n[Means[k][2]] = 0 THEN Undefined ELSE <<n[Means[k][1]], n[Means[k][2]]>>]
        /\ dur' = (IF span[2] > 0 THEN span[2] - span[1] ELSE dur)
        /\ UNCHANGED <<n, span>> /\ Log("calc", "", 0)
Fresh(op) == n' = Zero /\ m' = NotYet /\ span' = <<0, 0>> /\ dur' = 0 /\ Log(op, "", 0)
Next == /\ Len(hist) < MaxOps
        /\ \/ \E c \in Counters, a \in Amounts : Count(c, a)
           \/ Calc \/ Fresh("clear") \/ Fresh("reset")
           \/ \E t \in {3, 5} : Begin(t) \/ End(t)
Spec == Init /\ [][Next]_vars
TypeOK == \A c \in Counters : n[c] >= 0
\* the means of the last calculation are those of the counters at that time, restated on the history
Since(k) == \A j \in k + 1 .. Len(hist) : hist[j].op \notin {"calc", "clear", "reset"}
LastDerive == {k \in 1 .. Len(hist) : hist[k].op \in {"calc", "clear", "reset", "new"} /\ Since(k)}
Ratios == \A k \in LastDerive : hist[k].op = "calc" =>
            \A x \in DOMAIN Means : /\ m[x][2] = hist[k].n[Means[x][2]]
                                    /\ (m[x][2] # 0 => m[x][1] = hist[k].n[Means[x][1]])
Forgets == [][hist'[Len(hist')].op \in {"clear", "reset"} => n' = Zero]_vars
Emit == Len(hist) = MaxOps => PrintT("@@" \o ToJson([h |-> hist]))
=============================================================================
