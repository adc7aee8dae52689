------------------------------ MODULE SaveAmps ------------------------------
(* Files of amplitudes.  A file holds rows of [start time,] amplitudes; contents are
   known by where they came from: the pulse (by its number) and the times.  Runs of
   the optimisation functions write the pulse they start from and the one they give. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxOps, Names, DefNames, Exts, Entries, Simulated
VARIABLES cur, last, def, files, hist
vars == <<cur, last, def, files, hist>>
\* cur: number of the pulse in force (0: none), last: numbers given out so far

None == "none"
TimesOpts == {None, "exclude", "EXCLUDE", "given", "bogus"}
AmpsOpts == {None, "given", "shorter"}
Col(t) == CASE t \in {None, "bogus"} -> "grid" [] t = "given" -> "given" [] OTHER -> "out"
Name(n) == IF n = None THEN def ELSE n
With(f, n, x) == [m \in DOMAIN f \cup {n} |-> IF m = n THEN x ELSE f[m]]
Put(op) == hist' = Append(hist, op @@ [files |-> files', cur |-> cur'])
No == [n |-> None, t |-> None, a |-> None, p |-> 0, how |-> None, ext |-> None]

Init == cur = 0 /\ last = 0 /\ def = "ctrl_amps.txt" /\ files = <<>> /\ hist = <<>>
\* a new pulse for the dynamics, at once or as an update
Pulse(how) == /\ (how = "update" => cur > 0)
              /\ last' = last + 1 /\ cur' = last + 1 /\ UNCHANGED <<def, files>>
              /\ Put([No EXCEPT !.how = how, !.p = last + 1] @@ [op |-> "pulse"])
Default(d) == def' = d /\ UNCHANGED <<cur, last, files>> /\ Put([No EXCEPT !.n = d] @@ [op |-> "default"])
\* amplitudes of other than the grid's length need their own times, or none
Save(n, t, a) == /\ cur > 0 /\ (a = "shorter" => Col(t) # "grid")
                 /\ LET p == IF a = None THEN cur ELSE last + 1 IN
                    /\ files' = With(files, Name(n), [p |-> p, t |-> Col(t), rows |-> IF a = "shorter" THEN "shorter" ELSE "all"])
                    /\ last' = (IF a = None THEN last ELSE last + 1)
                    /\ UNCHANGED <<cur, def>>
                    /\ Put([No EXCEPT !.n = n, !.t = t, !.a = a, !.p = p] @@ [op |-> "save"])
\* without a pulse nothing can be saved
Early(n, t) == /\ cur = 0 /\ UNCHANGED <<cur, last, def, files>> /\ Put([No EXCEPT !.n = n, !.t = t] @@ [op |-> "early"])
\* a run on dynamics of its own: its initial pulse is last + 1, its final one last + 2
Run(e, x) == /\ files' = (IF x = None THEN files
                          ELSE With(With(files, "ctrl_amps_initial_" \o x, [p |-> last + 1, t |-> "grid", rows |-> "all"]),
                                    "ctrl_amps_final_" \o x, [p |-> last + 2, t |-> "grid", rows |-> "all"]))
             /\ last' = last + 2 /\ UNCHANGED <<cur, def>>
             /\ Put([No EXCEPT !.how = e, !.ext = x, !.p = last + 1] @@ [op |-> "run"])
Pick(S) == IF Simulated THEN {RandomElement(S)} ELSE S
Next == /\ Len(hist) < MaxOps
        /\ \/ \E h \in Pick({"set", "update"}) : Pulse(h)
           \/ \E d \in Pick(DefNames) : Default(d)
           \/ \E n \in Pick(Names \cup {None}) : \E t \in Pick(TimesOpts) : \E a \in Pick(AmpsOpts) : Save(n, t, a)
           \/ \E n \in Pick(Names \cup {None}) : \E t \in Pick({None, "exclude"}) : Early(n, t)
           \/ \E e \in Pick(Entries) : \E x \in Pick(Exts \cup {None}) : Run(e, x)
Spec == Init /\ [][Next]_vars

TypeOK == cur <= last /\ \A n \in DOMAIN files : files[n].p \in 1 .. last
\* every file comes from the last operation that named it, and from no other
Named(h) == CASE h.op = "save" -> {h.n} [] h.op = "run" /\ h.ext # None -> {"ctrl_amps_initial_" \o h.ext, "ctrl_amps_final_" \o h.ext} [] OTHER -> {}
LastWriter == \A k \in 2 .. Len(hist) : \A n \in DOMAIN hist[k].files :
                n \in DOMAIN hist[k - 1].files /\ hist[k].files[n] # hist[k - 1].files[n] => n \in Named(hist[k]) \/ (hist[k].op = "save" /\ hist[k].n = None)
\* only saving and runs asked for files make files
Quiet == [][Len(hist') > Len(hist) /\ (LET h == hist'[Len(hist')] IN h.op \in {"pulse", "default", "early"} \/ (h.op = "run" /\ h.ext = None)) => files' = files]_vars
\* files are written by rows of the pulse in force when none is given
Current == \A k \in 1 .. Len(hist) : hist[k].op = "save" /\ hist[k].a = None => hist[k].p = hist[k].cur
Emit == Len(hist) = MaxOps => PrintT("@@" \o ToJson(hist))
=============================================================================
