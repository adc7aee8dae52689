-------------------------------- MODULE Dump --------------------------------
(***************************************************************************)
(* Recording of runs: the optimiser's dump (iteration summaries, error,    *)
(* gradient-norm and gradient logs) and the dynamics' dump (evolution      *)
(* summaries and copies of the operators of each computation), in memory   *)
(* and in files.  Pulses stand for everything computed from them.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Dyn

CONSTANTS Pulses, FidKind,
          DFull,       \* operator kinds selected by level FULL
          DAvail,      \* operator kinds that exist with the configured computers
          Stats,       \* statistics are collected
          Write,       \* records are written to files as they are made
          Places,      \* number of (directory, name) choices for the files; 0 stands for one that cannot be created
          Ops, MaxOps

OKinds == {"err", "gn", "grad"}
DKinds == {"amps", "gen", "prop", "pgrad", "fwd", "onwd", "onto"}
NP == Len(Pulses)
Idx(c) == CHOOSE i \in 1 .. NP : Pulses[i] = c

VARIABLES
  d, pend,       \* dynamics; changes of the pending evolution: <<amps, slots>>, << >> none, <<-1,-1>> not specified
  ph, cnt, it,   \* run state: phase, callback counts, summary of the iteration in progress
  o, y,          \* optimiser and dynamics dump
  files,         \* side -> place -> content
  hist
vars == <<d, pend, ph, cnt, it, o, y, files, hist>>

\* ---- a dump ---------------------------------------------------------------
Off == [on |-> FALSE, lvl |-> "NONE", summ |-> FALSE, sel |-> {}, sum |-> << >>,
        err |-> << >>, gn |-> << >>, grad |-> << >>, items |-> << >>, mixed |-> FALSE, place |-> 1, lost |-> FALSE]
AllOf(side) == IF side = "o" THEN OKinds ELSE DFull
Kinds(side) == IF side = "o" THEN OKinds ELSE DKinds
Get(side) == IF side = "o" THEN o ELSE y
Reported(side, x) ==
  IF ~x.on THEN "NONE"
  ELSE IF x.summ /\ x.sel = {} THEN "SUMMARY"
  ELSE IF x.summ /\ x.sel = AllOf(side) THEN "FULL"
  ELSE "CUSTOM"
Empty(x) == x.sum = << >> /\ x.err = << >> /\ x.gn = << >> /\ x.grad = << >> /\ x.items = << >>
Mark(x, z) == [z EXCEPT !.mixed = x.mixed \/ (~Empty(x) /\ (z.summ # x.summ \/ z.sel # x.sel))]
WithLevel(side, x, l) ==
  IF l = "NONE" THEN Off
  ELSE IF ~x.on THEN [Off EXCEPT !.on = TRUE, !.lvl = l, !.summ = TRUE, !.sel = (IF l = "FULL" THEN AllOf(side) ELSE {})]
  ELSE IF l = "CUSTOM" /\ x.lvl = "CUSTOM" THEN x
  ELSE Mark(x, [x EXCEPT !.lvl = l, !.summ = TRUE, !.sel = (IF l = "FULL" THEN AllOf(side) ELSE {})])
\* asking for files without choosing a level means SUMMARY, from the next (re)initialisation on
Asked(side, x) == IF Write /\ ~x.on THEN WithLevel(side, x, "SUMMARY") ELSE x
Cleared(x) == [x EXCEPT !.sum = << >>, !.err = << >>, !.gn = << >>, !.grad = << >>, !.items = << >>, !.mixed = FALSE]

\* ---- files -----------------------------------------------------------------
NoFile == [sum |-> <<"-">>, err |-> <<"-">>, gn |-> <<"-">>, grad |-> << >>, items |-> << >>]
\* sequence old overwritten by new from the front
Over(old, new) == [k \in 1 .. (IF Len(old) > Len(new) THEN Len(old) ELSE Len(new)) |-> IF k <= Len(new) THEN new[k] ELSE old[k]]
OverItem(a, b) == [k \in DKinds |-> IF k \in b.kinds THEN b.i ELSE a[k]]
NoItem == [k \in DKinds |-> 0]
\* entry n of the item files overwritten by item b
PutItem(F, b) == LET n == b.idx + 1 IN
   [k \in 1 .. (IF Len(F) > n THEN Len(F) ELSE n) |->
      IF k = n THEN OverItem(IF k <= Len(F) THEN F[k] ELSE NoItem, b)
      ELSE IF k <= Len(F) THEN F[k] ELSE NoItem]
RECURSIVE PutItems(_, _)
PutItems(F, s) == IF s = << >> THEN F ELSE PutItems(PutItem(F, Head(s)), Tail(s))

\* files after the records of x became those of z (one operation), written as made
Written(F, x, z) ==
  IF ~Write \/ z.lost THEN F
  ELSE LET p == z.place IN
   [F EXCEPT ![p] =
     [sum |-> IF Len(z.sum) > Len(x.sum) THEN z.sum ELSE @.sum,
      err |-> IF Len(z.err) > Len(x.err) THEN z.err ELSE @.err,
      gn  |-> IF Len(z.gn) > Len(x.gn) THEN z.gn ELSE @.gn,
      grad |-> IF Len(z.grad) > Len(x.grad) THEN Over(@.grad, z.grad) ELSE @.grad,
      items |-> IF Len(z.items) > Len(x.items) THEN PutItem(@.items, z.items[Len(z.items)]) ELSE @.items]]
\* files after everything recorded is written out on request
Out(side, F, z) ==
  LET p == z.place IN
  [F EXCEPT ![p] =
     [sum |-> IF z.summ THEN z.sum ELSE @.sum,
      err |-> IF "err" \in z.sel THEN z.err ELSE @.err,
      gn  |-> IF "gn" \in z.sel THEN z.gn ELSE @.gn,
      grad |-> IF "grad" \in z.sel THEN Over(@.grad, z.grad) ELSE @.grad,
      items |-> PutItems(@.items, z.items)]]

\* ---- recording an evolution -------------------------------------------------
\* y after dynamics went from a to b (b may contain one more evolution)
Evolved(a, b, x, pe, c) ==
  IF b.st.rec = a.st.rec \/ ~x.on THEN x
  ELSE LET item == [idx |-> Len(x.items), i |-> Idx(b.cur), kinds |-> x.sel \cap DAvail]
           any == x.sel # {}
           line == [idx |-> Len(x.sum), link |-> IF any THEN item.idx ELSE -1, c |-> c, chg |-> pe]
       IN [x EXCEPT !.items = (IF any THEN Append(@, item) ELSE @),
                    !.sum = (IF x.summ THEN Append(@, line) ELSE @)]
PendAfter(a, b, pe) == IF b.st.rec > a.st.rec THEN << >> ELSE pe
\* supplying p on a with pending pe, when changes are watched (statistics or a dump present)
PendSupply(a, p, pe, watched) ==
  IF p = a.cur THEN pe
  ELSE IF pe # << >> \/ ~watched THEN <<-1, -1>>
  ELSE <<NCh(a.cur, p), NSl(a.cur, p)>>
Watched(x) == Stats \/ x.on

\* move the dynamics: supply p (or nothing when p = NoPulse), then compute with Fn
Step(e, p, c) ==
  LET pe == IF p = NoPulse THEN pend ELSE PendSupply(d, p, pend, Watched(y)) IN
  /\ d' = e
  /\ pend' = PendAfter(d, e, pe)
  /\ y' = Evolved(d, e, y, pe, c)

LogX(op, side, a, b, out) ==
  hist' = Append(hist, [op |-> op, side |-> side, a |-> a, b |-> b, out |-> out,
                        ol |-> Reported("o", o'), yl |-> Reported("y", y')])
NoOut == [on |-> FALSE]
Log(op, side, a, b) == LogX(op, side, a, b, NoOut)
NoIt == [nF |-> -1, nG |-> -1, err |-> 0, gn |-> 0]
C0 == [I |-> 0, F |-> 0, G |-> 0]

Init ==
  \E l \in {"NONE", "SUMMARY", "FULL", "CUSTOM"}, m \in {"NONE", "SUMMARY", "FULL", "CUSTOM"} :
    /\ d = NewD(Pulses[1], ZeroSt)
    /\ o = WithLevel("o", Off, l) /\ y = Asked("y", WithLevel("y", Off, m))
    /\ pend = (IF Watched(y) THEN <<NAll(Pulses[1]), Len(Pulses[1])>> ELSE <<-1, -1>>)
    /\ ph = "idle" /\ cnt = C0 /\ it = NoIt
    /\ files = [s \in {"o", "y"} |-> [p \in 1 .. Places |-> NoFile]]
    /\ hist = <<[op |-> "create", side |-> "", a |-> l, b |-> m, out |-> NoOut, ol |-> Reported("o", o), yl |-> Reported("y", y)]>>

\* ---- running ---------------------------------------------------------------
FilesNow == files' = [files EXCEPT !["o"] = Written(@, o, o'), !["y"] = Written(@, y, y')]
Quiet == UNCHANGED <<ph, cnt, it, o>>
Start ==
  /\ ph = "idle" /\ ph' = "run" /\ cnt' = C0 /\ it' = NoIt
  /\ LET z == [d EXCEPT !.st = ZeroSt] IN
     LET e == EvoD(FidD(FidKind, z)) IN
       /\ d' = e /\ pend' = PendAfter(z, e, pend) /\ y' = Evolved(z, e, y, pend, C0)
  /\ o' = Asked("o", o) /\ Log("start", "", 0, 0)
F(i) ==
  /\ ph = "run"
  /\ cnt' = [cnt EXCEPT !.F = @ + 1]
  /\ it' = [it EXCEPT !.nF = cnt.F + 1, !.err = i]
  /\ Step(FidD(FidKind, SupplyD(d, Pulses[i])), Pulses[i], cnt')
  /\ o' = (IF o.on /\ "err" \in o.sel THEN [o EXCEPT !.err = Append(@, i)] ELSE o)
  /\ UNCHANGED ph /\ Log("F", "", i, 0)
G(i) ==
  /\ ph = "run"
  /\ cnt' = [cnt EXCEPT !.G = @ + 1]
  /\ it' = [it EXCEPT !.nG = cnt.G + 1, !.gn = i]
  /\ Step(GradD(FidKind, SupplyD(d, Pulses[i])), Pulses[i], cnt')
  /\ o' = (IF ~o.on THEN o
           ELSE [o EXCEPT !.gn = (IF "gn" \in o.sel THEN Append(@, i) ELSE @),
                          !.grad = (IF "grad" \in o.sel THEN Append(@, i) ELSE @)])
  /\ UNCHANGED ph /\ Log("G", "", i, 0)
CB ==
  /\ ph = "run"
  /\ cnt' = [cnt EXCEPT !.I = @ + 1]
  /\ o' = (IF o.on /\ o.summ
           THEN [o EXCEPT !.sum = Append(@, [idx |-> Len(o.sum), nI |-> cnt.I + 1, it |-> it])] ELSE o)
  /\ UNCHANGED <<d, pend, ph, it, y>> /\ Log("CB", "", 0, 0)
Ret ==
  /\ ph = "run" /\ ph' = "idle"
  /\ Step(EvoD(FidD(FidKind, d)), NoPulse, cnt)
  /\ UNCHANGED <<cnt, it, o>> /\ Log("ret", "", Idx(d.cur), 0)
Supply(i) == Step(SupplyD(d, Pulses[i]), Pulses[i], cnt) /\ Quiet /\ Log("supply", "", i, 0)
Compute == Step(EvoD(d), NoPulse, cnt) /\ Quiet /\ Log("evo", "", 0, 0)
ReInit(i) ==
  /\ LET e == NewD(Pulses[i], d.st) IN
       /\ y' = Asked("y", y)
       /\ d' = e /\ pend' = (IF Watched(y') /\ pend = << >> THEN <<NAll(Pulses[i]), Len(Pulses[i])>> ELSE <<-1, -1>>)
  /\ ph = "idle" /\ Quiet /\ Log("reinit", "", i, 0)

\* ---- configuring -------------------------------------------------------------
Put(side, x) == /\ o' = (IF side = "o" THEN x ELSE o)
                /\ y' = (IF side = "y" THEN x ELSE y)
                /\ UNCHANGED <<d, pend, ph, cnt, it>>
Level(side, l) ==
  LET x == Get(side) IN
  /\ l # x.lvl \/ l # Reported(side, x)
  \* a level customised by hand and then asked to be CUSTOM: not specified which selection stays
  /\ ~(l = "CUSTOM" /\ x.lvl # "CUSTOM" /\ Reported(side, x) = "CUSTOM")
  \* the optimiser's recording starts with a run
  /\ ~(side = "o" /\ ph = "run" /\ ~x.on)
  /\ Put(side, WithLevel(side, x, l)) /\ Log("level", side, l, 0)
Flag(side, k) ==
  LET x == Get(side) IN
  /\ x.on
  /\ Put(side, IF k = "summary" THEN Mark(x, [x EXCEPT !.summ = ~@])
               ELSE Mark(x, [x EXCEPT !.sel = IF k \in @ THEN @ \ {k} ELSE @ \cup {k}]))
  /\ Log("flag", side, k, IF k = "summary" THEN ~x.summ ELSE k \notin x.sel)
Clear(side) ==
  LET x == Get(side) IN x.on /\ Put(side, Cleared(x)) /\ Log("clear", side, 0, 0)
\* choose where files go; chosen while nothing is recorded
Where(side, p) ==
  LET x == Get(side) IN
  /\ x.on /\ Empty(x) /\ p # x.place
  /\ ~x.lost
  /\ Put(side, [x EXCEPT !.place = IF p = 0 THEN @ ELSE p, !.lost = (p = 0)]) /\ Log("where", side, p, 0)
WriteOut(side, dest) ==
  LET x == Get(side) IN
  /\ x.on /\ ~x.mixed /\ ~x.lost
  /\ Put(side, x) /\ LogX("writeout", side, dest, 0, x)
  /\ files' = (IF dest = "dir" THEN [files EXCEPT ![side] = Out(side, @, x)] ELSE files)

\* nothing selected and nothing summarised: not a recording
Sane == \A s \in {"o", "y"} : LET x == Get(s) IN ~x.on \/ x.summ \/ x.sel # {}

Next ==
  /\ Len(hist) < MaxOps
  /\ \/ (\/ "run" \in Ops /\ (Start \/ CB \/ Ret \/ \E i \in 1 .. NP : F(i) \/ G(i))
         \/ "dyn" \in Ops /\ (Compute \/ \E i \in 1 .. NP : Supply(i))
         \/ "reinit" \in Ops /\ \E i \in 1 .. NP : ReInit(i)
         \/ "level" \in Ops /\ \E s \in {"o", "y"}, l \in {"NONE", "SUMMARY", "FULL", "CUSTOM"} : Level(s, l)
         \/ "flag" \in Ops /\ \E s \in {"o", "y"} : \E k \in Kinds(s) \cup {"summary"} : Flag(s, k)
         \/ "clear" \in Ops /\ \E s \in {"o", "y"} : Clear(s)
         \/ "where" \in Ops /\ \E s \in {"o", "y"}, p \in 0 .. Places : Where(s, p)) /\ FilesNow
     \/ "writeout" \in Ops /\ \E s \in {"o", "y"}, t \in {"dir", "file", "stream"} : WriteOut(s, t)
Spec == Init /\ [][Next]_vars

\* ---- properties ----------------------------------------------------------------
TypeOK == /\ CoherentD(d) /\ ph \in {"idle", "run"}
          /\ o.sel \subseteq OKinds /\ y.sel \subseteq DKinds
          /\ ~o.on => Empty(o)
          /\ ~y.on => Empty(y)
\* indices are consecutive, links point to the item made in the same computation
Indexed == /\ \A k \in 1 .. Len(o.sum) : o.sum[k].idx = k - 1
           /\ \A k \in 1 .. Len(y.sum) : y.sum[k].idx = k - 1
           /\ \A k \in 1 .. Len(y.items) : y.items[k].idx = k - 1
           /\ \A k \in 1 .. Len(y.sum) : y.sum[k].link >= 0 => y.sum[k].link < Len(y.items)
           /\ \A k, m \in 1 .. Len(y.sum) : k < m /\ y.sum[m].link >= 0 => y.sum[k].link < y.sum[m].link
\* the level shown is the selection's
LevelTrue == /\ (o.on /\ o.lvl = "FULL" /\ hist[Len(hist)].op = "level" /\ hist[Len(hist)].side = "o") => Reported("o", o) = "FULL"
             /\ (y.on /\ y.lvl = "FULL" /\ hist[Len(hist)].op = "level" /\ hist[Len(hist)].side = "y") => Reported("y", y) = "FULL"
             /\ (Reported("o", o) = "FULL" => o.sel = OKinds /\ o.summ)
             /\ (Reported("y", y) = "SUMMARY" => y.sel = {} /\ y.summ)
\* without a change of selection there is one log entry per call since the records began
RecordsGrow == [][ \A k \in 1 .. Len(y.items) :
                     (y'.on /\ Len(y'.items) >= Len(y.items)) => y'.items[k] = y.items[k] ]_vars
\* what is in memory is what is in the files, unless cleared or redirected since
FilesTrue == \A s \in {"o", "y"} : LET x == Get(s) IN
   (Write /\ x.on /\ ~x.lost) =>
     /\ x.sum # << >> => files[s][x.place].sum = x.sum
     /\ x.err # << >> => files[s][x.place].err = x.err
     /\ x.gn # << >> => files[s][x.place].gn = x.gn
     /\ \A k \in 1 .. Len(x.grad) : files[s][x.place].grad[k] = x.grad[k]
     /\ \A k \in 1 .. Len(x.items) : \A q \in x.items[k].kinds : files[s][x.place].items[k][q] = x.items[k].i
NothingLost == ~Write /\ (\A n \in 1 .. Len(hist) : hist[n].op # "writeout")
               => files = [s \in {"o", "y"} |-> [p \in 1 .. Places |-> NoFile]]

Emit == Len(hist) = MaxOps => PrintT("@@" \o ToJson([h |-> hist, o |-> o, y |-> y, files |-> files]))
=============================================================================
