------------------------------ MODULE LoadParams ------------------------------
(* Parameter files: sections of options, loaded into objects by section.  A value
   is known by a token for its spelling; the type an attribute has when the file
   is loaded decides what the value becomes, or that it cannot become anything
   and the attribute stays.  An attribute that was None takes the value as what it
   looks like, and so has a type from then on.                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Mode, Secs, Attrs, Types0, MaxLoads, MaxOpts
\* Attrs : section -> set of attribute names, Types0 : attribute name -> type
VARIABLES ty, val, file, hist
vars == <<ty, val, file, hist>>

Numbers == {"int7", "int-3", "one", "zero"}
Floats == {"dec", "exp", "inf"}
Bools == {"yes", "off", "true", "No"}
Toks == Numbers \cup Floats \cup Bools \cup {"pi", "cplx", "word", "empty", "list", "tup", "mat", "broken", "interp"}
Keep == "keep"
\* what a value of type t becomes: a type, or Keep; "?" is left open and not used
Conv(t, k) ==
  IF k = "interp" THEN Keep ELSE
  CASE t = "str" -> "str"
    [] t \in {"float", "npfloat"} -> IF k \in Numbers \cup Floats \cup {"pi"} THEN "float" ELSE Keep
    [] t \in {"int", "npint"} -> IF k \in Numbers THEN "int" ELSE Keep
    [] t = "bool" -> IF k \in Bools \cup {"one", "zero"} THEN "bool" ELSE Keep
    [] t = "complex" -> IF k \in Numbers \cup Floats \cup {"cplx"} THEN "complex" ELSE Keep
    [] t = "none" -> IF k \in Numbers \cup Floats THEN "float" ELSE IF k \in Bools THEN "bool" ELSE "str"
    [] t = "list" -> IF k \in {"list", "tup", "mat"} THEN "list" ELSE Keep
    [] t = "array" -> IF k \in {"list", "tup", "mat"} THEN "array" ELSE IF k \in Numbers \cup Floats \cup {"pi"} THEN "?" ELSE Keep
    [] t = "qobj" -> IF k \in {"list", "mat"} THEN "qobj" ELSE IF k \in Numbers \cup Floats \cup {"pi", "cplx", "tup"} THEN "?" ELSE Keep
    [] t = "readonly" -> Keep
\* the type a later load of the same file in the same state sees
Fixed == {"str", "float", "int", "bool", "complex", "list", "array", "qobj", "readonly"}

Sections(f) == {f[k].s : k \in 1 .. Len(f)}
Unknown == {"nonesuch", "other"}
AllSecs == Secs \cup {"elsewhere"}
NamesOf(s) == IF s \in Secs THEN Attrs[s] \cup Unknown ELSE Unknown
\* what the file says about attribute a of section s
Says(f, s, a) == {k \in 1 .. Len(f) : f[k].s = s /\ f[k].a = a}

After(f, given, s, a) ==
  IF s \notin given \/ Says(f, s, a) = {} THEN [t |-> ty[s][a], v |-> val[s][a]]
  ELSE LET k == CHOOSE j \in Says(f, s, a) : TRUE  r == Conv(ty[s][a], f[k].k) IN
       IF r = Keep THEN [t |-> ty[s][a], v |-> val[s][a]] ELSE [t |-> r, v |-> f[k].k]
Specified(f, given) == \A k \in 1 .. Len(f) : f[k].s \in given /\ f[k].a \in Attrs[f[k].s] => Conv(ty[f[k].s][f[k].a], f[k].k) # "?"

Init == /\ ty = [s \in Secs |-> [a \in Attrs[s] |-> Types0[a]]]
        /\ val = [s \in Secs |-> [a \in Attrs[s] |-> "init"]]
        /\ file = <<>> /\ hist = <<>>

Add(s, a, k) == /\ Len(file) < MaxOpts /\ Says(file, s, a) = {}
                /\ s \in Secs /\ a \in Attrs[s] => Conv(ty[s][a], k) # "?"
                /\ file' = Append(file, [s |-> s, a |-> a, k |-> k]) /\ UNCHANGED <<ty, val, hist>>
Put(kind, given, t, v) == hist' = Append(hist, [kind |-> kind, file |-> file, given |-> given,
                                                now |-> UNION {{[s |-> s, a |-> a, t |-> t[s][a], v |-> v[s][a]] : a \in {x \in Attrs[s] : v[s][x] # "init"}} : s \in Secs}])
\* an object is loaded from its section; the one without a section of its own is
\* given the section's name
Load(given) == /\ file # <<>>
               /\ LET t == [s \in Secs |-> [a \in Attrs[s] |-> After(file, given, s, a).t]]
                      v == [s \in Secs |-> [a \in Attrs[s] |-> After(file, given, s, a).v]] IN
                  /\ ty' = t /\ val' = v /\ Put("load", given, t, v)
               /\ file' = file
\* no such file, a file that says something twice or is no parameter file, a
\* general object without the name of a section: an error, and nothing changes
Fail(kind, given) == /\ file # <<>> /\ (kind = "nosection" => given = {"obj"})
                     /\ UNCHANGED <<ty, val, file>> /\ Put(kind, given, ty, val)
Forget == file # <<>> /\ hist # <<>> /\ file' = <<>> /\ UNCHANGED <<ty, val, hist>>

Kinds == {"missing", "twice", "garbage", "nosection"}
Loads == Len(hist) < MaxLoads
NextAll == \/ Loads /\ \E s \in Secs : \E a \in Attrs[s] : \E k \in Toks : Add(s, a, k)
           \/ Loads /\ Len(file) = MaxOpts /\ Specified(file, Secs) /\ Load(Secs)
           \/ Loads /\ hist # <<>> /\ hist[Len(hist)].file = file /\ Forget
CanAdd(s, a, k) == Says(file, s, a) = {} /\ (s \in Secs /\ a \in Attrs[s] => Conv(ty[s][a], k) # "?")
AnySec == IF RandomElement(1 .. 12) = 1 THEN "elsewhere" ELSE RandomElement(Secs)
AnyName(s) == IF s = "elsewhere" \/ RandomElement(1 .. 10) = 1 THEN RandomElement(Unknown) ELSE RandomElement(Attrs[s])
AnyGiven == IF RandomElement(1 .. 3) = 1 THEN Secs ELSE RandomElement(SUBSET Secs)
NextAny == \E r \in {RandomElement(1 .. 10)} : \E s \in {AnySec} : \E a \in {AnyName(s)} : \E k \in {RandomElement(Toks)} :
           \E g \in {AnyGiven} : \E kd \in {RandomElement(Kinds)} :
           IF r <= 7 /\ Len(file) < MaxOpts /\ CanAdd(s, a, k) THEN Add(s, a, k)
           ELSE IF r = 8 /\ file # <<>> THEN Fail(kd, IF kd = "nosection" THEN {"obj"} ELSE g)
           ELSE IF r = 9 /\ file # <<>> /\ hist # <<>> THEN Forget
           ELSE IF file # <<>> /\ Specified(file, g) THEN Load(g)
           ELSE UNCHANGED vars
Next == IF Mode = "all" THEN NextAll ELSE Loads /\ NextAny
Spec == Init /\ [][Next]_vars
Done == Len(hist) = MaxLoads

TypeOK == \A s \in Secs : \A a \in Attrs[s] : val[s][a] \in Toks \cup {"init"} /\ ty[s][a] # "?"
\* types settle: only an attribute that was None, or of a numpy scalar, changes its type
Settled == [][\A s \in Secs : \A a \in Attrs[s] : ty[s][a] \in Fixed => ty'[s][a] = ty[s][a]]_vars
\* only what the file says of a given object changes
OnlySaid == [][\A s \in Secs : \A a \in Attrs[s] : val'[s][a] # val[s][a] =>
                 /\ Len(hist') = Len(hist) + 1 /\ hist'[Len(hist')].kind = "load"
                 /\ s \in hist'[Len(hist')].given /\ Says(file, s, a) # {} /\ val'[s][a] = file[CHOOSE k \in Says(file, s, a) : TRUE].k]_vars
\* loading the same file again changes no value any more
Idem == \A j \in 1 .. Len(hist) - 1 : hist[j].kind = "load" /\ hist[j + 1].kind = "load" /\ hist[j].file = hist[j + 1].file /\ hist[j].given = hist[j + 1].given
                                      => hist[j].now = hist[j + 1].now
Emit == Done => PrintT("@@" \o ToJson(hist))
=============================================================================
