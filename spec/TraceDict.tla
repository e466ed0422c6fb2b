------------------------------- MODULE TraceDict ------------------------------
(* Recorded histories of dictionary compilations.  A history is a sequence of
   runs on one database file, each with its source files (lists of lines), the
   complaints made and the file afterwards.  The specification starts without a
   file and takes the same steps. *)
EXTENDS DictBuild

Obs == TLCEval(JsonDeserialize("obs.json"))
VARIABLES i, step, db, pc
vars == <<i, step, db, pc>>
H == Obs[i].runs

Init == i \in 1 .. Len(Obs) /\ step = 0 /\ pc = "run" /\ db = [t |-> "new", v |-> Empty]
Differ(what, exp) == PrintT("MISMATCH " \o ToJson([i |-> i, step |-> step + 1, what |-> what, exp |-> exp])) /\ FALSE
Bad == pc' = "bad" /\ UNCHANGED <<i, step, db>>

Pairs(d) == {<<x, d[x]>> : x \in DOMAIN d}
Do ==
  /\ pc = "run" /\ step < Len(H)
  /\ \E r \in {TLCEval(H[step + 1])} : \E s \in {TLCEval(Run(db.v, r.files))} :
       IF r.rc # 0 THEN Differ("rc", 0) \/ Bad
       ELSE IF r.msgs # s.msgs THEN Differ("msgs", s.msgs) \/ Bad
       ELSE IF ~Holds(r.file, s.db) THEN Differ("file", Pairs(s.db)) \/ Bad
       ELSE /\ db' = [t |-> "db", v |-> s.db] /\ step' = step + 1 /\ UNCHANGED <<i, pc>>
\* Only what was asked for, all of it, and in the end as if compiled at once.
Lead(k, c) == IF c = <<>> \/ Len(c) > MaxLen \/ Len(k) >= MaxLen THEN <<>> ELSE <<<<c, <<At>> \o k>>>>
Def(l) ==
  IF l.t # "def" THEN <<>>
  ELSE <<<<l.key, l.val>>>> \o Lead(l.key, TLCEval(CanonKey(l.key)))
Defs == TLCEval(Flatten([n \in 1 .. Len(H) |-> Flatten([f \in 1 .. Len(H[n].files) |->
          Flatten([k \in 1 .. Len(H[n].files[f]) |->
            Def(TLCEval(ReadLine(H[n].files[f][k])))])])]))
End ==
  /\ pc = "run" /\ step = Len(H)
  /\ \E ds \in {Defs} : \E d \in {db.v} :
        IF /\ \A k \in {ds[m][1] : m \in DOMAIN ds} : (k \in DOMAIN d) = Wanted(ds, k)
           /\ \A k \in DOMAIN d : LastDef(ds, k) # 0 /\ d[k] = ds[LastDef(ds, k)][2]
        THEN pc' = "ok" /\ UNCHANGED <<i, step, db>>
        ELSE Differ("theory", Pairs(d)) \/ Bad
Next == Do \/ End
=============================================================================
