------------------------------ MODULE TracePipe ------------------------------
(* Whole texts through the analyser: characters, words, quotation and erasure,
   indicators, compounds, grammar, tree.  obs.json holds recorded runs of
   jbofihe; each initial state is one of them, each step one stage; what the
   run showed at that stage is compared with what the specification says.

   A record:  text  the characters         full  -re given        ie  -ie given
              comp  -t instead of -tf      rc, before, after (lists of lines),
              tree  (lines <<depth, label>>), msgs (stderr lines of the lexer and
              preprocessor), err (lines of the first syntax-error report), brk (items
              of the bracketed output of a second run without -t), warn
   (lines about missing selbri before the first report).  *)
EXTENDS Lexer, Preproc, Compound, Bracketed
CONSTANT Compare    \* subset of {"before","after","tree","msgs","rc","err","brk","warn"}

Obs == TLCEval(JsonDeserialize("obs.json"))
VARIABLES i, pc, toks, msgs, aux
vars == <<i, pc, toks, msgs, aux>>
o == Obs[i]

Init == i \in 1 .. Len(Obs) /\ pc = "lex" /\ toks = <<>> /\ msgs = <<>> /\ aux = <<>>

Differ(what, exp) == PrintT("MISMATCH " \o ToJson([i |-> i, what |-> what, exp |-> exp]))
Same(what, exp, got) == what \notin Compare \/ exp = got \/ (Differ(what, exp) /\ FALSE)
Stop(ok) == pc' = (IF ok THEN "ok" ELSE "bad") /\ UNCHANGED <<i, toks, msgs, aux>>
Go(next, t, m) == pc' = next /\ toks' = t /\ msgs' = m /\ UNCHANGED <<i, aux>>

LexStage ==
  /\ pc = "lex"
  /\ \E r \in {Lex(o.text)} :      \* (a bound variable is evaluated once, a LET in an action at each mention)
       IF r.msgs # <<>> THEN Stop(Same("msgs", r.msgs, o.msgs) /\ Same("rc", 3, o.rc) /\ Same("before", <<>>, o.before))
       ELSE IF Same("before", List(r.toks), o.before) THEN Go("quote", r.toks, <<>>) ELSE Stop(FALSE)

\* zo, then lo'u; a missing partner ends the run.
QuoteStage ==
  /\ pc = "quote"
  /\ \E z \in {HandleZo(toks)} :
     IF z.m # <<>> THEN Stop(Same("msgs", z.m, o.msgs) /\ Same("rc", 1, o.rc) /\ Same("after", <<>>, o.after))
     ELSE \E u \in {HandleLohu(z.t)} :
     IF u.m # <<>> THEN Stop(Same("msgs", u.m, o.msgs) /\ Same("rc", 1, o.rc) /\ Same("after", <<>>, o.after))
     ELSE Go("erase", u.t, <<>>)

EraseStage ==
  /\ pc = "erase"
  /\ \E s \in {HandleSi(toks)} : Go("attach", HandleSu(HandleSa(s.t)), s.m)

AttachStage ==
  /\ pc = "attach"
  /\ \E z \in {HandleZei(toks)} : \E b \in {HandleBu(HandleBahe(z.t))} : \E m \in {z.m \o b.m} :
        IF m # <<>> THEN Stop(Same("msgs", msgs \o m, o.msgs) /\ Same("rc", 3, o.rc) /\ Same("after", <<>>, o.after))
        ELSE Go("group", HandleIndicators(b.t), msgs)

GroupStage ==
  /\ pc = "group"
  /\ \E t \in {Categorize(toks)} :
     IF Same("msgs", msgs, o.msgs) /\ Same("after", List(t), o.after)
     THEN IF Compare \cap {"tree", "rc", "err", "brk", "warn"} = {} THEN Stop(TRUE) ELSE Go("parse", t, msgs)
     ELSE Stop(FALSE)

ParseStage ==
  /\ pc = "parse"
  /\ \E p \in {Parse(IF o.full THEN LrFull ELSE LrNorm, toks, o.ie)} :
     IF p.res = "ok"
     THEN Stop(Same("rc", 0, o.rc) /\ ("warn" \notin Compare \/ Same("warn", Suspects(p.tree[1]), o.warn)) /\ Same("err", <<>>, o.err)
               /\ ("brk" \notin Compare \/ Same("brk", Brackets(p.tree[1]), o.brk))
               /\ ("tree" \notin Compare \/ Same("tree", Lines(IF o.comp THEN Compress(p.tree[1]) ELSE p.tree[1], 0), o.tree)))
     ELSE Stop(Same("rc", TRUE, o.rc \in {1, 2}) /\ Same("tree", <<>>, o.tree)
               /\ ("warn" \notin Compare \/ Same("warn", IF p.why = "rule" THEN <<MissingSelbri(p.tree[1])>> ELSE <<>>, o.warn))
               /\ (p.why = "rule" \/ Same("err", ErrorReport(toks, p.i), o.err)))

Next == LexStage \/ QuoteStage \/ EraseStage \/ AttachStage \/ GroupStage \/ ParseStage
Spec == Init /\ [][Next]_vars
=============================================================================
