------------------------------ MODULE TraceElide -----------------------------
(* Recorded -se reports against the definition.  A record: text, reports (for
   each run reported on: words, l, c of its first word, l2, c2 of its last, all:
   it may be left out altogether, pats: the patterns it may be reduced to).
   strict: also compare runs without which the words around would form a
   compound (a known finding). *)
EXTENDS Elision
Obs == TLCEval(JsonDeserialize("obs.json"))
VARIABLES i, pc
vars == <<i, pc>>
o == Obs[i]
Init == i \in 1 .. Len(Obs) /\ pc = "run"
Differ(what, exp) == PrintT("MISMATCH " \o ToJson([i |-> i, what |-> what, exp |-> exp]))

Words(s) == HandleIndicators(HandleBu(HandleBahe(HandleZei(
              HandleSu(HandleSa(HandleSi(HandleLohu(HandleZo(Lex(s).toks).t).t).t))).t)).t)
\* Runs of up to MaxRun words are decided completely; of longer ones only what
\* is reported is checked.
CONSTANT MaxRun
Check(ts, p, a, b) ==
  LET R == {k \in 1 .. Len(o.reports) : o.reports[k].l = ts[a].l /\ o.reports[k].c = ts[a].c}
      Spans(k) == o.reports[k].words = WordsOf(ts, a, b, a .. b) /\ o.reports[k].l2 = ts[b].l /\ o.reports[k].c2 = ts[b].c
      Named(ws) == {K \in SUBSET (a .. b) : WordsOf(ts, a, b, K) = ws}
      Cautious == \/ ts[a].sel \in {"BOI", "VEhO"} /\ TenseStarts(ts, b + 1)
                  \/ ts[b].sel = "MEhU" /\ b < Len(ts) /\ ts[b + 1].ty = "CMAVO" /\ ts[b + 1].sel = "MOI"
      Sound(k) == IF o.reports[k].all THEN Suffices(ts, p, a, b, {})
                  ELSE \A n \in 1 .. Len(o.reports[k].pats) :
                         \E K \in Named(o.reports[k].pats[n]) : K # a .. b /\ Suffices(ts, p, a, b, K)
      none == Suffices(ts, p, a, b, {})
      min == IF none THEN {{}} ELSE MinimalOf(Enough(ts, p, a, b))
      pats == {WordsOf(ts, a, b, K) : K \in min}
      what == IF none THEN "all" ELSE IF min = {a .. b} THEN "none" ELSE "pats"
      \* (the rule goes on behind the ke'e: with more terms there, shortenings may be missed)
      GoesOn == b > a /\ b < Len(ts) /\ ts[b].sel = "KEhE"
      Exact(k) == \/ what = "all" /\ o.reports[k].all
                  \/ what = "all" /\ b > a /\ (FreeStarts(ts, b + 1) \/ Cautious) /\ o.reports[k].pats # <<>> /\ Sound(k)
                  \/ what = "pats" /\ GoesOn /\ ~o.reports[k].all /\ o.reports[k].pats # <<>> /\ Sound(k)
                  \/ what = "pats" /\ ~o.reports[k].all /\ Rng(o.reports[k].pats) = pats
      skip == ~o.strict /\ \A k \in a .. b : ts[k].sel \notin {"BOI", "VEhO"}
      ok == IF b - a >= MaxRun THEN \A k \in R : Spans(k) /\ Sound(k)
            ELSE IF R = {} THEN what = "none" \/ Cautious \/ GoesOn ELSE \E k \in R : Spans(k) /\ Exact(k)
  IN \/ skip /\ Compounds(ts, a, b)
     \/ ok
     \/ (Differ("run", [run |-> WordsOf(ts, a, b, a .. b), l |-> ts[a].l, c |-> ts[a].c,
                        what |-> IF b - a >= MaxRun THEN "unsound" ELSE what,
                        pats |-> IF b - a >= MaxRun THEN {} ELSE pats]) /\ FALSE)
Good(ts, p) ==
  LET runs == IF p.res = "ok" THEN Runs(ts, Carriers(p.tree[1])) ELSE {}
      places == {<<ts[r[1]].l, ts[r[1]].c>> : r \in runs}
      stray == {k \in 1 .. Len(o.reports) : <<o.reports[k].l, o.reports[k].c>> \notin places}
  IN /\ stray = {} \/ (Differ("stray", [n |-> Cardinality(stray), l |-> 0, c |-> 0, run |-> <<>>, what |-> "stray"]) /\ FALSE)
     /\ \A r \in runs : Check(ts, p, r[1], r[2])
\* (a bound variable is evaluated once, a LET in an action at each mention)
Next == /\ pc = "run"
        /\ \E ts \in {Words(o.text)} : \E p \in {ParseWords(ts)} : pc' = (IF Good(ts, p) THEN "ok" ELSE "bad")
        /\ UNCHANGED i
=============================================================================
