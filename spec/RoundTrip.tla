------------------------------ MODULE RoundTrip ------------------------------
(* Elision!RoundTrip over given texts, as an invariant of the specification:
   whatever is elided can be written out and nothing changes. *)
EXTENDS Elision
Obs == TLCEval(JsonDeserialize("obs.json"))
VARIABLES i, pc
vars == <<i, pc>>
Init == i \in 1 .. Len(Obs) /\ pc = "run"
Prep(s) == LET x == Lex(s) IN
  IF x.msgs # <<>> THEN <<>> ELSE LET z == HandleZo(x.toks) IN
  IF z.m # <<>> THEN <<>> ELSE LET u == HandleLohu(z.t) IN
  IF u.m # <<>> THEN <<>> ELSE LET e == HandleZei(HandleSu(HandleSa(HandleSi(u.t).t))) IN
  LET b == HandleBu(HandleBahe(e.t)) IN IF e.m \o b.m # <<>> THEN <<>> ELSE HandleIndicators(b.t)
Next == /\ pc = "run"
        /\ \E r \in {RoundTrip(Prep(Obs[i].text))} :
           /\ pc' = r
           /\ IF r = "ok" THEN TRUE ELSE PrintT("MISMATCH " \o ToJson([i |-> i, r |-> r]))
        /\ UNCHANGED i
=============================================================================
