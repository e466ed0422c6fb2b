------------------------------ MODULE TraceGloss ------------------------------
(* Recorded runs of jbofihe -H, -l, -x (with and without -b) and -g checked
   against the output the specification gives.
   obs.json: [text, ie, full, fmt, width, ev (the output, as in Formats)]. *)
EXTENDS Lexer, Preproc, Compound, Formats

Obs == TLCEval(JsonDeserialize("obs.json"))
VARIABLES i, pc, x
vars == <<i, pc, x>>
o == Obs[i]
Differ(what, exp) == PrintT("MISMATCH " \o ToJson([i |-> i, what |-> what, exp |-> exp]))

Words == HandleIndicators(HandleBu(HandleBahe(HandleZei(
           HandleSu(HandleSa(HandleSi(HandleLohu(HandleZo(Lex(o.text).toks).t).t).t))).t)).t)
Init == i \in 1 .. Len(Obs) /\ pc = "words" /\ x = <<>>
WordsStep == pc = "words" /\ \E w \in {Words} : \E t \in {Categorize(w)} : pc' = "parse" /\ x' = t /\ i' = i
ParseStage ==
  /\ pc = "parse" /\ i' = i
  /\ \E p \in {Parse(IF o.full THEN LrFull ELSE LrNorm, x, o.ie)} :
       IF p.res = "ok" THEN
         IF o.fmt = "g" THEN \E s \in {Short(p.tree[1])} : x' = <<>> /\ IF s = o.ev THEN pc' = "ok" ELSE pc' = "bad" /\ Differ("ev", s)
         ELSE \E n \in {Number(p.tree[1])} : pc' = "places" /\ x' = n
       ELSE pc' = "bad" /\ Differ("accepted", FALSE) /\ x' = <<>>
PlacesStep == pc = "places" /\ i' = i /\ pc' = "show" /\ \E e \in {Effects(x)} : \E g \in {Info(x, e)} : x' = g
ShowStep ==
  /\ pc = "show" /\ i' = i /\ x' = <<>>
  /\ \E out \in {Out(x, 1, "B")} : \E ev \in {Written(o.fmt, o.width, out)} : IF ev = o.ev THEN pc' = "ok" ELSE pc' = "bad" /\ Differ("ev", ev)
Next == WordsStep \/ ParseStage \/ PlacesStep \/ ShowStep
Spec == Init /\ [][Next]_vars
=============================================================================
