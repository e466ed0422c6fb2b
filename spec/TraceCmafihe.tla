----------------------------- MODULE TraceCmafihe -----------------------------
(* Recorded runs of cmafihe: the specification reads the same text, a token a
   step, and must end with the same gloss and the same complaints. *)
EXTENDS Cmafihe, Json

Obs == TLCEval(JsonDeserialize("obs.json"))
VARIABLES i, p, depth, es, left, acc, pc
vars == <<i, p, depth, es, left, acc, pc>>
O == Obs[i]
\* the part of the dictionary the text can ask for
FunOf(ps) == [k \in {ps[n][1] : n \in DOMAIN ps} |-> LET n == CHOOSE n \in DOMAIN ps : ps[n][1] = k IN ps[n][2]]

Spaces == {" ", "\t", "\n", "\r"}
Letters(s) == SelectSeq(s, LAMBDA c : c \notin Spaces)

Init == i \in 1 .. Len(Obs) /\ p = 1 /\ depth = 0 /\ es = <<>> /\ left = <<>> /\ acc = <<>> /\ pc = "run"
Step ==
  /\ pc = "run" /\ p <= Len(O.text)
  /\ \E t \in {TLCEval(IF depth > 0 THEN InParen(O.text, p) ELSE Token(O.text, p))} :
     \E w \in {TLCEval(SubSeq(O.text, p, t.e - 1))} :
       /\ p' = t.e
       /\ depth' = depth + (IF t.k # "paren" THEN 0 ELSE IF w[1] \in Open THEN 1 ELSE IF w[1] \in Close THEN -1 ELSE 0)
       /\ es' = IF t.k \in {"space", "unknown"} THEN es
                ELSE Append(es, TLCEval(Entry(TLCEval(FunOf(O.dict)), TLCEval(FunOf(O.bare)), t.k, w)))
       /\ acc' = IF t.k \in {"space", "newline"} THEN acc ELSE acc \o Letters(w)
       /\ left' = IF t.k = "unknown" THEN Append(left, Join(w)) ELSE left
  /\ UNCHANGED <<i, pc>>

Differ(what, exp) == PrintT("MISMATCH " \o ToJson([i |-> i, what |-> what, exp |-> exp])) /\ FALSE
Shown == CASE O.fmt = "text" -> TextOf(es) [] O.fmt = "latex" -> LatexOf(es) [] OTHER -> BlocksOf(es, O.width)
Complaints == Join([n \in DOMAIN left |-> "This fell through [" \o left[n] \o "]\n"])
End ==
  /\ pc = "run" /\ p > Len(O.text)
  /\ \E out \in {TLCEval(Shown)} :
       IF O.rc # 0 THEN Differ("rc", 0) \/ pc' = "bad"
       ELSE IF O.out # out THEN Differ("out", out) \/ pc' = "bad"
       ELSE IF O.err # Complaints THEN Differ("err", Complaints) \/ pc' = "bad"
       ELSE pc' = "ok"
  /\ UNCHANGED <<i, p, depth, es, left, acc>>
Next == Step \/ End

\* Every letter of the text is shown or complained of, in the order it was written.
Conserved == acc = Letters(SubSeq(O.text, 1, p - 1))
\* A word stands for itself: its pieces are never empty.
NoEmpty == \A n \in DOMAIN es : es[n].k = "newline" \/ es[n].w # ""
=============================================================================
