----------------------------- MODULE TraceMorph -----------------------------
(* Observed classifications of words (obs.json: [w: letters, t: type, s: division])
   checked against the morphology. *)
EXTENDS Morph
Obs == TLCEval(JsonDeserialize("obs.json"))
VARIABLES i, st
Init == i \in 1 .. Len(Obs) /\ st = "scan"
Next == /\ st = "scan"
        /\ LET e == Vlatai(Obs[i].w) IN
             st' = IF e = <<Obs[i].t, Obs[i].s>> THEN "ok"
                   ELSE IF PrintT("MISMATCH " \o ToJson([i |-> i, exp |-> e])) THEN "bad" ELSE "bad"
        /\ i' = i
=============================================================================
