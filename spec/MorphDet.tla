------------------------------ MODULE MorphDet ------------------------------
(* The determinized automaton the specification follows is the subset
   construction of the nondeterministic one: started at the free closure of the
   start state, every state s stands for the set Sub(s) of NFA states, every
   move leads to exactly the set the NFA moves to, and its tags and attributes
   are those of its members.  TLC explores the whole automaton. *)
EXTENDS Util, Json
CONSTANTS NfaFile, DfaFile
Nfa == TLCEval(JsonDeserialize(NfaFile))
Dfa == TLCEval(JsonDeserialize(DfaFile))
NS == Nfa.states
DS == Dfa.states
Sub(s) == IF s = 0 THEN {} ELSE Rng(DS[s].sub)
Eps(q) == Rng(NS[q].eps)
NMove(S, t) == UNION {UNION {Eps(d) : d \in Rng(NS[q].on[t])} : q \in {q \in S : t \in DOMAIN NS[q].on}}
VARIABLE s
Init == s = 1
Next == \E k \in 1 .. Len(Dfa.tokens) : DS[s].on[k] # 0 /\ s' = DS[s].on[k]
StartOk == s = 1 => Sub(1) = Eps(Nfa.start)
MoveOk == \A k \in 1 .. Len(Dfa.tokens) : Sub(DS[s].on[k]) = NMove(Sub(s), Dfa.tokens[k])
OutOk == /\ Rng(DS[s].tags) = UNION {Rng(NS[q].tags) : q \in Sub(s)}
         /\ Rng(DS[s].attr) = UNION {Rng(NS[q].attr) : q \in Sub(s)}
Distinct == \A r \in 1 .. Len(DS) : Sub(r) = Sub(s) => r = s
=============================================================================
