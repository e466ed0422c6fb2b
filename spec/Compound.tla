------------------------------ MODULE Compound -------------------------------
(* Grouping of words the grammar cannot tell apart with one word of lookahead:
   tenses, connectives and what follows them, numbers before mai/roi/moi, na ku,
   na'e bo.  The groups are shown by markers inserted in the list. *)
EXTENDS Tokens

Before(s, i, name) == InsertAt(s, i, Marker(name))

(* The longest tense / modal beginning at each word (stag_dfa.json: the
   definition of a simple tense or modal). *)
Stag == TLCEval(JsonDeserialize("stag_dfa.json"))
StagSet == TLCEval(Rng(Stag.tokens))
StagIdx == TLCEval([t \in StagSet |-> CHOOSE k \in 1 .. Len(Stag.tokens) : Stag.tokens[k] = t])
StagClass(t) == IF t.ty = "CMAVO" /\ t.sel \in StagSet /\ t.sel # "BU" THEN t.sel ELSE IF t.ty = "BU" THEN "BU" ELSE ""
RECURSIVE StagLongest(_, _, _, _)
StagLongest(s, i, q, ok) ==
  IF i > Len(s) THEN ok
  ELSE LET c == StagClass(s[i])
           n == IF c = "" THEN 0 ELSE Stag.states[q].on[StagIdx[c]]
       IN IF n = 0 THEN ok ELSE StagLongest(s, i + 1, n, IF Stag.states[n].tags # <<>> THEN i ELSE ok)
RECURSIVE Tenses(_, _)
Tenses(s, i) ==
  IF i > Len(s) THEN s
  ELSE LET e == StagLongest(s, i, 1, 0) IN
    IF e = 0 THEN Tenses(s, i + 1)
    ELSE Tenses(SubSeq(s, 1, i - 1) \o <<Marker("PRIVATE_START_TENSE")>> \o SubSeq(s, i, e)
                \o <<Marker("PRIVATE_END_TENSE")>> \o From(s, e + 1), e + 3)

(* Connectives: the marker goes before the optional na / se; afterwards an
   optional nai (and ga'o) belongs to it. *)
Back(s, i, x) == IF CmAt(s, i - 1, x) THEN i - 1 ELSE i
Fwd(s, i, x) == IF CmAt(s, i + 1, x) THEN i + 1 ELSE i
RECURSIVE Connect(_, _, _)
Connect(s, i, kind) ==
  IF i > Len(s) THEN s
  ELSE LET t == s[i]
           NaSe(j) == Back(s, Back(s, j, "SE"), "NA")
           Start(a, name) == Connect(Before(s, a, name), i + 2, kind)
           StartEnd(a, b, n1, n2) == Connect(Before(InsertAt(s, b + 1, Marker(n2)), a, n1), i + 2, kind)
       IN CASE kind = "jek" /\ IsCm(t, "JA")     -> StartEnd(NaSe(i), Fwd(s, i, "NAI"), "PRIVATE_START_JEK", "PRIVATE_END_JEK")
            [] kind = "gihek" /\ IsCm(t, "GIhA") -> Start(NaSe(i), "PRIVATE_START_GIHEK")
            [] kind = "ek" /\ IsCm(t, "A")       -> Start(NaSe(i), "PRIVATE_START_EK")
            [] kind = "guhek" /\ IsCm(t, "GUhA") -> Start(Back(s, i, "SE"), "PRIVATE_START_GUHEK")
            [] kind = "joik" /\ IsCm(t, "JOI")   -> StartEnd(Back(s, i, "SE"), Fwd(s, i, "NAI"), "PRIVATE_START_JOIK", "PRIVATE_END_JOIK")
            [] kind = "joik" /\ IsCm(t, "BIhI")  -> StartEnd(Back(s, Back(s, i, "SE"), "GAhO"), Fwd(s, Fwd(s, i, "NAI"), "GAhO"),
                                                             "PRIVATE_START_JOIK", "PRIVATE_END_JOIK")
            [] OTHER -> Connect(s, i + 1, kind)

(* Forethought connectives: ga ..., or a tense (or several, joined by jek/joik)
   or a joik followed by gi. *)
StartOf(s, i, name) == LastIdx(1, i, LAMBDA k : MkAt(s, k, name))
OverConn(s, i) == \* if a jek/joik ends at i, the position before it, else 0
  IF MkAt(s, i, "PRIVATE_END_JOIK") THEN StartOf(s, i, "PRIVATE_START_JOIK") - 1
  ELSE IF MkAt(s, i, "PRIVATE_END_JEK") THEN StartOf(s, i, "PRIVATE_START_JEK") - 1 ELSE 0
RECURSIVE TenseChainStart(_, _)
TenseChainStart(s, i) == \* a tense ends at i
  LET z == StartOf(s, i, "PRIVATE_START_TENSE")
      y == OverConn(s, z - 1)
  IN IF y > 0 /\ MkAt(s, y, "PRIVATE_END_TENSE") THEN TenseChainStart(s, y) ELSE z
RECURSIVE Geks(_, _)
Geks(s, i) ==
  IF i > Len(s) THEN s
  ELSE IF IsCm(s[i], "GA") THEN Geks(Before(s, Back(s, i, "SE"), "PRIVATE_START_GEK"), i + 2)
  ELSE IF IsCm(s[i], "GI") /\ MkAt(s, i - 1, "PRIVATE_END_TENSE")
    THEN Geks(Before(s, TenseChainStart(s, i - 1), "PRIVATE_START_GEK"), i + 2)
  ELSE IF IsCm(s[i], "GI") /\ MkAt(s, i - 1, "PRIVATE_END_JOIK")
    THEN Geks(Before(s, StartOf(s, i - 1, "PRIVATE_START_JOIK"), "PRIVATE_START_GEK"), i + 2)
  ELSE Geks(s, i + 1)

(* What follows a connective, after an optional (possibly compound) tense:
   [r |-> "BO" | "KE" | "other", e |-> where the scan stopped]. *)
EndOf(s, i, name) == FirstIdx(i, Len(s), LAMBDA k : MkAt(s, k, name))
OverJek(s, i) == IF MkAt(s, i, "PRIVATE_START_JEK") THEN EndOf(s, i, "PRIVATE_END_JEK") + 1 ELSE 0
OverJoik(s, i) == IF MkAt(s, i, "PRIVATE_START_JOIK") THEN EndOf(s, i, "PRIVATE_END_JOIK") + 1 ELSE 0
OverNaSe(s, i) == \* ek / gihek starting at marker i
  LET a == IF CmAt(s, i + 1, "NA") THEN i + 2 ELSE i + 1
      b == IF CmAt(s, a, "SE") THEN a + 1 ELSE a
      c == b + 1
  IN IF CmAt(s, c, "NAI") THEN c + 1 ELSE c
Found(s, i) == [r |-> IF CmAt(s, i, "BO") THEN "BO" ELSE IF CmAt(s, i, "KE") THEN "KE" ELSE "other", e |-> i]
RECURSIVE Ahead(_, _)
Ahead(s, i) ==
  IF ~MkAt(s, i, "PRIVATE_START_TENSE") THEN Found(s, i)
  ELSE LET x == EndOf(s, i, "PRIVATE_END_TENSE") + 1
           y == IF MkAt(s, x, "PRIVATE_START_JEK") THEN OverJek(s, x) ELSE OverJoik(s, x)
       IN IF y = 0 THEN Found(s, x)
          ELSE IF MkAt(s, y, "PRIVATE_START_TENSE") THEN Ahead(s, y) ELSE [r |-> "other", e |-> x]

RECURSIVE Ibo(_, _)
Ibo(s, i) ==
  IF i > Len(s) THEN s
  ELSE IF ~IsCm(s[i], "I") THEN Ibo(s, i + 1)
  ELSE LET j == IF OverJek(s, i + 1) # 0 THEN OverJek(s, i + 1) ELSE IF OverJoik(s, i + 1) # 0 THEN OverJoik(s, i + 1) ELSE i + 1
           a == Ahead(s, j)
       IN IF a.r = "BO" THEN Ibo(Before(s, i, "PRIVATE_I_BO"), a.e + 1) ELSE Ibo(s, a.e)
RECURSIVE Ijek(_, _)
Ijek(s, i) ==
  IF i > Len(s) THEN s
  ELSE IF IsCm(s[i], "I") /\ ~MkAt(s, i - 1, "PRIVATE_I_BO")
          /\ (MkAt(s, i + 1, "PRIVATE_START_JEK") \/ MkAt(s, i + 1, "PRIVATE_START_JOIK"))
  THEN Ijek(Before(s, i, "PRIVATE_I_JEKJOIK"), i + 2)
  ELSE Ijek(s, i + 1)

\* kind: "JEK" "EK" "JOIK" "GIHEK"
RECURSIVE KeBo(_, _, _)
KeBo(s, i, kind) ==
  IF i > Len(s) THEN s
  ELSE IF ~MkAt(s, i, "PRIVATE_START_" \o kind) THEN KeBo(s, i + 1, kind)
  ELSE IF kind \in {"JEK", "JOIK"} /\ (CmAt(s, i - 1, "I") \/ MkAt(s, i - 1, "PRIVATE_END_TENSE")) THEN KeBo(s, i + 1, kind)
  ELSE LET j == CASE kind = "JEK" -> OverJek(s, i) [] kind = "JOIK" -> OverJoik(s, i) [] OTHER -> OverNaSe(s, i)
           a == Ahead(s, j)
       IN IF a.r = "other" THEN KeBo(s, a.e, kind)
          ELSE KeBo(Before(s, i, "PRIVATE_" \o kind \o "_" \o a.r), a.e + 1, kind)

NumberWord(t) == t.ty = "BU" \/ (t.ty = "CMAVO" /\ t.sel \in {"PA", "BU", "BY", "LAU", "TEI", "FOI"})
RECURSIVE NumberStart(_, _)
NumberStart(s, i) == IF i > 1 /\ NumberWord(s[i-1]) THEN NumberStart(s, i - 1) ELSE i
RECURSIVE Numbers(_, _, _)
Numbers(s, i, sel) ==
  IF i > Len(s) THEN s
  ELSE IF IsCm(s[i], sel) /\ NumberStart(s, i) < i
  THEN Numbers(Before(s, NumberStart(s, i), "PRIVATE_NUMBER_" \o sel), i + 2, sel)
  ELSE Numbers(s, i + 1, sel)

RECURSIVE Pairs(_, _, _, _, _)
Pairs(s, i, a, b, name) ==
  IF i > Len(s) THEN s
  ELSE IF IsCm(s[i], a) /\ CmAt(s, i + 1, b) THEN Pairs(Before(s, i, name), i + 2, a, b, name)
  ELSE Pairs(s, i + 1, a, b, name)

Categorize(s0) ==
  LET s1 == Tenses(s0, 1)
      s2 == Connect(s1, 1, "jek")
      s3 == Connect(s2, 1, "gihek")
      s4 == Connect(s3, 1, "ek")
      s5 == Connect(s4, 1, "guhek")
      s6 == Connect(s5, 1, "joik")
      s7 == Geks(s6, 1)
      s8 == Ibo(s7, 1)
      s9 == Ijek(s8, 1)
      t1 == KeBo(s9, 1, "JEK")
      t2 == KeBo(t1, 1, "EK")
      t3 == KeBo(t2, 1, "JOIK")
      t4 == KeBo(t3, 1, "GIHEK")
      t5 == Numbers(t4, 1, "MAI")
      t6 == Numbers(t5, 1, "ROI")
      t7 == Numbers(t6, 1, "MOI")
      t8 == Pairs(t7, 1, "NAhE", "BO", "PRIVATE_NAhE_BO")
  IN Pairs(t8, 1, "NA", "KU", "PRIVATE_NA_KU")
=============================================================================
