-------------------------------- MODULE Gloss ---------------------------------
(* What the full outputs (-x, -H, -l) show of a tree: numbered brackets, words,
   their English, and in front of each term the places it fills.

   The output is a sequence of events: <<"o", S, n>> / <<"c", S, n>> a bracket of
   shape S, numbered n, opened / closed; <<"w", X>> a Lojban word; <<"g", X>>
   English; <<"s", X>> a sign; "t[" ... "t]" the places of the term whose bracket
   has just been opened, each "t," followed by a place and its English <<"tt", X, E>>
   or by bits of text <<"tp", X>> and English <<"x", X>>.  Formats.tla writes them.

   What of a node is shown depends on the mode: B words and English, L words,
   LI words and the English of indicators, E English, T English within "t". *)
EXTENDS Places, Translate
CONSTANT Glosses       \* FALSE: without the English

Txt(N, i) == Wd(N, i).txt
Key(s) == Or(Look(s), LAMBDA x : x, "")
OrQ(s) == Or(Look(s), LAMBDA x : x, "?")
\* English starting with $ stands for a sign, if there is one of that name.
GEvent(s) ==
  CASE s = "$LEFTARROW" -> <<<<"s", "<-">>>> [] s = "$OPENQUOTE" -> <<<<"s", "``">>>> [] s = "$CLOSEQUOTE" -> <<<<"s", "''">>>>
    [] OTHER -> IF Ch(s, 1) = "$" THEN <<>> ELSE <<<<"g", s>>>>
G1(s) == IF s = "" \/ ~Glosses THEN <<>> ELSE GEvent(s)

-----------------------------------------------------------------------------
(* Tenses: in which role a tense word is used. *)
CtxName ==
  [l \in {"TERM_TAGGED_SUMTI", "TAGGED_TERMSET"} |-> "@TERM"]
  @@ [l \in {"TEXT_1C", "I_JJ_STAG_BO", "GIHEK_STAG_KE", "GIHEK_STAG_BO", "JOIK_EK_KE", "JOIK_EK_STAG_BO", "JOIK_STAG_KE", "JOIK_JEK_STAG_BO"} |-> "@LINK"]
  @@ [l \in {"SUMTI_5B", "SUMTI_TAIL_1"} |-> "@NOUN"]
  @@ [l \in {"STATEMENT_3", "TERM_FLOATING_TENSE", "GEK_SENTENCE", "MAIN_SELBRI", "METALINGUISTIC_MAIN_SELBRI"} |-> "@SELBRI"]
  @@ [l \in {"JAI_TAG_TU2"} |-> "@JAI"] @@ [l \in {"GEK"} |-> "@CONNECT"]
  @@ [l \in {"MEX_OPERATOR", "OPERAND_3", "COMPLEX_TENSE_MODAL", "FREE", "CHUNKS"} |-> ""]
CtxLabels == TLCEval(DOMAIN CtxName)
Ctx(N, i) == With(Up(N, N[i].par, CtxLabels), LAMBDA a : IF a = 0 THEN "" ELSE CtxName[Lab(N, a)])
InCtx(key, ctx) == IF ctx = "" THEN Look(key) ELSE FirstOf(Look(key \o ctx), Look(key))

-----------------------------------------------------------------------------
(* Which place of a unit the bridi's x1 is (0: none), and the se not glossed
   because of it. *)
RECURSIVE Climb(_, _, _, _)
Climb(N, x, pl, ses) ==
  LET L == Lab(N, x)
      p == N[x].par
  IN CASE L = "SELBRI_2" \/ (L = "SELBRI_4" /\ Lab(N, p) = "SELBRI_3" /\ Lab(N, N[p].par) = "SELBRI_3") -> [c |-> pl[1], ses |-> ses]
       [] L = "SE_TU2" -> With(Strip(N, Kid(N, x, 1)), LAMBDA se : With(SeOf[Txt(N, se)], LAMBDA k :
            Climb(N, p, [pl EXCEPT ![1] = pl[k], ![k] = pl[1]], Append(ses, se))))
       [] L \in {"JAI_TU2", "JAI_TAG_TU2"} -> Climb(N, p, [pl EXCEPT ![1] = 0], ses)
       [] OTHER -> Climb(N, p, pl, ses)
Convertible(N, i) == WordTy(N, i) = "BRIVLA" \/ Sel(N, i) = "NU"
Climbed(N, i) == Climb(N, Up(N, N[i].par, {"TANRU_UNIT_2"}), <<1, 2, 3, 4, 5>>, <<>>)
\* conv: node -> place, for those that have one; quiet: the words not glossed
ByTerms(e) == FoldSeqL(LAMBDA g, x : IF x.k = "conv" THEN (x.n :> x.v) @@ g ELSE g, <<>>, e)
ConvAndQuiet(N, e) ==
  With(ByTerms(e), LAMBDA t :
    FoldSeqL(LAMBDA a, i :
        IF i \in DOMAIN a.conv \/ ~Convertible(N, i) THEN a
        ELSE With(Climbed(N, i), LAMBDA r : [conv |-> (i :> r.c) @@ a.conv, quiet |-> a.quiet \cup Rng(r.ses)]),
      [conv |-> t, quiet |-> {e[k].n : k \in {j \in DOMAIN e : e[j].k = "dg"}}], [i \in 1 .. Len(N) |-> i]))
\* the se of a BAI, the goi of a term with a tag
QuietGoi(N, i) == Sel(N, i) = "GOI" /\ With(FirstKid(N, N[i].par, "TERM"), LAMBDA t :
                    t # 0 /\ Is(N, Kid(N, t, 1), {"TERM_TAGGED_SUMTI", "TAGGED_TERMSET"}))
QuietSe(N, i) == Sel(N, i) = "SE" /\ Lab(N, N[i].par) = "SE_BAI"

-----------------------------------------------------------------------------
(* The last part of each tanru. *)
RECURSIVE T4(_, _), T5(_, _), T6(_, _), TU(_, _), TU2(_, _), Nus(_, _)
Nus(N, x) == IF x = 0 THEN {} ELSE {CmKid(N, x, 1, "NU")} \cup Nus(N, FirstKid(N, x, "NU_NAI_SEQ"))
TU2(N, x) ==
  LET c == Strip(N, Kid(N, x, 1)) IN
  CASE WordTy(N, c) \in {"BRIVLA", "ZEI"} -> {c}
    [] Lab(N, c) \in {"SE_TU2", "JAI_TU2", "NAHE_TU2"} -> TU2(N, FirstKid(N, c, "TANRU_UNIT_2"))
    [] Lab(N, c) = "JAI_TAG_TU2" -> {Strip(N, Kid(N, c, 1))} \cup TU2(N, FirstKid(N, c, "TANRU_UNIT_2"))
    [] Lab(N, c) = "ABSTRACTION" -> Nus(N, Kid(N, c, 1))
    [] OTHER -> {}
TU(N, x) == IF x = 0 THEN {} ELSE TU2(N, FirstKid(N, FirstKid(N, x, "TANRU_UNIT_1"), "TANRU_UNIT_2")) \cup TU(N, FirstKid(N, x, "TANRU_UNIT"))
T6(N, x) == IF x = 0 THEN {} ELSE TU(N, FirstKid(N, x, "TANRU_UNIT")) \cup T6(N, FirstKid(N, x, "SELBRI_6"))
T5(N, x) == IF x = 0 THEN {} ELSE T6(N, FirstKid(N, x, "SELBRI_6")) \cup T5(N, FirstKid(N, x, "SELBRI_5"))
T4(N, x) == IF x = 0 THEN {} ELSE T5(N, FirstKid(N, x, "SELBRI_5")) \cup T4(N, FirstKid(N, x, "SELBRI_4"))
Tertau(N) == UNION {T4(N, FirstKid(N, i, "SELBRI_4")) : i \in {j \in DOMAIN N : Lab(N, j) = "SELBRI_3" /\ Lab(N, N[j].par) # "SELBRI_3"}}

\* The role of a unit: v in a selbri, n in a sumti, q in front of another; "" elsewhere.
Surroundings == "MAIN_SELBRI" :> "v" @@ "METALINGUISTIC_MAIN_SELBRI" :> "v" @@ "JAI_TAG_TU2" :> "v" @@ "JAI_TU2" :> "v" @@ "SUMTI" :> "n"
                @@ "COMPLEX_TENSE_MODAL" :> "n" @@ "FREE" :> "" @@ "OPERAND_3" :> "" @@ "MEX_OPERATOR" :> ""
SurLabels == TLCEval(DOMAIN Surroundings)
RoleAt(G, i, from) ==
  With(Up(G.N, from, SurLabels), LAMBDA a : With(IF a = 0 THEN "" ELSE Surroundings[Lab(G.N, a)], LAMBDA s :
    IF i \in G.tertau THEN (IF s = "v" THEN "v" ELSE "n") ELSE IF s = "" THEN "" ELSE "q"))
Role(G, i) == RoleAt(G, i, G.N[i].par)
RoleOfJai(G, i) == RoleAt(G, i, G.N[G.N[i].par].par)

-----------------------------------------------------------------------------
(* The English of one word. *)
ConvGloss(G, i, key) ==
  With(Role(G, i), LAMBDA role :
  With(IF i \in DOMAIN G.conv THEN G.conv[i] ELSE 1, LAMBDA c :
    IF role # "" THEN Adv(key, c, role)
    ELSE With(Look(key \o ToString(c)), LAMBDA v : IF v # <<>> THEN v[1]
      ELSE With(Look(key), LAMBDA b : IF b # <<>> THEN b[1] \o (IF i \in DOMAIN G.conv THEN " (CONV?)" ELSE "")
        ELSE Or(Unknown(key, c, "n"), LAMBDA x : x, "")))))
RECURSIVE ZeiParts(_)
ZeiParts(w) ==
  With(FirstIdx(1, Len(w) - 4, LAMBDA k : SubSeq(w, k, k + 4) = " zei "), LAMBDA k :
    IF k = 0 THEN <<w>> ELSE <<SubSeq(w, 1, k - 1)>> \o ZeiParts(SubSeq(w, k + 5, Len(w))))
ZeiGloss(G, i) ==
  With(ZeiParts(Txt(G.N, i)), LAMBDA p :
    With(ConvGloss(G, i, JoinSep(p, "+")), LAMBDA r :
      IF r # "" /\ Ch(r, 1) # "?" THEN r ELSE JoinSep([k \in 1 .. Len(p) |-> OrQ(p[k])], " type-of ")))
BaiGloss(N, i) ==
  With(IF Lab(N, N[i].par) = "SE_BAI" THEN Txt(N, Strip(N, Kid(N, N[i].par, 1))) ELSE "", LAMBDA se :
  With(Look(se \o Txt(N, i) \o (IF Ctx(N, i) = "@JAI" THEN "@JAI" ELSE "")), LAMBDA v :
    IF v # <<>> THEN v[1] ELSE Or(Look(Txt(N, i)), LAMBDA x : x \o " (CONV?)", "?")))
KehaGloss(G, i) ==
  Key("ke'a") \o With(KehaOf(G.N, i), LAMBDA a : IF a = 0 THEN "" ELSE " #" \o ToString(G.num[a]))
\* indicators: nai, then a degree
ModNai(t) == t.mods # <<>> /\ t.mods[1] = "nai"
ModCai(t) == Join(IF ModNai(t) THEN Tail(t.mods) ELSE t.mods)
CaiKey(c) == IF c = "cu'inai" THEN "cu'i" ELSE c
IndicatorWord(t) == t.txt \o (IF ModNai(t) THEN "nai" ELSE "") \o (IF ModCai(t) # "" THEN " " \o ModCai(t) ELSE "")
IndicatorGloss(t) ==
  Or(Look(t.txt \o (IF ModNai(t) THEN "nai" ELSE "")),
     LAMBDA v : "{" \o (IF ModCai(t) = "" THEN "" ELSE Key(CaiKey(ModCai(t))) \o " ") \o v \o "..}", "")
IsIndicator(t) == t.sel \in {"UI", "CAI"} \/ (t.sel \in {"Y", "DAhO", "FUhE", "FUhO"} /\ t.mods # <<>>)
JaiGloss(G, i) == FirstOf(Look("jai_" \o (CASE RoleOfJai(G, i) = "v" -> "v" [] RoleOfJai(G, i) = "n" -> "n" [] OTHER -> "a")), Look("jai"))
CmavoGloss(G, i, t) ==
  CASE t.sel = "BAI" -> BaiGloss(G.N, i)
    [] t.sel = "SE" -> IF i \in G.quiet \/ QuietSe(G.N, i) THEN "" ELSE Key(t.txt)
    [] t.sel = "GOI" -> IF QuietGoi(G.N, i) THEN "" ELSE Key(t.txt)
    [] t.txt = "ke'a" -> KehaGloss(G, i)
    [] t.sel = "NU" -> ConvGloss(G, i, t.txt)
    [] t.sel \in {"PU", "ZAhO", "VA", "FAhA"} -> Or(InCtx(t.txt, Ctx(G.N, i)), LAMBDA x : x, "")
    [] IsIndicator(t) -> IndicatorGloss(t)
    [] t.sel = "JAI" -> Or(JaiGloss(G, i), LAMBDA x : x, "")
    [] OTHER -> Key(t.txt)
WordGloss(G, i) ==
  LET t == Wd(G.N, i) IN
  CASE t.ty = "CMAVO" -> CmavoGloss(G, i, t)
    [] t.ty \in {"ZOI", "LOHU"} -> OrQ(t.txt)
    [] t.ty = "ZO" -> "\"" \o OrQ(t.txt) \o "\""
    [] t.ty = "ZEI" -> ZeiGloss(G, i)
    [] t.ty = "BU" -> OrQ(t.txt \o ".bu")
    [] t.ty = "BRIVLA" -> ConvGloss(G, i, t.txt)
    [] t.ty = "CMENE" -> "[NAME]"
    [] OTHER -> ""

(* The word as shown. *)
\* cap: the word in capitals, if it was elided
ShownBare(t, cap) ==
  CASE t.ty = "CMAVO" -> IF cap # "" THEN cap ELSE IF IsIndicator(t) THEN IndicatorWord(t) ELSE t.txt
    [] t.ty = "ZOI" -> t.form \o " " \o t.delim \o " " \o t.txt \o " " \o t.delim
    [] t.ty = "ZO" -> "zo " \o t.txt
    [] t.ty = "LOHU" -> "lo'u " \o t.txt \o " le'u"
    [] t.ty = "BU" -> t.txt \o ".bu"
    [] OTHER -> t.txt
Shown(t, cap) ==
  LET s == ShownBare(t, cap) IN
  IF t.ty = "ZEI" THEN s
  ELSE (IF Ch(s, 1) \in {"a", "e", "i", "o", "u"} THEN "." ELSE "") \o s \o (IF t.ty = "CMENE" THEN "." ELSE "")

-----------------------------------------------------------------------------
(* Logical connectives as truth functions. *)
FuncOf == [w \in {"a", "ja", "gi'a", "ga", "gu'a"} |-> 0] @@ [w \in {"e", "je", "gi'e", "ge", "gu'e"} |-> 1]
          @@ [w \in {"o", "jo", "gi'o", "go", "gu'o"} |-> 2] @@ [w \in {"u", "ju", "gi'u", "gu", "gu'u"} |-> 3]
          @@ [w \in {"ji", "je'i", "gi'i", "ge'i", "gu'i"} |-> 4]
\* X f Y, both negations and the exchange applied: the result at TT, TF, FT, FF
Truth(f, x, y) == CASE f = 0 -> x \/ y [] f = 1 -> x /\ y [] f = 2 -> x <=> y [] f = 3 -> x
TF(b) == IF b THEN "T" ELSE "F"
Pattern(f, neg1, conv, neg2) ==
  IF f = 4 THEN "QQQQ"
  ELSE LET v(x, y) == LET p == IF neg1 THEN ~x ELSE x
                          q == IF neg2 THEN ~y ELSE y
                      IN TF(IF conv THEN Truth(f, q, p) ELSE Truth(f, p, q))
       IN v(TRUE, TRUE) \o v(TRUE, FALSE) \o v(FALSE, TRUE) \o v(FALSE, FALSE)
HasCm(N, x, sel) == CmKid(N, x, 1, sel) # 0
AfterKey(N, i) == With(Flatten(<<<<CmKid(N, i, 1, "JA")>>, <<CmKid(N, i, 1, "A")>>, <<CmKid(N, i, 1, "GIhA")>>>>), LAMBDA s : SelectSeq(s, LAMBDA c : c # 0)[1])
After(N, i) == Pattern(FuncOf[Txt(N, AfterKey(N, i))], HasCm(N, i, "NA"), HasCm(N, i, "SE"), HasCm(N, i, "NAI")) \o "@AFTER"
ForeKey(N, g) == IF CmKid(N, g, 1, "GA") # 0 THEN CmKid(N, g, 1, "GA") ELSE CmKid(N, g, 1, "GUhA")
Fore(N, g, gik) == Pattern(FuncOf[Txt(N, ForeKey(N, g))], HasCm(N, g, "NAI"), HasCm(N, g, "SE"), HasCm(N, gik, "NAI"))
GekOf(N, gik) == With(FirstKid(N, N[gik].par, "GEK"), LAMBDA g : IF g # 0 THEN g ELSE FirstKid(N, N[gik].par, "GUHEK"))
ConnLabels == {"JEK", "JEK_OPT_KE", "JEK_OPT_KEBO", "EK", "GIHEK"}

-----------------------------------------------------------------------------
(* The whole. *)
CtxCluster(G, i) ==
  With(Join([k \in 1 .. Len(G.N) |-> IF G.in[i][1] <= k /\ k <= G.in[i][2] THEN
         (IF (WordTy(G.N, k) = "CMAVO" /\ Sel(G.N, k) \notin {"UI", "BAhE", "DAhO", "Y", "FUhO"}) \/ WordTy(G.N, k) = "BU" THEN Txt(G.N, k) ELSE "") ELSE ""]),
       LAMBDA key : InCtx(key, IF Lab(G.N, i) = "NUMBER_MOI_TU2" THEN "" ELSE Ctx(G.N, i)))
LojModes == {"B", "L", "LI"}
EngModes == {"B", "E"}
English(m, s) == CASE s = "" \/ ~Glosses -> <<>> [] m \in EngModes -> GEvent(s) [] m = "T" -> <<<<"x", s>>>> [] OTHER -> <<>>
\* (English that is present but empty is written nonetheless)
Shows(m, key) == Or(Look(key), LAMBDA v : IF v # "" \/ ~Glosses THEN English(m, v) ELSE IF m = "T" THEN <<<<"x", "">>>> ELSE IF m \in EngModes THEN <<<<"g", "">>>> ELSE <<>>, <<>>)
Bracketed1(G, i, m, x) ==
  IF G.num[i] = 0 \/ m \notin LojModes THEN x
  ELSE <<<<"o", G.sh[i], ToString(G.num[i])>>>> \o x \o <<<<"c", G.sh[i], ToString(G.num[i])>>>>

RECURSIVE Out(_, _, _)
OutAll(G, s, m) == FoldSeqL(LAMBDA a, c : a \o Out(G, c, m), <<>>, s)
OutKids(G, i, m) == OutAll(G, Kids(G.N, i), m)
LojLI(G, i, m) == IF m \in LojModes THEN OutKids(G, i, "LI") ELSE <<>>

(* Places. *)
TagWord(G, v) ==
  LET N == G.N
      P == ToString(v.pos)
  IN CASE v.ty \in {"brivla", "nu", "goha"} -> Txt(N, v.n) \o P
       [] v.ty = "zei" -> "#" \o ToString(G.num[v.n]) \o "-" \o P
       [] v.ty = "nuha" -> "#" \o ToString(G.num[v.n]) \o "-" \o P
       [] v.ty = "moi" -> "#" \o ToString(G.num[v.n]) \o "-" \o Txt(N, v.m) \o P
       [] v.ty = "me" -> "me" \o P \o ".."
Subst(s, n) ==
  With(FirstIdx(1, Len(s), LAMBDA k : SubSeq(s, k, MinOf(k + 1, Len(s))) = "%d"), LAMBDA k :
    IF k = 0 THEN s ELSE UpToCh(s, k - 1) \o ToString(n) \o FromCh(s, k + 2))
TagEnglish(G, v) ==
  LET N == G.N IN
  CASE v.ty \in {"brivla", "nu"} -> Adv(Txt(N, v.n), v.pos, "t")
    [] v.ty = "zei" -> Adv(JoinSep(ZeiParts(Txt(N, v.n)), "+"), v.pos, "t")
    [] v.ty \in {"nuha", "goha"} -> ""
    [] v.ty = "moi" -> Subst(Adv(Txt(N, v.m), v.pos, "t"), G.num[v.n])
    [] v.ty = "me" -> Subst(Adv("me", v.pos, "t"), G.num[v.n])
TagBits(G, v) ==
  IF v.ty = "jaitag" THEN <<<<"tp", "jai+<tag>1: (">>>> \o (IF Glosses THEN Out(G, v.n, "T") ELSE <<>>) \o <<<<"tp", "#" \o ToString(G.num[v.m]) \o ")">>>>
  ELSE <<<<"tt", TagWord(G, v), IF Glosses THEN TagEnglish(G, v) ELSE "">>>>
TermTags(G, i, m) ==
  IF m \notin LojModes \/ G.tags[i] = <<>> THEN <<>>
  ELSE <<<<"t[">>>> \o FoldSeqL(LAMBDA a, v : a \o <<<<"t,">>>> \o TagBits(G, v), <<>>, G.tags[i]) \o <<<<"t]">>>>

LeafOut(G, i, m) ==
  LET t == Wd(G.N, i) IN
  (IF m \in LojModes THEN <<<<"w", Shown(t, G.N[i].cap)>>>> ELSE <<>>)
  \o (CASE ~Glosses \/ m = "L" -> <<>>
        [] m = "LI" -> IF t.ty = "CMAVO" /\ t.sel \in {"UI", "BAhE", "Y", "DAhO", "FUhO"} THEN G1(WordGloss(G, i)) ELSE <<>>
        [] OTHER -> English(m, WordGloss(G, i)))
OffsetGloss(G, i) ==
  LET N == G.N
      pu == Txt(N, CmKid(N, i, 1, "PU"))
      nai == IF HasCm(N, i, "NAI") THEN <<"nai">> ELSE <<>>
      zi == IF HasCm(N, i, "ZI") THEN <<Txt(N, CmKid(N, i, 1, "ZI"))>> ELSE <<>>
      ws == <<pu>> \o nai \o zi
  IN With(Ctx(N, i), LAMBDA c : IF c = "" THEN ""
       ELSE Or(InCtx(Join(ws), c), LAMBDA x : x, JoinSep([k \in 1 .. Len(ws) |-> OrQ(ws[k])], " ")))
OffsetOut(G, i, m) == LojLI(G, i, m) \o (IF Glosses /\ m \in {"B", "E", "T"} THEN English(m, OffsetGloss(G, i)) ELSE <<>>)
ClusterOut(G, i, m) ==
  IF ~Glosses THEN OutKids(G, i, m)
  ELSE With(CtxCluster(G, i), LAMBDA v :
         IF v = <<>> THEN OutKids(G, i, m) ELSE LojLI(G, i, m) \o (IF m \in EngModes THEN (IF v[1] = "" THEN <<<<"g", "">>>> ELSE G1(v[1])) ELSE <<>>))
TailOut(G, i, m) ==
  LET c == Kid(G.N, i, 1) IN
  IF Lab(G.N, c) # "SUMTI_6" THEN OutKids(G, i, m)
  ELSE (IF m \in LojModes THEN Out(G, c, "L") \o G1(" ") ELSE <<>>)
       \o OutAll(G, Tail(Kids(G.N, i)), m)
       \o (IF m \in EngModes THEN G1("[of]") \o Out(G, c, "E") ELSE <<>>)
WithBetween(G, i, m, s) == Out(G, Kid(G.N, i, 1), m) \o (IF m \in EngModes THEN G1(s) ELSE <<>>) \o OutAll(G, Tail(Kids(G.N, i)), m)
GekEnglish(G, i, m) ==
  LET N == G.N
      gik == FirstKid(N, N[i].par, "GIK")
  IN CASE ForeKey(N, i) # 0 -> Shows(m, Fore(N, i, gik) \o "@GE")
       [] HasCm(N, i, "GI") -> <<>>
       [] OTHER -> IF HasCm(N, FirstKid(N, i, "GIK"), "NAI") THEN English(m, "something other than") ELSE <<>>
GikEnglish(G, i, m) ==
  LET N == G.N
      g == GekOf(N, i)
      neg == IF HasCm(N, i, "NAI") THEN English(m, "other than") ELSE <<>>
      m2 == IF m = "T" THEN "T" ELSE "E"
  IN CASE ForeKey(N, g) # 0 -> Shows(m, Fore(N, g, i) \o "@GI")
       [] HasCm(N, g, "GI") -> neg \o Out(G, FirstKid(N, g, "JOIK"), m2)
       [] OTHER -> Out(G, FirstKid(N, g, "STAG"), m2) \o neg
ConnOut(G, i, m) ==
  LojLI(G, i, m)
  \o (IF ~Glosses \/ m \notin {"B", "E", "T"} THEN <<>>
      ELSE CASE Lab(G.N, i) \in ConnLabels -> Shows(m, After(G.N, i))
             [] Lab(G.N, i) \in {"GEK", "GUHEK"} -> GekEnglish(G, i, m)
             [] OTHER -> GikEnglish(G, i, m))
QuantifierOf(N, i) == Lab(N, i) = "SUMTI_TAIL_1" /\ Nch(N, i) > 1 /\ Lab(N, Kid(N, i, 1)) = "QUANTIFIER" /\ Lab(N, Kid(N, i, 2)) = "SUMTI"
Out(G, i, m) ==
  LET N == G.N
      L == Lab(N, i)
  IN Bracketed1(G, i, m,
       CASE N[i].leaf -> LeafOut(G, i, m)
         [] L = "SELBRI_3" /\ Nch(N, i) = 2 -> WithBetween(G, i, m, "[type-of]")
         [] L = "TERM" -> TermTags(G, i, m) \o OutKids(G, i, m)
         [] L = "NO_CU_SENTENCE" /\ Nch(N, i) = 2 -> WithBetween(G, i, m, "[is, does]")
         [] L = "OBSERVATIVE_SENTENCE" -> Out(G, Kid(N, i, 1), m)
         [] L = "TIME_OFFSET" -> OffsetOut(G, i, m)
         [] L \in {"SPACE_INT_PROP", "INTERVAL_PROPERTY", "NUMBER_MOI_TU2"} -> ClusterOut(G, i, m)
         [] L = "SUMTI_TAIL" -> TailOut(G, i, m)
         [] (L = "SUMTI_5A" /\ Nch(N, i) = 2) \/ QuantifierOf(N, i) -> WithBetween(G, i, m, "(of)")
         [] L \in ConnLabels \cup {"GEK", "GIK", "GUHEK"} -> ConnOut(G, i, m)
         [] OTHER -> OutKids(G, i, m))

(* Everything known of a tree, and what is shown of it.  in: the first and the
   last node of the part of the tree below a node. *)
LastIn(N) == TLCEval([i \in 1 .. Len(N) |-> With({j \in i + 1 .. Len(N) : N[j].up <= N[i].up}, LAMBDA S : IF S = {} THEN Len(N) ELSE (CHOOSE j \in S : \A k \in S : j <= k) - 1)])
TagsOf(N, e) == FoldSeqL(LAMBDA g, x : IF x.k = "tag" THEN [g EXCEPT ![x.n] = Append(@, x.v)] ELSE g, [i \in 1 .. Len(N) |-> <<>>], e)
Info(N, e) ==
  With(ShapesOf(N, MustBracket(N, e)), LAMBDA sh : With(ConvAndQuiet(N, e), LAMBDA c : With(LastIn(N), LAMBDA l :
    [N |-> N, sh |-> sh, num |-> NumbersOf(sh), tags |-> TagsOf(N, e), conv |-> c.conv, quiet |-> c.quiet,
     tertau |-> IF Glosses THEN Tertau(N) ELSE {}, in |-> [i \in 1 .. Len(N) |-> <<i, l[i]>>]])))
=============================================================================
