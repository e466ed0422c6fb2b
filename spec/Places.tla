-------------------------------- MODULE Places --------------------------------
(* Who does what: which place of which selbri each term of a bridi fills, and
   the numbered brackets the full outputs (-x, -H, -l) refer to.

   A tree is a sequence N of nodes in preorder; node 1 is the root, 0 no node. *)
EXTENDS LR

-----------------------------------------------------------------------------
(* The numbered tree.  A word inside AUGMENTED (a word with its emphasis and its
   indicators) has as parent the node that AUGMENTED is in. *)
RECURSIVE Flat(_, _, _, _)
FlatKids(x, par, at, d) ==
  FoldSeqL(LAMBDA a, c : [ns |-> a.ns \o Flat(c, par, at + Len(a.ns), d), ids |-> Append(a.ids, at + Len(a.ns))],
           [ns |-> <<>>, ids |-> <<>>], x.ch)
Flat(x, par, at, d) ==
  With(FlatKids(x, IF x.lab = "AUGMENTED" THEN par ELSE at, at + 1, d + 1),
       LAMBDA k : <<[lab |-> IF x.leaf THEN "" ELSE x.lab, leaf |-> x.leaf,
                t |-> IF x.el THEN <<[x.t[1] EXCEPT !.txt = LowerOf[@]]>> ELSE x.t, cap |-> IF x.el THEN x.t[1].txt ELSE "", ch |-> k.ids, par |-> par, up |-> d]>> \o k.ns)
Number(tree) == Flat(tree, 0, 1, 0)

Lab(N, i) == IF i = 0 THEN "" ELSE N[i].lab
Kids(N, i) == N[i].ch
Nch(N, i) == Len(N[i].ch)
Kid(N, i, k) == N[i].ch[k]
Is(N, i, S) == Lab(N, i) \in S
Wd(N, i) == N[i].t[1]
WordTy(N, i) == IF ~N[i].leaf \/ N[i].t = <<>> THEN "" ELSE N[i].t[1].ty
Sel(N, i) == IF WordTy(N, i) = "CMAVO" THEN N[i].t[1].sel ELSE ""
\* The n-th child with a label, of a selma'o (through AUGMENTED).
Pick(s, n) == IF Len(s) >= n THEN s[n] ELSE 0
NthKid(N, i, n, lab) == Pick(SelectSeq(Kids(N, i), LAMBDA c : Lab(N, c) = lab), n)
FirstKid(N, i, lab) == NthKid(N, i, 1, lab)
Bare1(N, c) == IF Lab(N, c) = "AUGMENTED" THEN Kids(N, c) ELSE <<c>>
CmKid(N, i, n, sel) ==
  Pick(SelectSeq(Flatten([k \in 1 .. Nch(N, i) |-> Bare1(N, Kid(N, i, k))]), LAMBDA c : Sel(N, c) = sel), n)
\* The word itself, without its emphasis and indicators.
Strip(N, i) == IF Lab(N, i) # "AUGMENTED" THEN i
               ELSE Kid(N, i, FirstIdx(1, Nch(N, i), LAMBDA k : Sel(N, Kid(N, i, k)) # "BAhE"))

-----------------------------------------------------------------------------
(* Terms.  An entry: k is pos (a plain sumti), fa (with FA, which place), fia
   (fi'a) or tag; n the TERM. *)
FaPlace == "fa" :> 1 @@ "fe" :> 2 @@ "fi" :> 3 @@ "fo" :> 4 @@ "fu" :> 5 @@ "fai" :> 101
Placed1(N, t, fa) == IF fa = "fi'a" THEN [k |-> "fia", p |-> 0, n |-> t] ELSE [k |-> "fa", p |-> FaPlace[fa], n |-> t]
TermEntry(N, t) ==
  LET c == Kid(N, t, 1) IN
  CASE Lab(N, c) = "TERM_PLAIN_SUMTI" -> <<[k |-> "pos", p |-> 0, n |-> t]>>
    [] Lab(N, c) = "TERM_PLACED_SUMTI" -> <<Placed1(N, t, Wd(N, Strip(N, Kid(N, c, 1))).txt)>>
    [] Lab(N, c) \in {"TERM_TAGGED_SUMTI", "TAGGED_TERMSET"} -> <<[k |-> "tag", p |-> 0, n |-> t]>>
    [] OTHER -> <<>>
\* A TERMS_1 that is no termset.
OneTerm(N, t1) == IF Nch(N, t1) > 1 \/ Nch(N, Kid(N, t1, 1)) > 1 THEN <<>> ELSE TermEntry(N, Kid(N, Kid(N, t1, 1), 1))
RECURSIVE Terms(_, _)
Terms(N, x) == IF x = 0 THEN <<>> ELSE Terms(N, FirstKid(N, x, "TERMS")) \o OneTerm(N, FirstKid(N, x, "TERMS_1"))
\* be ... bei ...
RECURSIVE LinkTerms(_, _)
LinkTerms(N, x) == IF x = 0 THEN <<>> ELSE TermEntry(N, FirstKid(N, x, "TERM")) \o LinkTerms(N, FirstKid(N, x, "LINKS"))
Linked(N, tu1) == Nch(N, tu1) > 1
LinksOf(N, tu1) == LinkTerms(N, Kid(N, tu1, 2))

-----------------------------------------------------------------------------
(* The places of one selbri unit.  lc is what surrounds it, outermost first:
   se (swap with x1), jai with a tag (x1 becomes the tag's, the old one fai),
   jai, links.  Result: a sequence of <<term, tag>>. *)
SeOf == "se" :> 2 @@ "te" :> 3 @@ "ve" :> 4 @@ "xe" :> 5
MaxPlace == 19
Place0 == [pos |-> 0, taken |-> FALSE, jai |-> <<>>]
Board0 == [p |-> [j \in 1 .. MaxPlace |-> [Place0 EXCEPT !.pos = j]], f |-> <<>>, out |-> <<>>]
Give(b, t, pl, tt) == Append(b.out, <<t, IF pl.jai # <<>> THEN [ty |-> "jaitag", pos |-> pl.pos, n |-> pl.jai[1], m |-> pl.jai[2]]
                                          ELSE [tt EXCEPT !.pos = pl.pos]>>)
GiveFa(b, e, tt) ==
  IF e.k # "fa" THEN b
  ELSE IF e.p = 101 THEN (IF b.f = <<>> THEN b ELSE [b EXCEPT !.out = Give(b, e.n, b.f[1], tt), !.f[1].taken = TRUE])
  ELSE [b EXCEPT !.out = Give(b, e.n, b.p[e.p], tt), !.p[e.p].taken = TRUE]
\* s = [b, next]: the next plain sumti goes to the first place from next on that is free.
GivePos(s, e, tt) ==
  CASE e.k = "pos" ->
         With(FirstIdx(s.next, MaxPlace, LAMBDA j : ~s.b.p[j].taken),
              LAMBDA j : IF j = 0 THEN [s EXCEPT !.next = MaxPlace + 1]
                         ELSE [b |-> [s.b EXCEPT !.out = Give(s.b, e.n, s.b.p[j], tt), !.p[j].taken = TRUE], next |-> j + 1])
    [] e.k = "fa" /\ e.p < 101 -> [s EXCEPT !.next = e.p + 1]
    [] OTHER -> s
GiveTerms(b, v, base, tt) ==
  With(FoldSeqL(LAMBDA a, e : GiveFa(a, e, tt), b, v),
       LAMBDA b1 : FoldSeqL(LAMBDA s, e : GivePos(s, e, tt), [b |-> b1, next |-> base], v).b)
Surround(b, c, tt) ==
  CASE c.k = "se" -> [b EXCEPT !.p[1] = b.p[c.v], !.p[c.v] = b.p[1]]
    [] c.k = "tag" -> [b EXCEPT !.f = SubSeq(<<b.p[1]>> \o b.f, 1, MinOf(Len(b.f) + 1, 18)), !.p[1].jai = <<c.n, c.m>>]
    [] c.k = "jai" -> [b EXCEPT !.f = SubSeq(<<b.p[1]>> \o b.f, 1, MinOf(Len(b.f) + 1, 18)), !.p[1].jai = <<>>]
    [] c.k = "links" -> GiveTerms(b, c.v, 2, tt)
Reversed(s) == [k \in 1 .. Len(s) |-> s[Len(s) + 1 - k]]
Assign(pre, post, lc, tt) ==
  With(FoldSeqL(LAMBDA b, c : Surround(b, c, tt), Board0, Reversed(lc)),
       LAMBDA b1 : With(GiveTerms(b1, pre, 1, tt), LAMBDA b2 : GiveTerms(b2, post, 2, tt).out))
\* Which place of the unit its surroundings make x1.
InnerSe(lc) == LET r == Reversed(lc)
                   k == FirstIdx(1, Len(r), LAMBDA j : r[j].k = "tag")
               IN SelectSeq(IF k = 0 THEN r ELSE SubSeq(r, 1, k - 1), LAMBDA c : c.k = "se")
ConvOf(lc) == FoldSeqL(LAMBDA p, c : [p EXCEPT ![1] = p[c.v], ![c.v] = p[1]], [j \in 1 .. 5 |-> j], InnerSe(lc))[1]

-----------------------------------------------------------------------------
(* From a bridi to its units.  Effects, a sequence: tag (term n has tag v), rb (n
   must be bracketed), conv (the gloss of n is of place v), dg (n not glossed),
   done (the unit with links n has been seen). *)
Eff(k, n, v) == [k |-> k, n |-> n, v |-> v]
Tag(ty, n) == [ty |-> ty, pos |-> 0, n |-> n, m |-> 0]
TagEffs(as) == [k \in 1 .. Len(as) |-> Eff("tag", as[k][1], as[k][2])]
Convs(lc, n) == <<Eff("conv", n, ConvOf(lc))>> \o [k \in 1 .. Len(InnerSe(lc)) |-> Eff("dg", InnerSe(lc)[k].n, 0)]
Unit(n, tt, pre, post, lc, conv) == TagEffs(Assign(pre, post, lc, tt)) \o (IF conv THEN Convs(lc, n) ELSE <<>>)
LcSe(v, n) == [k |-> "se", v |-> v, n |-> n, m |-> 0]
LcTag(tag, m) == [k |-> "tag", v |-> 0, n |-> tag, m |-> m]
LcJai == [k |-> "jai", v |-> 0, n |-> 0, m |-> 0]
LcLinks(v) == [k |-> "links", v |-> v, n |-> 0, m |-> 0]

RECURSIVE OfSelbri(_, _, _, _, _), OfSelbri3(_, _, _, _, _), OfSelbri4(_, _, _, _, _), OfSelbri5(_, _, _, _, _), OfSelbri6(_, _, _, _, _),
          OfUnit2(_, _, _, _, _)
OfUnit1(N, u, pre, post, lc) ==
  OfUnit2(N, Kid(N, u, 1), pre, post, IF Linked(N, u) THEN Append(lc, LcLinks(LinksOf(N, u))) ELSE lc) \o <<Eff("done", u, 0)>>
OfCmavoUnit(N, u, c, pre, post, lc) ==
  CASE Sel(N, c) = "GOhA" -> Unit(c, Tag("goha", c), pre, post, lc, TRUE)
    [] Sel(N, c) = "ME" -> With(FirstKid(N, u, "SUMTI"), LAMBDA s : <<Eff("rb", s, 0)>> \o Unit(c, Tag("me", s), pre, post, lc, FALSE))
    [] Sel(N, c) = "NUhA" -> With(FirstKid(N, u, "MEX_OPERATOR"), LAMBDA m : <<Eff("rb", m, 0)>> \o Unit(c, Tag("nuha", m), pre, post, lc, TRUE))
    [] OTHER -> <<>>
OfCompoundUnit(N, c, pre, post, lc) ==
  CASE Lab(N, c) = "NUMBER_MOI_TU2" ->
         Unit(c, [Tag("moi", Kid(N, c, 1)) EXCEPT !.m = CmKid(N, c, 1, "MOI")], pre, post, lc, FALSE)
         \o (IF pre # <<>> \/ post # <<>> THEN <<Eff("rb", Kid(N, c, 1), 0)>> ELSE <<>>)
    [] Lab(N, c) = "KE_SELBRI3_TU2" -> OfSelbri3(N, FirstKid(N, c, "SELBRI_3"), pre, post, lc)
    [] Lab(N, c) = "SE_TU2" ->
         With(Strip(N, Kid(N, c, 1)), LAMBDA se :
              OfUnit2(N, FirstKid(N, c, "TANRU_UNIT_2"), pre, post, Append(lc, LcSe(SeOf[Wd(N, se).txt], se))))
    [] Lab(N, c) = "JAI_TAG_TU2" ->
         With(FirstKid(N, c, "TANRU_UNIT_2"), LAMBDA u :
              <<Eff("rb", u, 0)>> \o OfUnit2(N, u, pre, post, Append(lc, LcTag(FirstKid(N, c, "TAG"), u))))
    [] Lab(N, c) = "JAI_TU2" -> OfUnit2(N, FirstKid(N, c, "TANRU_UNIT_2"), pre, post, Append(lc, LcJai))
    [] Lab(N, c) = "NAHE_TU2" -> OfUnit2(N, FirstKid(N, c, "TANRU_UNIT_2"), pre, post, lc)
    [] Lab(N, c) = "ABSTRACTION" ->
         With(Strip(N, Kid(N, Kid(N, c, 1), 1)), LAMBDA nu :
              IF Sel(N, nu) = "NU" THEN Unit(nu, Tag("nu", nu), pre, post, lc, TRUE) ELSE <<>>)
    [] OTHER -> <<>>
OfUnit2(N, u, pre, post, lc) ==
  With(Strip(N, Kid(N, u, 1)), LAMBDA c :
    CASE WordTy(N, c) = "CMAVO" -> OfCmavoUnit(N, u, c, pre, post, lc)
      [] WordTy(N, c) = "BRIVLA" -> Unit(c, Tag("brivla", c), pre, post, lc, TRUE)
      [] WordTy(N, c) = "ZEI" -> Unit(c, Tag("zei", c), pre, post, lc, TRUE)
      [] OTHER -> OfCompoundUnit(N, c, pre, post, lc))
\* One unit; A bo B: B; the forethought form: both.  (A unit given a meaning with cei: none.)
OfSelbri6(N, x, pre, post, lc) ==
  IF Nch(N, x) = 1
  THEN With(Kid(N, x, 1), LAMBDA tu : IF Nch(N, tu) > 1 THEN <<>> ELSE OfUnit1(N, Kid(N, tu, 1), pre, post, lc))
  ELSE (IF FirstKid(N, x, "TANRU_UNIT") # 0 THEN <<>> ELSE OfSelbri(N, FirstKid(N, x, "SELBRI"), pre, post, lc))
       \o OfSelbri6(N, FirstKid(N, x, "SELBRI_6"), pre, post, lc)
OfSelbri5(N, x, pre, post, lc) ==
  IF x = 0 THEN <<>> ELSE OfSelbri6(N, FirstKid(N, x, "SELBRI_6"), pre, post, lc) \o OfSelbri5(N, FirstKid(N, x, "SELBRI_5"), pre, post, lc)
OfSelbri4(N, x, pre, post, lc) ==
  IF x = 0 THEN <<>>
  ELSE (IF FirstKid(N, x, "SELBRI_5") # 0 THEN OfSelbri5(N, FirstKid(N, x, "SELBRI_5"), pre, post, lc)
        ELSE OfSelbri3(N, FirstKid(N, FirstKid(N, x, "KE_SELBRI_3"), "SELBRI_3"), pre, post, lc))
       \o OfSelbri4(N, FirstKid(N, x, "SELBRI_4"), pre, post, lc)
\* A tanru has the places of its last part, in all branches of it.
OfSelbri3(N, x, pre, post, lc) == OfSelbri4(N, FirstKid(N, x, "SELBRI_4"), pre, post, lc)
RECURSIVE FinalSelbri2(_, _), Selbri2Of(_, _)
FinalSelbri2(N, x) == IF Nch(N, x) = 1 THEN x ELSE FinalSelbri2(N, FirstKid(N, x, "SELBRI_2"))
Selbri2Of(N, s) == With(FirstKid(N, s, "SELBRI_1"), LAMBDA s1 :
                     IF FirstKid(N, s1, "SELBRI_2") # 0 THEN FirstKid(N, s1, "SELBRI_2") ELSE Selbri2Of(N, FirstKid(N, s1, "SELBRI")))
\* A co B co C: what is in front belongs to A, what follows to C.
OfSelbri(N, s, pre, post, lc) ==
  With(Selbri2Of(N, s), LAMBDA s2 :
    IF Nch(N, s2) = 1 THEN OfSelbri3(N, Kid(N, s2, 1), pre, post, lc)
    ELSE OfSelbri3(N, Kid(N, s2, 1), pre, <<>>, lc) \o OfSelbri3(N, Kid(N, FinalSelbri2(N, s2), 1), <<>>, post, lc))

\* The terms of the tail, before those that came with what surrounds it.
Tail0(N, x, post) == With(FirstKid(N, x, "TAIL_TERMS"), LAMBDA t : IF t = 0 THEN post ELSE Terms(N, FirstKid(N, t, "TERMS")) \o post)
RECURSIVE OfTail(_, _, _, _), OfTail1(_, _, _, _), OfTail2(_, _, _, _), OfTail3(_, _, _, _), OfSubsentence(_, _, _, _), Gek0(_, _)
Gek0(N, g) == IF Lab(N, Kid(N, g, 1)) = "GEK" THEN g ELSE Gek0(N, FirstKid(N, g, "GEK_SENTENCE"))
OfGek(N, g, pre, post) ==
  With(Tail0(N, g, post), LAMBDA np : OfSubsentence(N, NthKid(N, g, 1, "SUBSENTENCE"), pre, np)
                                      \o OfSubsentence(N, NthKid(N, g, 2, "SUBSENTENCE"), pre, np))
OfTail3(N, x, pre, post) ==
  With(Kid(N, x, 1), LAMBDA c :
    IF Lab(N, c) = "MAIN_SELBRI" THEN OfSelbri(N, Kid(N, c, 1), pre, Tail0(N, x, post), <<>>)
    ELSE OfGek(N, Gek0(N, c), pre, post))
OfTail2(N, x, pre, post) ==
  IF Nch(N, x) = 1 THEN OfTail3(N, Kid(N, x, 1), pre, post)
  ELSE With(Tail0(N, x, post), LAMBDA np : OfTail2(N, NthKid(N, x, 1, "BRIDI_TAIL_2"), pre, np) \o OfTail2(N, NthKid(N, x, 2, "BRIDI_TAIL_2"), pre, np))
OfTail1(N, x, pre, post) ==
  IF Nch(N, x) = 1 THEN OfTail2(N, Kid(N, x, 1), pre, post)
  ELSE With(Tail0(N, x, post), LAMBDA np : OfTail1(N, FirstKid(N, x, "BRIDI_TAIL_1"), pre, np) \o OfTail2(N, FirstKid(N, x, "BRIDI_TAIL_2"), pre, np))
OfTail(N, x, pre, post) ==
  IF Nch(N, x) = 1 THEN OfTail1(N, Kid(N, x, 1), pre, post)
  ELSE With(Tail0(N, x, post), LAMBDA np : OfTail1(N, FirstKid(N, x, "BRIDI_TAIL_1"), pre, np) \o OfTail(N, FirstKid(N, x, "BRIDI_TAIL"), pre, np))
Inner(N, s) == IF Nch(N, s) = 1 /\ Is(N, Kid(N, s, 1), {"NO_CU_SENTENCE", "OBSERVATIVE_SENTENCE"}) THEN Kid(N, s, 1) ELSE s
OfSentence(N, s0, pre, post) ==
  With(Inner(N, s0), LAMBDA s : OfTail(N, FirstKid(N, s, "BRIDI_TAIL"), pre \o Terms(N, FirstKid(N, s, "TERMS")), post))
OfSubsentence(N, s, pre, post) ==
  IF Nch(N, s) = 2 THEN OfSubsentence(N, Kid(N, s, 2), pre, post) ELSE OfSentence(N, Kid(N, s, 1), pre, post)

\* What starts at a node: a bridi of its own.
Started(N, i) ==
  CASE Lab(N, i) = "STATEMENT_3" -> IF Nch(N, i) = 1 THEN OfSentence(N, Kid(N, i, 1), <<>>, <<>>) ELSE <<>>
    [] Lab(N, i) = "ABSTRACTION" -> OfSubsentence(N, Kid(N, i, 2), <<>>, <<>>)
    [] Lab(N, i) = "RELATIVE_CLAUSE" /\ Lab(N, Kid(N, i, 1)) = "FULL_RELATIVE_CLAUSE" ->
         With(FirstKid(N, Kid(N, i, 1), "SUBSENTENCE"), LAMBDA s : IF s = 0 THEN <<>> ELSE OfSubsentence(N, s, <<>>, <<>>))
    [] Lab(N, i) = "METALINGUISTIC" ->
         OfSelbri(N, Kid(N, FirstKid(N, i, "METALINGUISTIC_MAIN_SELBRI"), 1), Terms(N, FirstKid(N, i, "TERMS")), <<>>, <<>>)
    [] OTHER -> <<>>
InSumti(N, i) == IF Is(N, i, {"SUMTI_5B", "SUMTI_TAIL_1A"}) THEN OfSelbri(N, FirstKid(N, i, "SELBRI"), <<>>, <<>>, <<>>) ELSE <<>>
All(N, F(_)) == FoldSeqL(LAMBDA a, i : a \o F(i), <<>>, [i \in 1 .. Len(N) |-> i])
\* units with links that no bridi or sumti has got to, in order (one may be inside another)
DoneIn(e) == {e[k].n : k \in {j \in DOMAIN e : e[j].k = "done"}}
LeftOver(N, e, i) ==
  IF Lab(N, i) # "TANRU_UNIT_1" \/ ~Linked(N, i) \/ i \in DoneIn(e) THEN e
  ELSE e \o OfUnit2(N, Kid(N, i, 1), <<>>, <<>>, <<LcLinks(LinksOf(N, i))>>) \o <<Eff("done", i, 0)>>
Effects(N) ==
  FoldSeqL(LAMBDA e, i : LeftOver(N, e, i), All(N, LAMBDA i : Started(N, i)) \o All(N, LAMBDA i : InSumti(N, i)), [i \in 1 .. Len(N) |-> i])

-----------------------------------------------------------------------------
(* Relative clauses: the node a clause is about, and the clause of a ke'a. *)
RECURSIVE Up(_, _, _)
Up(N, i, S) == IF i = 0 \/ Lab(N, i) \in S THEN i ELSE Up(N, N[i].par, S)
Antecedent(N, r) ==
  LET e == N[Up(N, N[r].par, {"RELATIVE_CLAUSES"})].par IN
  CASE Is(N, e, {"SUMTI", "SUMTI_5", "SUMTI_TAIL_1"}) -> Kid(N, e, 1)
    [] Is(N, e, {"LAHE_SUMTI_6", "NAHE_BO_SUMTI_6"}) -> FirstKid(N, e, "SUMTI")
    [] Is(N, e, {"NAME_SUMTI_6", "FREE_VOCATIVE"}) -> e
    [] Is(N, e, {"SUMTI_TAIL"}) -> FirstKid(N, e, "SUMTI_6")
    [] OTHER -> 0
Antecedents(N) == {Antecedent(N, r) : r \in {i \in DOMAIN N : Lab(N, i) = "RELATIVE_CLAUSE"}} \ {0}
KehaOf(N, i) == With(Up(N, N[i].par, {"RELATIVE_CLAUSE", "CHUNKS"}), LAMBDA r : IF Lab(N, r) = "RELATIVE_CLAUSE" THEN Antecedent(N, r) ELSE 0)

-----------------------------------------------------------------------------
(* Brackets: their shape, "" if the node has none.  must: bracketed whatever
   they look like. *)
Many(N, i) == Nch(N, i) > 1
Shape1(N, i, must) ==
  LET L == Lab(N, i) IN
  CASE L = "TERM" \/ L = "FREE" -> "round"
    [] L \in {"MAIN_SELBRI", "METALINGUISTIC_MAIN_SELBRI"} -> "triangle"
    [] L \in {"SENTENCE", "FRAGMENT"} -> "square"
    [] L \in {"RELATIVE_CLAUSE", "ABSTRACTION"} -> "angle"
    [] L = "RELATIVE_CLAUSES" -> IF Many(N, Kid(N, i, 1)) THEN "round" ELSE ""
    [] L \in {"SUMTI_2", "SUMTI_3", "SUMTI_4", "SUMTI_5"} -> IF Many(N, i) THEN "ceil" ELSE ""
    [] L \in {"SUMTI", "SUMTI_1", "LAHE_SUMTI_6", "NAHE_BO_SUMTI_6", "FREE_VOCATIVE"} -> IF Many(N, i) \/ i \in must THEN "ceil" ELSE ""
    [] L \in {"SUMTI_5A", "SUMTI_5B", "SUMTI_6", "NAME_SUMTI_6", "SUMTI_TAIL_1A"} -> IF i \in must THEN "ceil" ELSE ""
    [] L \in {"SELBRI_1", "SELBRI_2", "SELBRI_3", "SELBRI_4", "SELBRI_5", "SELBRI_6"} -> IF Many(N, i) THEN "floor" ELSE ""
    [] L = "TANRU_UNIT_1" -> IF Many(N, i) THEN "brace" ELSE ""
    [] L = "TANRU_UNIT_2" -> IF i \in must THEN "brace" ELSE ""
    [] L \in {"NUMBER", "LERFU_STRING", "MEX_OPERATOR"} -> IF i \in must THEN "round" ELSE ""
    [] WordTy(N, i) = "ZEI" -> "floor"
    [] OTHER -> ""
MustBracket(N, e) == {e[k].n : k \in {j \in DOMAIN e : e[j].k = "rb"}} \cup Antecedents(N)
\* shapes, and numbers in preorder (0: none)
ShapesOf(N, must) == TLCEval([i \in 1 .. Len(N) |-> Shape1(N, i, must)])
NumbersOf(sh) == FoldSeqL(LAMBDA a, i : [n |-> a.n + (IF sh[i] = "" THEN 0 ELSE 1), s |-> Append(a.s, IF sh[i] = "" THEN 0 ELSE a.n + 1)],
                          [n |-> 0, s |-> <<>>], [i \in 1 .. Len(sh) |-> i]).s
=============================================================================
