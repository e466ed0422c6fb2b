------------------------------- MODULE Preproc -------------------------------
(* The rewriting of the word list before grammar applies: zo and lo'u...le'u
   quotation, erasure by si/sa/su, zei compounds, ba'e, bu, and the attachment
   of indicators.  Each pass maps a list to a list; passes that can complain
   return [t |-> list, m |-> messages]. *)
EXTENDS Tokens

-----------------------------------------------------------------------------
(* zo quotes the next word, whatever it is. *)
RECURSIVE ZoFrom(_, _)
ZoFrom(ts, i) ==
  IF i > Len(ts) THEN ts
  ELSE IF IsCm(ts[i], "ZO") /\ i < Len(ts)
  THEN ZoFrom(SubSeq(ts, 1, i - 1) \o <<[ts[i] EXCEPT !.ty = "ZO", !.txt = ts[i+1].txt]>> \o From(ts, i + 2), i + 1)
  ELSE ZoFrom(ts, i + 1)
HandleZo(ts) == LET r == ZoFrom(ts, 1) IN
  \* only an unpaired zo, necessarily the last word, stays a cmavo
  [t |-> r, m |-> IF r # <<>> /\ IsCm(Last(r), "ZO") THEN <<"Cannot have ZO as the last token in the text">> ELSE <<>>]

(* lo'u ... le'u quotes everything up to the first le'u. *)
RECURSIVE LohuFrom(_, _)
LohuFrom(ts, i) ==
  IF i > Len(ts) THEN [t |-> ts, m |-> <<>>]
  ELSE IF IsCm(ts[i], "LOhU") THEN
    LET e == FirstIdx(i + 1, Len(ts), LAMBDA k : IsCm(ts[k], "LEhU")) IN
    IF e = 0 THEN [t |-> ts, m |-> <<"Unterminated LOhU .. LEhU construction">>]
    ELSE LET q == JoinSep([k \in 1 .. e - i - 1 |-> UnitText(ts[i + k])], " ")
         IN LohuFrom(SubSeq(ts, 1, i - 1) \o <<[ts[i] EXCEPT !.ty = "LOHU", !.txt = q]>> \o From(ts, e + 1), i + 1)
  ELSE LohuFrom(ts, i + 1)
HandleLohu(ts) == LohuFrom(ts, 1)

-----------------------------------------------------------------------------
(* si erases the preceding word; quotations take one si per word that makes
   them up, and too few leave a broken erasure. *)
SiNeeded(t) == CASE t.ty = "ZOI" -> 4 [] t.ty = "ZO" -> 2 [] t.ty = "LOHU" -> 3 [] t.ty = "BROKEN" -> t.n [] OTHER -> 1
RECURSIVE SiRun(_, _)
SiRun(ts, i) == IF i <= Len(ts) /\ IsCm(ts[i], "SI") THEN 1 + SiRun(ts, i + 1) ELSE 0
RECURSIVE SiFrom(_, _, _, _)
SiFrom(out, ts, i, m) ==
  IF i > Len(ts) THEN [t |-> out, m |-> m]
  ELSE IF ~IsCm(ts[i], "SI") THEN SiFrom(Append(out, ts[i]), ts, i + 1, m)
  ELSE IF out = <<>>
  THEN SiFrom(<<ts[i]>>, ts, i + 1,
         Append(m, "Unmatched SI at start of input, line " \o ToString(ts[i].l) \o " column " \o ToString(ts[i].c)))
  ELSE LET y == Last(out)
           need == SiNeeded(y)
           got == MinOf(need, SiRun(ts, i))
       IN SiFrom(IF got < need THEN Append(Front(out), [y EXCEPT !.ty = "BROKEN", !.n = need - got]) ELSE Front(out),
                 ts, i + got, m)
HandleSi(ts) == SiFrom(<<>>, ts, 1, <<>>)

(* sa erases back to the last word of the same kind as the word after it. *)
SameKind(a, b) == a.ty = b.ty /\ (a.ty = "CMAVO" => a.sel = b.sel)
RECURSIVE SaFrom(_, _)
SaFrom(ts, i) ==
  IF i >= Len(ts) THEN ts
  ELSE IF ~IsCm(ts[i], "SA") THEN SaFrom(ts, i + 1)
  ELSE LET j0 == LastIdx(1, i - 1, LAMBDA k : SameKind(ts[k], ts[i+1]))
           j == IF j0 = 0 THEN 1 ELSE j0
       IN SaFrom(Cut(ts, j, i), j)
HandleSa(ts) == SaFrom(ts, 1)

(* su erases back to the start of the discourse, quotation or parenthesis; su su everything. *)
RECURSIVE SuFrom(_, _)
SuFrom(ts, i) ==
  IF i > Len(ts) THEN ts
  ELSE IF ~IsCm(ts[i], "SU") THEN SuFrom(ts, i + 1)
  ELSE IF i < Len(ts) /\ IsCm(ts[i+1], "SU") THEN SuFrom(From(ts, i + 2), 1)
  ELSE LET j0 == LastIdx(1, i - 1, LAMBDA k : ts[k].ty = "CMAVO" /\ ts[k].sel \in {"NIhO", "LU", "TUhE", "TO"})
           j == IF j0 = 0 THEN 1 ELSE j0
       IN SuFrom(Cut(ts, j, i), j)
HandleSu(ts) == SuFrom(ts, 1)

-----------------------------------------------------------------------------
(* X zei Y zei Z: one compound word. *)
RECURSIVE ZeiEnd(_, _)      \* last component of the chain whose zei is at i, 0 if a zei ends the text
ZeiEnd(ts, i) == IF i + 1 > Len(ts) THEN 0 ELSE IF CmAt(ts, i + 2, "ZEI") THEN ZeiEnd(ts, i + 2) ELSE i + 1
RECURSIVE ZeiFrom(_, _, _)
ZeiFrom(ts, i, m) ==
  IF i > Len(ts) THEN [t |-> ts, m |-> m]
  ELSE IF ~IsCm(ts[i], "ZEI") THEN ZeiFrom(ts, i + 1, m)
  ELSE IF i = 1 THEN ZeiFrom(ts, 2, Append(m, "Cannot have 'zei' at the start of the text"))
  ELSE LET e == ZeiEnd(ts, i) IN
    IF e = 0 THEN ZeiFrom(ts, i + 1, Append(m, "Cannot have 'zei' at the end of the text"))
    ELSE LET comps == [k \in 1 .. ((e - i + 1) \div 2) + 1 |-> UnitText(ts[i - 1 + 2 * (k - 1)])]
             node == [ts[i] EXCEPT !.ty = "ZEI", !.txt = JoinSep(comps, " zei ")]
         IN ZeiFrom(SubSeq(ts, 1, i - 2) \o <<node>> \o From(ts, e + 1), i, m)
HandleZei(ts) == ZeiFrom(ts, 1, <<>>)

(* ba'e / za'e emphasize the next word. *)
RECURSIVE BaheFrom(_, _)
BaheFrom(ts, i) ==
  IF i > Len(ts) THEN ts
  ELSE IF IsCm(ts[i], "BAhE") /\ i < Len(ts) /\ ~IsCm(ts[i+1], "FAhO")
  THEN BaheFrom(SubSeq(ts, 1, i - 1) \o <<[ts[i+1] EXCEPT !.bh = Append(ts[i].bh, ts[i].txt)]>> \o From(ts, i + 2), i)
  ELSE BaheFrom(ts, i + 1)
HandleBahe(ts) == BaheFrom(ts, 1)

(* bu makes a letter of the preceding word. *)
BuText(y) ==
  CASE y.ty = "ZO"     -> "zo" \o y.txt
    [] y.ty = "LOHU"   -> "lo'u-" \o y.txt \o "-le'u"
    [] y.ty = "BU"     -> y.txt \o ".bu"
    [] y.ty = "BROKEN" -> "<Defective erasure>"
    [] OTHER           -> y.txt
RECURSIVE BuFrom(_, _, _)
BuFrom(ts, i, m) ==
  IF i > Len(ts) THEN [t |-> ts, m |-> m]
  ELSE IF ~IsCm(ts[i], "BU") THEN BuFrom(ts, i + 1, m)
  ELSE IF i = 1 THEN BuFrom(ts, 2, Append(m, "Cannot have 'bu' at the start of the text"))
  ELSE BuFrom(SubSeq(ts, 1, i - 2) \o
              <<[ts[i] EXCEPT !.ty = "BU", !.txt = BuText(ts[i-1]), !.bh = ts[i-1].bh \o ts[i].bh]>> \o From(ts, i + 1),
              i, m)
HandleBu(ts) == BuFrom(ts, 1, <<>>)

-----------------------------------------------------------------------------
(* Indicators: each takes a following nai, then a following CAI, then a nai
   after that. *)
IsInd(t) == t.ty = "CMAVO" /\ t.sel \in {"UI", "CAI", "Y", "DAhO", "FUhE", "FUhO"}
Absorb(ts, i) == \* the indicator at i takes the word at i + 1
  SubSeq(ts, 1, i - 1) \o <<[ts[i] EXCEPT !.mods = Append(@, ts[i+1].txt), !.bh = @ \o ts[i+1].bh]>> \o From(ts, i + 2)
RECURSIVE PairFrom(_, _)
PairFrom(ts, i) ==
  IF i > Len(ts) THEN ts
  ELSE IF ~IsInd(ts[i]) THEN PairFrom(ts, i + 1)
  ELSE LET a == IF CmAt(ts, i + 1, "NAI") THEN Absorb(ts, i) ELSE ts
           hasCai == CmAt(a, i + 1, "CAI")
           b == IF hasCai THEN Absorb(a, i) ELSE a
           c == IF hasCai /\ CmAt(b, i + 1, "NAI") THEN Absorb(b, i) ELSE b
       IN PairFrom(c, i + 1)

(* A run of indicators belongs to the word before it; those that open the text
   (possibly after a fu'e) stay where they are. *)
RECURSIVE IndRun(_, _)
IndRun(ts, i) == IF i <= Len(ts) /\ IsInd(ts[i]) THEN 1 + IndRun(ts, i + 1) ELSE 0
InitialRun(ts) == IndRun(ts, 1)
RECURSIVE AttachFrom(_, _)
AttachFrom(ts, i) == \* ts[i] is a word indicators can attach to
  IF i > Len(ts) THEN ts
  ELSE LET k == IndRun(ts, i + 1) IN
    IF k = 0 THEN AttachFrom(ts, i + 1)
    ELSE AttachFrom(SubSeq(ts, 1, i - 1) \o <<[ts[i] EXCEPT !.ui = SubSeq(ts, i + 1, i + k)]>> \o From(ts, i + k + 1), i + 1)
HandleIndicators(ts0) == LET ts == PairFrom(ts0, 1) IN AttachFrom(ts, InitialRun(ts) + 1)
=============================================================================
