------------------------------- MODULE Formats --------------------------------
(* How each output format writes the events of Gloss: the same words, brackets,
   English and places in all of them.

   Html, Plain (-x), Tex (-l): in one stream.  TexBlocks (-l -b): blocks of Lojban
   over English over places.  PlainBlocks (-x -b): such blocks side by side in
   lines of a given width. *)
EXTENDS Gloss, Bracketed

SignOf(fmt) ==
  CASE fmt = "H" -> ("ceil" :> "(" @@ "floor" :> "(" @@ "triangle" :> "<<")
    [] fmt = "x" -> ("ceil" :> "^" @@ "floor" :> "^" @@ "triangle" :> "<")
    [] OTHER -> ("ceil" :> "ceil" @@ "floor" :> "floor" @@ "triangle" :> "<<")
ShapeIn(fmt, sh) == CASE sh = "round" -> "(" [] sh = "square" -> "[" [] sh = "brace" -> "{" [] sh = "angle" -> "<" [] OTHER -> SignOf(fmt)[sh]
\* -x does not number its brackets, and closes ceilings and floors with what it opens them
\* with; a triangle is two angles there
Bracket(fmt, e) ==
  IF fmt = "x" THEN With(ShapeIn(fmt, e[2]), LAMBDA s : <<IF s = "^" THEN "b" ELSE e[1], s>>) ELSE <<e[1], ShapeIn(fmt, e[2]), e[3]>>
Sign(fmt, s) == IF fmt \in {"H", "xb"} /\ s # "<-" THEN "\"" ELSE s

-----------------------------------------------------------------------------
(* In one stream.  The places of a term are written as one text, words without
   anything in between as one run. *)
Add(a, t) == [a EXCEPT !.tag = @ \o t]
Put(a, e) == [a EXCEPT !.out = Append(@, e)]
StreamStep(fmt, a, e) ==
  CASE e[1] \in {"o", "c"} -> IF fmt = "x" /\ e[2] = "triangle" THEN Put(Put(a, Bracket(fmt, e)), Bracket(fmt, e)) ELSE Put(a, Bracket(fmt, e))
    [] e[1] = "w" -> IF a.out # <<>> /\ Last(a.out)[1] = "w" THEN [a EXCEPT !.out[Len(a.out)] = <<"w", @[2] \o " " \o e[2]>>] ELSE Put(a, e)
    [] e[1] = "g" -> IF e[2] = "" THEN a ELSE Put(a, e)
    [] e[1] = "s" -> Put(a, <<"s", Sign(fmt, e[2])>>)
    [] e[1] = "t[" -> [a EXCEPT !.tag = "", !.first = TRUE]
    [] e[1] = "t," -> IF a.first THEN [a EXCEPT !.first = FALSE] ELSE Add(a, ", ")
    [] e[1] = "tt" -> Add(a, e[2] \o (IF Glosses THEN " (" \o e[3] \o ")" ELSE ""))
    [] e[1] = "tp" -> Add(a, e[2])
    [] e[1] = "x" -> Add(a, " " \o e[2])
    [] e[1] = "t]" -> Put(a, <<"t", a.tag>>)
Stream(fmt, ev) == FoldSeqL(LAMBDA a, e : StreamStep(fmt, a, e), [out |-> <<>>, tag |-> "", first |-> TRUE], ev).out

-----------------------------------------------------------------------------
(* Blocks for TeX: <<"B", Lojban, English, places>>, the places in lines. *)
TexFlush(a) == [a EXCEPT !.out = Append(@, <<"B", a.loj, a.eng, a.tag>>), !.loj = "", !.eng = "", !.tag = ""]
TexFlushText(a) == IF a.loj # "" \/ a.eng # "" THEN TexFlush(a) ELSE a
TexLine(a, t) == Add(a, (IF Len(a.tag) > 1 THEN "\n" ELSE "") \o t)
TexStep(a, e) ==
  CASE e[1] \in {"o", "c"} -> Put(TexFlushText(a), Bracket("l", e))
    [] e[1] = "w" -> With(IF a.eng # "" THEN TexFlush(a) ELSE a, LAMBDA b : [b EXCEPT !.loj = @ \o " " \o e[2]])
    [] e[1] = "g" -> [a EXCEPT !.eng = @ \o " " \o e[2]]
    [] e[1] = "s" -> [a EXCEPT !.eng = @ \o e[2]]
    [] e[1] = "t[" -> [Add(TexFlushText(a), "[") EXCEPT !.first = TRUE]
    [] e[1] = "t," -> IF a.first THEN [a EXCEPT !.first = FALSE] ELSE Add(a, ", ")
    [] e[1] = "tt" -> TexLine(a, e[2] \o " (" \o e[3] \o ")")
    [] e[1] = "tp" -> TexLine(a, e[2])
    [] e[1] = "x" -> TexLine(a, " " \o e[2])
    [] e[1] = "t]" -> Add(a, ":]")
TexBlocks(ev) == TexFlushText(FoldSeqL(LAMBDA a, e : TexStep(a, e), [out |-> <<>>, loj |-> "", eng |-> "", tag |-> "", first |-> TRUE], ev)).out

-----------------------------------------------------------------------------
(* Blocks side by side.  A block is as wide as its longest row; a block that does
   not fit in the line starts a new one. *)
RECURSIVE Twice(_, _)
Twice(s, n) == IF n = 0 THEN s ELSE Twice(s \o s, n - 1)
Blanks == TLCEval(Twice(" ", 13))
Wide(s, n) == IF Len(s) >= n THEN s ELSE s \o UpToCh(Blanks, n - Len(s))
MaxRows == 32
\* the line: width so far, Lojban, English, rows of places
NewLine(a) ==
  IF a.at = 0 THEN a
  ELSE [a EXCEPT !.out = @ \o a.l \o "\n" \o a.e \o "\n" \o Join([k \in 1 .. Len(a.r) |-> a.r[k] \o "\n"]) \o "\n",
                 !.at = 0, !.l = "", !.e = "", !.r = <<>>]
Row(rows, k) == IF k <= Len(rows) THEN rows[k] ELSE ""
PlainFlush(a) ==
  IF a.loj = "" /\ a.eng = "" /\ a.used = 0 THEN a
  ELSE With(FoldSeqL(LAMBDA m, k : MaxOf(m, Len(Row(a.rows, k))), MaxOf(Len(a.loj), Len(a.eng)), [k \in 1 .. a.used |-> k]), LAMBDA w :
       With(IF w + a.at > a.width THEN NewLine(a) ELSE a, LAMBDA b :
         [b EXCEPT !.l = @ \o Wide(a.loj, w), !.e = @ \o Wide(a.eng, w), !.at = @ + w,
                   !.r = [k \in 1 .. MaxOf(a.used, Len(b.r)) |-> Wide(IF k <= Len(b.r) THEN b.r[k] ELSE "", b.at) \o Wide(IF k <= a.used THEN Row(a.rows, k) ELSE "", w)],
                   !.loj = "", !.eng = "", !.rows = <<>>, !.used = 0]))
AddRow(a, t) ==
  [a EXCEPT !.rows = [k \in 1 .. MaxOf(Len(a.rows), a.used + 1) |-> IF k = a.used + 1 THEN Row(a.rows, k) \o t ELSE Row(a.rows, k)]]
Open3(sh) == CASE sh = "ceil" -> <<" /", "|", "|">> [] sh = "floor" -> <<"|", "|", " \\">> [] OTHER -> [k \in 1 .. 3 |-> ShapeIn("xb", sh)]
Mirror(s) == CASE s = "(" -> ")" [] s = "[" -> "]" [] s = "{" -> "}" [] s = "<" -> ">" [] s = "<<" -> ">>"
Shut3(sh) == CASE sh = "ceil" -> <<"\\", " |", " |">> [] sh = "floor" -> <<" |", " |", "/">> [] OTHER -> [k \in 1 .. 3 |-> Mirror(ShapeIn("xb", sh))]
BracketBlock(a, three, n) == [a EXCEPT !.loj = three[1] \o " ", !.eng = three[2] \o " ", !.rows = <<three[3] \o " ", n \o " ">>, !.used = 2]
FlushText(a) == IF a.loj # "" \/ a.eng # "" THEN PlainFlush(a) ELSE a
PlainStep(a, e) ==
  CASE e[1] = "o" -> BracketBlock(PlainFlush(a), Open3(e[2]), e[3])
    [] e[1] = "c" -> BracketBlock(FlushText(a), Shut3(e[2]), e[3])
    [] e[1] = "w" -> With(IF a.eng # "" THEN PlainFlush(a) ELSE a, LAMBDA b : [b EXCEPT !.loj = @ \o e[2] \o " "])
    [] e[1] = "g" -> [a EXCEPT !.eng = @ \o e[2] \o " "]
    [] e[1] = "s" -> [a EXCEPT !.eng = @ \o Sign("xb", e[2])]
    [] e[1] = "t[" -> [FlushText(a) EXCEPT !.first = TRUE]
    [] e[1] = "t," -> IF a.first THEN [a EXCEPT !.first = FALSE] ELSE IF a.used < MaxRows - 1 THEN [a EXCEPT !.used = @ + 1] ELSE a
    [] e[1] = "tt" -> AddRow(a, e[2] \o " (" \o e[3] \o ") ")
    [] e[1] = "tp" -> AddRow(a, e[2])
    [] e[1] = "x" -> AddRow(a, " " \o e[2] \o " ")
    [] e[1] = "t]" -> [a EXCEPT !.used = @ + 1]
PlainBlocks(ev, width) ==
  NewLine(PlainFlush(FoldSeqL(LAMBDA a, e : PlainStep(a, e),
    [out |-> "", loj |-> "", eng |-> "", rows |-> <<>>, used |-> 0, first |-> TRUE, width |-> width, at |-> 0, l |-> "", e |-> "", r |-> <<>>], ev))).out

-----------------------------------------------------------------------------
(* The plain bracketed text with English (-g): each word followed by its entry
   in the dictionary, a word after "se" and the like by that of the place. *)
ConvDigit == "se" :> "2" @@ "te" :> "3" @@ "ve" :> "4" @@ "xe" :> "5"
WordKey(x) == IF x.el THEN LowerOf[x.t[1].txt] ELSE x.t[1].txt
Slashed(v) == Or(v, LAMBDA x : " /" \o x \o "/", "")
Starry(v) == Or(v, LAMBDA x : " /" \o x \o "*/", "")
UnderSe(se, w) == IF se = "" THEN <<>> ELSE Look(w \o ConvDigit[se])
ShortGloss(x, se) ==
  LET t == x.t[1]
      w == WordKey(x)
  IN CASE t.ty = "CMAVO" -> IF t.sel = "BAI" THEN Starry(Look(se \o w)) ELSE Slashed(Look(w))
       [] t.ty = "BRIVLA" -> With(UnderSe(se, w), LAMBDA v : IF v # <<>> THEN Starry(v) ELSE Slashed(FirstOf(Look(w), Unknown(w, 1, "n"))))
       [] OTHER -> ""
\* the se in front of the k-th of some parts
SeBefore(ch, k) ==
  IF k = 1 \/ ~ch[k - 1].leaf \/ ch[k - 1].t = <<>> THEN ""
  ELSE With(ch[k - 1].t[1], LAMBDA t : IF t.ty = "CMAVO" /\ t.sel = "SE" /\ t.txt \in DOMAIN ConvDigit THEN t.txt ELSE "")
LeafItems(x, d, se) ==
  With(WordItems(x.t[1], d), LAMBDA its : IF its = <<>> THEN its ELSE With(ShortGloss(x, se), LAMBDA g :
    IF g = "" THEN its ELSE [its EXCEPT ![Len(its)] = Text(@.s \o g)]))
RECURSIVE GlossedItems(_, _, _)
GlossedItems(x, d, se) ==
  IF x.leaf THEN (IF x.t = <<>> THEN <<>> ELSE LeafItems(x, d, se))
  ELSE <<Open(d)>> \o Flatten([k \in 1 .. Len(x.ch) |-> GlossedItems(x.ch[k], d + 1, SeBefore(x.ch, k))]) \o <<Shut(d)>>
Short(tree) == With(Merge(GlossedItems(Compress(tree), 0, ""), <<>>), LAMBDA m : [k \in 1 .. Len(m) |-> m[k].s])

-----------------------------------------------------------------------------
Written(fmt, width, ev) == CASE fmt \in {"H", "x", "l"} -> Stream(fmt, ev) [] fmt = "lb" -> TexBlocks(ev) [] fmt = "xb" -> <<PlainBlocks(ev, width)>>
=============================================================================
