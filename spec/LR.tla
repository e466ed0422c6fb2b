--------------------------------- MODULE LR ----------------------------------
(* The grammar: a shift/reduce machine over the preprocessed word list, the
   parse tree it builds, and how the tree is shown.  lr_norm.json is the
   grammar with elidable terminators optional, lr_full.json the one of -re,
   where they are required. *)
EXTENDS Tokens

LrNorm == TLCEval(JsonDeserialize("lr_norm.json"))
LrFull == TLCEval(JsonDeserialize("lr_full.json"))

\* The grammar symbol of a unit.
Symbol(t) ==
  CASE t.ty \in {"MARKER", "CMAVO"} -> t.sel
    [] t.ty = "LOHU"   -> "LOhU"
    [] t.ty = "BROKEN" -> "GARBAGE"
    [] OTHER           -> t.ty

-----------------------------------------------------------------------------
(* Trees.  A node: its label, extra lines shown with it, its children; hid:
   markers are part of the tree but never shown; leaf; l, c: position. *)
Leaf(lab, extra, hid, l, c) ==
  [lab |-> lab, x |-> extra, ch |-> <<>>, hid |-> hid, leaf |-> TRUE, l |-> l, c |-> c, el |-> FALSE, t |-> <<>>]
ModLine(m) == "CMAVO : " \o m \o " [" \o (IF m = "nai" THEN "NAI" ELSE "CAI") \o "]"
Bare(t) == [Leaf(LeafLabel(t), [i \in 1 .. Len(t.mods) |-> ModLine(t.mods[i])], t.ty = "MARKER", t.l, t.c)
              EXCEPT !.t = <<t>>]
BaheLeaf(w) == [Leaf("CMAVO : " \o w \o " [" \o Cmavo[w].c \o "]", <<>>, FALSE, 0, 0)
                  EXCEPT !.t = <<Tok("CMAVO", w, Cmavo[w].s, 0, 0)>>]
Node(lab, ch, l, c) ==
  [lab |-> lab, x |-> <<>>, ch |-> ch, hid |-> FALSE, leaf |-> FALSE, l |-> l, c |-> c, el |-> FALSE, t |-> <<>>]
\* A word with its emphasis in front and its indicators behind.
RECURSIVE WordTree(_)
WordTree(t) ==
  IF t.bh = <<>> /\ t.ui = <<>> THEN Bare(t)
  ELSE Node("AUGMENTED", [i \in 1 .. Len(t.bh) |-> BaheLeaf(t.bh[i])] \o <<Bare(t)>>
                         \o [i \in 1 .. Len(t.ui) |-> WordTree(t.ui[i])], t.l, t.c)
\* terminators, as shown when they are elided, in small letters
LowerOf == ("BE'O" :> "be'o" @@ "BOI" :> "boi" @@ "CU" :> "cu" @@ "DO'U" :> "do'u" @@ "FE'U" :> "fe'u" @@ "GE'U" :> "ge'u" @@ "KEI" :> "kei" @@ "KE'E" :> "ke'e" @@ "KU" :> "ku" @@ "KU'E" :> "ku'e" @@ "KU'O" :> "ku'o"
            @@ "LI'U" :> "li'u" @@ "LO'O" :> "lo'o" @@ "LU'U" :> "lu'u" @@ "ME'U" :> "me'u" @@ "NU'U" :> "nu'u" @@ "SE'U" :> "se'u" @@ "TE'U" :> "te'u" @@ "TOI" :> "toi" @@ "TU'U" :> "tu'u" @@ "VAU" :> "vau" @@ "VE'O" :> "ve'o")
Elided(e) == [Leaf("CMAVO : " \o e.w \o " [" \o e.e \o "]", <<>>, FALSE, 0, 0)
                EXCEPT !.el = TRUE, !.t = <<Tok("CMAVO", e.w, e.e, 0, 0)>>]

\* The children of a reduced rule, with or without the elided terminators.
Children(rule, vals, base, ie) ==
  LET Real(e) == e.p > 0 \/ ie
      ch == SelectSeq(rule.ch, Real)
  IN [i \in 1 .. Len(ch) |-> IF ch[i].p > 0 THEN vals[base + ch[i].p] ELSE Elided(ch[i])]

-----------------------------------------------------------------------------
(* The machine.  st: state stack, v: value stack, i: next word.  A text ends at
   the end of the list or at a fa'o. *)
Parse0 == [st |-> <<1>>, v |-> <<>>, i |-> 1, ended |-> FALSE, res |-> "run", tree |-> <<>>, n |-> 0, why |-> ""]

\* A marker stands where the word it marks begins.
Placed(x, toks, i) ==
  IF toks[i].ty # "MARKER" THEN x
  ELSE LET J == {j \in i .. Len(toks) : toks[j].ty # "MARKER"}
           m == CHOOSE j \in J : \A k \in J : j <= k
       IN IF J = {} THEN x ELSE [x EXCEPT !.l = toks[m].l, !.c = toks[m].c]

ParseStep(g, toks, p, ie) ==
  LET atEnd == p.i > Len(toks) \/ IsCm(toks[p.i], "FAhO")
      sym == IF p.ended THEN "$end" ELSE IF atEnd THEN "PRIVATE_EOF_MARK" ELSE Symbol(toks[p.i])
      known == sym \in DOMAIN g.tok
      a == IF known THEN g.act[Last(p.st)][g.tok[sym]] ELSE g.def[Last(p.st)]
  IN CASE a = -100000 -> [p EXCEPT !.res = "ok", !.tree = <<p.v[1]>>]
       [] a = 0 -> [p EXCEPT !.res = "error", !.why = "token"]
       [] a > 0 -> IF p.ended THEN [p EXCEPT !.st = Append(@, a), !.v = Append(@, Leaf("", <<>>, TRUE, 0, 0))]
                   ELSE IF atEnd THEN [p EXCEPT !.st = Append(@, a), !.v = Append(@, Leaf("", <<>>, TRUE, 0, 0)), !.ended = TRUE]
                   ELSE [p EXCEPT !.st = Append(@, a), !.v = Append(@, Placed(WordTree(toks[p.i]), toks, p.i)), !.i = @ + 1]
       [] OTHER ->
            LET r == g.rules[-a]
                base == Len(p.v) - r.n
                st1 == SubSeq(p.st, 1, Len(p.st) - r.n)
                val == IF r.k = "top" THEN p.v[base + 1]
                       ELSE Node(r.up, Children(r, p.v, base, ie),
                                 IF r.n > 0 THEN p.v[base+1].l ELSE 0, IF r.n > 0 THEN p.v[base+1].c ELSE 0)
            IN IF r.k = "error" THEN [p EXCEPT !.res = "error", !.why = "rule", !.tree = <<p.v[base + 2]>>]
               ELSE [p EXCEPT !.st = Append(st1, g.goto[Last(st1)][r.l]), !.v = Append(SubSeq(p.v, 1, base), val),
                              !.n = @ + 1]

RECURSIVE ParseFrom(_, _, _, _)
ParseFrom(g, toks, p, ie) == IF p.res # "run" THEN p ELSE ParseFrom(g, toks, ParseStep(g, toks, p, ie), ie)
Parse(g, toks, ie) == ParseFrom(g, toks, Parse0, ie)

-----------------------------------------------------------------------------
(* The tree as shown: children before their parent, each line with its depth.
   -t leaves out nodes with a single child (except the root). *)
RECURSIVE Shorten(_)
Shorten(x) == IF ~x.leaf /\ Len(x.ch) = 1 THEN Shorten(x.ch[1]) ELSE x
RECURSIVE Compress(_)
Compress(x) == [x EXCEPT !.ch = [i \in 1 .. Len(x.ch) |-> Compress(Shorten(x.ch[i]))]]
RECURSIVE Lines(_, _)
Lines(x, d) ==
  Flatten([i \in 1 .. Len(x.ch) |-> Lines(x.ch[i], d + 1)])
  \o (IF x.hid THEN <<>> ELSE <<<<d, x.lab>>>> \o [i \in 1 .. Len(x.x) |-> <<d, x.x[i]>>])

-----------------------------------------------------------------------------
(* Syntax errors: the first report names the first word that cannot continue
   any text of the language, and up to eight words before it. *)
RECURSIVE Recent(_, _, _)
Recent(toks, i, n) == IF i < 1 \/ n = 0 THEN <<>> ELSE <<ErrLine(toks[i])>> \o Recent(toks, i - 1, n - 1)
ErrorReport(toks, i) ==
  <<IF i > Len(toks) THEN "<End of text>" ELSE ErrLine(toks[i])>> \o Recent(toks, i - 1, 8)

(* Sentences that look as if they lack a selbri. *)
Where(x) == " at line " \o ToString(x.l) \o " column " \o ToString(x.c)
MissingSelbri(x) == "Missing selbri before GIhA" \o Where(x)
RECURSIVE Suspects(_)
Suspects(x) ==
  Flatten([i \in 1 .. Len(x.ch) |-> Suspects(x.ch[i])])
  \o (IF ~x.leaf /\ x.lab = "FRAGMENT" /\ x.ch[1].lab = "TERMS" /\ ~x.ch[1].leaf
      THEN <<"Warning: Sentence may be missing selbri" \o Where(x) \o "?">> ELSE <<>>)
=============================================================================
