-------------------------------- MODULE Lexer --------------------------------
(* From characters to words: separators, comments, digits, positions, zoi
   quotations, and the division of each run of letters into Lojban words. *)
EXTENDS Morph, Tokens

CONSTANT AllowCultural      \* the -cr option

Lex0 == [line |-> 1, col |-> 0, depth |-> 0, buf |-> <<>>, sl |-> 1, sc |-> 0, new |-> TRUE,
         z |-> "no", zform |-> "", zdelim |-> "", ztext |-> "", zl |-> 0, zc |-> 0,
         toks |-> <<>>, msgs |-> <<>>, done |-> FALSE]

Complain(s, m) == [s EXCEPT !.msgs = Append(@, m)]
At(l, c) == " at line " \o ToString(l) \o " column " \o ToString(c)

CmavoLetters == Cons \cup Vowels \cup {"y", "'"}
AddCmavo(s, w, l, c) ==
  LET t == Join(w) IN
  IF \E x \in Rng(w) : x \notin CmavoLetters THEN Complain(s, "Bad cmavo [" \o t \o "]")
  ELSE IF t \notin CmavoWords THEN Complain(s, "Bad cmavo [" \o t \o "]" \o At(l, c))
  ELSE [s EXCEPT !.toks = Append(@, Tok("CMAVO", t, Cmavo[t].s, l, c))]

\* The words of w starting at starts[k], k.., each at its column.
RECURSIVE AddCmavos(_, _, _, _, _, _, _)
AddCmavos(s, w, starts, k, upto, l, c) ==
  IF k > upto THEN [s |-> s, c |-> c]
  ELSE LET e == IF k < Len(starts) THEN starts[k+1] - 1 ELSE Len(w)
           v == SubSeq(w, starts[k], e)
       IN AddCmavos(AddCmavo(s, v, l, c), w, starts, k + 1, upto, l, c + Len(v))

Brivla == {"GISMU", "LUJVO", "STAGE3", "STAGE3CVC", "STAGE3X", "STAGE3XCVC", "STAGE4"}

RECURSIVE Word(_, _, _, _)
Word(s, w, l, c) ==
  LET t == Join(w) IN
  IF s.z = "text" THEN
    IF t = s.zdelim
    THEN [s EXCEPT !.z = "no", !.zdelim = "", !.ztext = "",
            !.toks = Append(@, [Tok("ZOI", s.ztext, "ZOI", s.zl, s.zc) EXCEPT !.form = s.zform, !.delim = s.zdelim])]
    ELSE [s EXCEPT !.ztext = IF @ = "" THEN t ELSE @ \o " " \o t]
  ELSE IF s.z = "delim" THEN [s EXCEPT !.z = "text", !.zdelim = t]
  ELSE IF t \in {"zoi", "la'o"} THEN [s EXCEPT !.z = "delim", !.zform = t, !.zl = l, !.zc = c]
  ELSE
    LET m == Scan(w) IN
    IF m.cat \in {"NONE", "TOSMABRU", "CULTOSMABRU", "SLINKUI"} \/ (m.cat = "CULTURAL" /\ ~AllowCultural /\ ~m.up)
    THEN Complain(s, "Unrecognizable word '" \o t \o "'" \o At(l, c))
    ELSE IF m.up /\ m.cat # "CMENE"
    THEN Complain(s, "Invalid uppercase letters in word '" \o t \o "'" \o At(l, c))
    ELSE IF m.cat \in {"CMAVOS", "CMAVOSCY"} THEN AddCmavos(s, w, m.starts, 1, Len(m.starts), l, c).s
    ELSE IF m.cat = "CMENE" THEN
      LET d == LaDoi(w) IN
      IF ~d.bad THEN [s EXCEPT !.toks = Append(@, Tok("CMENE", t, "", l, c))]
      ELSE LET pre == SubSeq(w, 1, d.ladoi - 1)
               la == SubSeq(w, d.ladoi, d.tail - 1)
               s1 == IF pre = <<>> THEN s ELSE Word(s, pre, l, c)
               s2 == Word(s1, la, l, c + Len(pre))
           IN Word(s2, From(w, d.tail), l, c + Len(pre) + Len(la))
    ELSE LET k == Len(m.starts)
             r == AddCmavos(s, w, m.starts, 1, k - 1, l, c)
         IN [r.s EXCEPT !.toks = Append(@, Tok("BRIVLA", Join(From(w, m.starts[k])), "", l, r.c))]

Close(s) == IF s.buf = <<>> THEN s ELSE [Word(s, s.buf, s.sl, s.sc) EXCEPT !.buf = <<>>, !.new = TRUE]
Mark(s) == IF s.new THEN [s EXCEPT !.new = FALSE, !.sl = s.line, !.sc = s.col] ELSE s

Digits == [d \in {"0","1","2","3","4","5","6","7","8","9",":"} |->
   CASE d = "0" -> <<"n","o">> [] d = "1" -> <<"p","a">> [] d = "2" -> <<"r","e">> [] d = "3" -> <<"c","i">>
     [] d = "4" -> <<"v","o">> [] d = "5" -> <<"m","u">> [] d = "6" -> <<"x","a">> [] d = "7" -> <<"z","e">>
     [] d = "8" -> <<"b","i">> [] d = "9" -> <<"s","o">> [] d = ":" -> <<"p","i","'","e">>]
DigitSet == TLCEval(DOMAIN Digits)

NewLine(s) == [s EXCEPT !.line = @ + 1, !.col = 0]

\* One character; "EOF" ends the text.
LexChar(s0, ch) ==
  LET s == [s0 EXCEPT !.col = @ + 1] IN
  IF s.depth > 0 THEN
    CASE ch = ")"   -> [s EXCEPT !.depth = @ - 1, !.new = TRUE]
      [] ch = "("   -> [s EXCEPT !.depth = @ + 1]
      [] ch = "\n"  -> NewLine(s)
      [] ch = "EOF" -> [Complain(s, "Unclosed comment at end of file") EXCEPT !.done = TRUE]
      [] OTHER      -> s
  ELSE IF ch \in DigitSet THEN
    LET r == Mark(Close(s)) IN [Word(r, Digits[ch], r.sl, r.sc) EXCEPT !.new = TRUE]
  ELSE IF ch \in {" ", "\t", "\n", ".", "(", ">", "EOF"} THEN
    LET r == Close(s) IN
    CASE ch = "\n"  -> NewLine(r)
      [] ch = "("   -> [r EXCEPT !.depth = 1]
      [] ch = "EOF" -> [r EXCEPT !.done = TRUE]
      [] OTHER      -> r
  ELSE LET r == Mark(s) IN [r EXCEPT !.buf = Append(@, ch)]

\* At the end of the text a zoi quotation must not be open.
LexEnd(s) == IF s.z = "no" THEN s ELSE Complain(s, "Unclosed " \o s.zform \o " construction at end of file")

RECURSIVE LexFrom(_, _, _)
LexFrom(s, text, i) == IF i > Len(text) THEN LexEnd(LexChar(s, "EOF")) ELSE LexFrom(LexChar(s, text[i]), text, i + 1)
Lex(text) == LexFrom(Lex0, text, 1)
=============================================================================
