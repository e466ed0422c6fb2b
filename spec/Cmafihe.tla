-------------------------------- MODULE Cmafihe -------------------------------
(* The word glosser cmafihe: a text is cut up into words by their shape alone
   (longest match, the earlier shape on a tie), each word gets its English and
   its selma'o from the dictionary, and the result is written out in one of
   three formats.  Texts are sequences of one-character strings; a dictionary
   is a function from keys to values. *)
EXTENDS Util

C == {"b", "c", "d", "f", "g", "j", "k", "l", "m", "n", "p", "r", "s", "t", "v", "x", "z"}
V == {"a", "e", "i", "o", "u"}
L == C \cup V \cup {"y", "'"}
Upper == {"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z"}
Alpha == C \cup V \cup {"y", "h", "q", "w"} \cup Upper
Open == {"(", "["}
Close == {")", "]"}
NL == "\n"
At(s, p) == IF p \in 1 .. Len(s) THEN s[p] ELSE ""
Str(s, a, b) == Join(SubSeq(s, a, b))                     \* a .. b as a string
Max0(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : y <= x

-----------------------------------------------------------------------------
(* Shapes: each operator gives the set of places just behind a match at p. *)
Grow(S, F(_)) ==
  LET RECURSIVE G(_, _)
      G(done, new) == IF new = {} THEN done
                      ELSE LET nx == UNION {F(e) : e \in new} IN G(done \cup new, nx \ (done \cup new))
  IN G({}, S)
VVY(s, p) == (IF At(s, p) \in V \cup {"y"} THEN {p + 1} ELSE {})
        \cup (IF At(s, p) \in V /\ At(s, p + 1) \in V THEN {p + 2} ELSE {})
VCC(s, p) == Grow(VVY(s, p), LAMBDA e : IF At(s, e) = "'" THEN VVY(s, e + 1) ELSE {})
CCC(s, p) == IF At(s, p) \in C THEN VCC(s, p + 1) ELSE {}
Pause(s, p) == IF At(s, p) = "." THEN VCC(s, p + 1) ELSE {}
CmavoEnds(s, p) == Grow(CCC(s, p) \cup VCC(s, p) \cup Pause(s, p), LAMBDA e : CCC(s, e) \cup Pause(s, e))

RECURSIVE RunEnd(_, _, _)
RunEnd(s, p, S) == IF At(s, p) \in S THEN RunEnd(s, p + 1, S) ELSE p
\* at least one letter and then a vowel, from p on
LettersVowel(s, p) == {q + 1 : q \in {q \in p + 1 .. RunEnd(s, p, L) - 1 : s[q] \in V}}
Brivla(s, p) == IF At(s, p) \in C THEN LettersVowel(s, p + 1) ELSE {}
\* a consonant and two vowels, the glide optional: where the rest begins
CVV(s, p) ==
  IF At(s, p) \in C /\ At(s, p + 1) \in V
  THEN (IF At(s, p + 2) \in V THEN {p + 3} ELSE {}) \cup (IF At(s, p + 2) = "'" /\ At(s, p + 3) \in V THEN {p + 4} ELSE {})
  ELSE {}
\* words in which r, n or y keeps a cmavo from coming off
Hyphenated(s, p) ==
  UNION ({IF At(s, e) = "r" /\ At(s, e + 1) \in C \ {"r"} THEN LettersVowel(s, e + 2) ELSE {} : e \in CVV(s, p)}
    \cup {IF At(s, e) = "n" /\ At(s, e + 1) = "r" THEN LettersVowel(s, e + 2) ELSE {} : e \in CVV(s, p)}
    \cup {IF At(s, p) \in C /\ At(s, p + 1) \in V /\ At(s, p + 2) \in C /\ At(s, p + 3) = "y" /\ At(s, p + 4) \in C
          THEN LettersVowel(s, p + 5) ELSE {}})
\* letters, each with a comma behind it or not
RECURSIVE CommaRun(_, _)
CommaRun(s, p) == IF At(s, p) \in L THEN CommaRun(s, IF At(s, p + 1) = "," THEN p + 2 ELSE p + 1) ELSE p
Cmene(s, p) ==
  LET b == IF At(s, p) = "." THEN p + 1 ELSE p IN
  {IF At(s, q + 1) = "." THEN q + 2 ELSE q + 1 : q \in {q \in b .. CommaRun(s, b) - 1 : s[q] \in C}}
RECURSIVE Lines(_, _)      \* behind the line ends that follow one another here
Lines(s, p) == IF At(s, p) = NL THEN Lines(s, p + 1)
               ELSE IF At(s, p) = "\r" /\ At(s, p + 1) = NL THEN Lines(s, p + 2) ELSE p
LineEnds(s, p) == Cardinality({q \in p .. Lines(s, p) - 1 : s[q] = NL})

\* What begins at p outside brackets: [k |-> kind, e |-> behind it].
One(e, p) == IF e > p THEN {e} ELSE {}
Token(s, p) ==
  LET cand == <<
        [k |-> "brivla",  e |-> Max0(Hyphenated(s, p))],
        [k |-> "cmavo",   e |-> Max0(CmavoEnds(s, p))],
        [k |-> "brivla",  e |-> Max0(Brivla(s, p))],
        [k |-> "cmene",   e |-> Max0(Cmene(s, p))],
        [k |-> "unknown", e |-> Max0(One(RunEnd(s, p, L), p))],
        [k |-> "space",   e |-> Max0(One(RunEnd(s, p, {" ", "\t"}), p))],
        [k |-> IF LineEnds(s, p) > 1 THEN "newline" ELSE "space", e |-> Max0(One(Lines(s, p), p))],
        [k |-> "paren",   e |-> IF At(s, p) \in Open THEN p + 1 ELSE 0],
        [k |-> "unknown", e |-> Max0(One(RunEnd(s, p, Alpha), p))],
        [k |-> "unknown", e |-> p + 1]>>
      best == Max0({cand[n].e : n \in DOMAIN cand})
  IN cand[FirstIdx(1, Len(cand), LAMBDA n : cand[n].e = best)]
RECURSIVE Plain(_, _)
Plain(s, p) == IF p > Len(s) \/ s[p] \in Open \cup Close THEN p ELSE Plain(s, p + 1)
\* Inside brackets, which nest but need not match in kind.
InParen(s, p) == [k |-> "paren", e |-> IF s[p] \in Open \cup Close THEN p + 1 ELSE Plain(s, p)]

-----------------------------------------------------------------------------
(* English. *)
Has(D, k) == k \in DOMAIN D
Vowelish == V \cup {"y", "'"}
RECURSIVE Frag(_, _, _, _)
Frag(D, pre, s, p0) ==        \* the words that make up a run of cmavo, longest first
  IF p0 > Len(s) THEN <<>>
  ELSE LET p == IF s[p0] = "." THEN p0 + 1 ELSE p0
           ends == {e \in p + 1 .. Len(s) + 1 : e > Len(s) \/ s[e] \notin Vowelish}
           known == {e \in ends : Has(D, pre \o Str(s, p, e - 1))}
           best == Max0(known)
       IN IF known # {} THEN <<D[pre \o Str(s, p, best - 1)]>> \o Frag(D, pre, s, best)
          ELSE <<"?">> \o Frag(D, pre, s, CHOOSE e \in ends : \A f \in ends : e <= f)
\* words without English (terminators) leave no room at the start
Spaced(ws) == FoldSeqL(LAMBDA a, x : IF a = "" THEN x ELSE a \o " " \o x, "", ws)
CmavoGloss(D, s) ==
  LET w == IF s[1] = "." THEN From(s, 2) ELSE s
      k == Join(w)
  IN IF Has(D, k) THEN [t |-> D[k], s |-> IF Has(D, "+" \o k) THEN D["+" \o k] ELSE ""]
     ELSE [t |-> Spaced(Frag(D, "", s, 1)), s |-> Spaced(Frag(D, "+", s, 1))]

ConvOf(r) == CASE r = "sel" -> 2 [] r = "ter" -> 3 [] r = "vel" -> 4 [] r = "xel" -> 5 [] OTHER -> 0
Ordinal(n) == CASE n = 2 -> "2nd conv-" [] n = 3 -> "3rd conv-" [] n = 4 -> "4th conv-" [] n = 5 -> "5th conv-"
Classless(D, Cls, k) == IF k \in DOMAIN Cls THEN Cls[k] ELSE D[k]
Comp(D, Cls, k, conv) ==
  IF conv # 0
  THEN LET kk == k \o ToString(conv) IN
       IF Has(D, kk) THEN Classless(D, Cls, kk)
       ELSE Ordinal(conv) \o (IF Has(D, k) THEN D[k] ELSE "??")
  ELSE IF Has(D, k) THEN D[k] ELSE "?"
RECURSIVE LujvoFrom(_, _, _, _, _)
LujvoFrom(D, Cls, s, initial, conv) ==      \* the English of the components, in order
  IF s = <<>> THEN <<>>
  ELSE IF Len(s) = 5 THEN <<Comp(D, Cls, Join(s), conv)>>
  ELSE IF Len(s) < 5 THEN <<Comp(D, Cls, "%" \o Join(s), conv)>>
  ELSE LET y == FirstIdx(1, Len(s), LAMBDA k : s[k] = "y")
           long == y = 5 \/ (y # 4 /\ s[3] = "'")
           n == IF long THEN 4 ELSE 3
           r == Str(s, 1, n)
           c == IF long THEN 0 ELSE ConvOf(r)
           \* r or n that glues on the first component, only behind two vowels
           glue == /\ y \notin {4, 5} /\ initial /\ s[2] \in V /\ s[n] \in V
                   /\ (At(s, n + 1) = "r" \/ (At(s, n + 1) = "n" /\ At(s, n + 2) = "r"))
           rest == From(s, n + 1 + (IF y \in {4, 5} \/ glue THEN 1 ELSE 0))
       IN IF c # 0 THEN LujvoFrom(D, Cls, rest, FALSE, c)
          ELSE <<Comp(D, Cls, "%" \o r, conv)>> \o LujvoFrom(D, Cls, rest, FALSE, 0)
LujvoGloss(D, Cls, s) == JoinSep(LujvoFrom(D, Cls, s, TRUE, 0), "-")
\* The hyphen of a borrowed word: r, or n or l beside an r.
FuhivlaHyphen(s) ==
  FirstIdx(2, Len(s) - 2, LAMBDA i :
     \/ s[i] = "r" /\ s[i-1] \in C \ {"r"} /\ s[i+1] \in C \ {"r"}
     \/ s[i] = "n" /\ s[i-1] \in C /\ s[i+1] \in C
     \/ s[i] = "l" /\ {<<s[i-1], s[i+1]>>} \cap {<<"n", "r">>, <<"r", "n">>} # {})
BrivlaGloss(D, Cls, s) ==
  LET k == Join(s) h == FuhivlaHyphen(s) IN
  IF Has(D, k) THEN D[k]
  ELSE IF h # 0 THEN LujvoGloss(D, Cls, SubSeq(s, 1, h - 1)) \o "-[" \o Str(s, h + 1, Len(s)) \o "]"
  ELSE LujvoGloss(D, Cls, s)

\* One entry of the gloss: kind, word, selma'o, English.
Entry(D, Cls, k, s) ==
  CASE k = "cmavo" -> [k |-> "word", w |-> Join(s)] @@ CmavoGloss(D, s)
    [] k = "brivla" -> [k |-> "word", w |-> Join(s), s |-> "BRIVLA", t |-> BrivlaGloss(D, Cls, s)]
    [] k = "cmene" -> [k |-> "word", w |-> Join(s), s |-> "CMENE", t |-> ""]
    [] OTHER -> [k |-> k, w |-> Join(s), s |-> "", t |-> ""]

-----------------------------------------------------------------------------
(* The formats. *)
TextOf(es) == Join([n \in DOMAIN es |->
  CASE es[n].k = "word" -> es[n].w \o " <" \o es[n].s \o "> [" \o es[n].t \o "] "
    [] es[n].k = "paren" -> "(" \o es[n].w \o ") "
    [] OTHER -> "\n"]) \o "\n"

BS == "\\"
LatexHead == Join([n \in 1 .. 9 |-> (<<
  BS \o "documentclass[10pt]{article}", BS \o "usepackage{geometry}",
  BS \o "geometry{left=0.5in,right=0.5in,top=0.5in,bottom=0.5in,a4paper}",
  BS \o "def" \o BS \o "rmdefault{bch}", BS \o "setlength{" \o BS \o "parindent}{0pt}",
  BS \o "setlength{" \o BS \o "parskip}{1ex plus0.5ex minus0.5ex}",
  BS \o "setlength{" \o BS \o "baselineskip}{10pt}", BS \o "def" \o BS \o "arraystretch{0.7}",
  BS \o "begin{document}">>)[n] \o "\n"])
Foot(f, x) == BS \o f \o "{" \o BS \o "footnotesize " \o x \o "}"
LatexOf(es) == LatexHead \o Join([n \in DOMAIN es |->
  CASE es[n].k = "word" -> BS \o "begin{tabular}[t]{l}" \o Foot("textbf", es[n].w) \o BS \o BS \o "\n"
         \o Foot("textrm", es[n].s) \o BS \o BS \o "\n" \o Foot("textit", es[n].t) \o "\n"
         \o BS \o "end{tabular}\n" \o BS \o "rule{0in}{1.0" \o BS \o "baselineskip}"
    [] es[n].k = "paren" -> Foot("textrm", es[n].w)
    [] OTHER -> "\n\n"]) \o BS \o "end{document}\n\n\n"

RECURSIVE Pad(_, _)
Pad(x, n) == IF n = 0 THEN x ELSE Pad(x \o " ", n - 1)
NoLines == [u |-> 0, l |-> <<"", "", "">>]
Flush(st) == IF st.u = 0 THEN st
             ELSE [o |-> st.o \o st.l[1] \o "\n" \o st.l[2] \o "\n" \o st.l[3] \o "\n\n"] @@ NoLines
Block(st0, width, a) ==
  LET ml == Max0({Len(a[n]) : n \in 1 .. 3})
      st == IF ml + st0.u + 1 > width THEN Flush(st0) ELSE st0
  IN [o |-> st.o, u |-> st.u + ml + 1, l |-> [n \in 1 .. 3 |-> st.l[n] \o Pad(a[n], ml + 1 - Len(a[n]))]]
BlocksOf(es, width) ==
  Flush(FoldSeqL(LAMBDA st, e :
    CASE e.k = "word" -> Block(st, width, <<e.w, e.s, e.t>>)
      [] e.k = "paren" -> Block(Block(Block(st, width, <<"(", "(", "(">>), width, <<e.w, "", "">>), width, <<")", ")", ")">>)
      [] OTHER -> LET f == Flush(st) IN [f EXCEPT !.o = f.o \o "\n"],
    [o |-> ""] @@ NoLines, es)).o \o "\n"
=============================================================================
