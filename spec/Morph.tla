------------------------------- MODULE Morph --------------------------------
(* Lojban word morphology, as jbofihe and vlatai decide it: the class of a
   string of letters, where it breaks up into words, where the hyphen of a
   stage-3 fu'ivla is, and which names break up at an embedded la/lai/doi.

   Letters are classified by their neighbourhood (permissible initial pairs,
   permissible pairs, banned triples, vowel pairs ...), and the resulting class
   string is run through the word grammar: a nondeterministic automaton
   (morf_nfa.json, the flattened word-shape definition), followed here in its
   determinized form (morf_dfa.json; MorphDet.tla checks the two against each
   other).  A word is a sequence of one-letter strings. *)
EXTENDS Util, Json

Dfa == TLCEval(JsonDeserialize("morf_dfa.json"))
ClassIdx == TLCEval([t \in Rng(Dfa.tokens) |-> CHOOSE k \in 1 .. Len(Dfa.tokens) : Dfa.tokens[k] = t])
Move(s, t) == Dfa.states[s].on[ClassIdx[t]]
Start == 1
Tags(s) == IF s = 0 THEN {} ELSE Rng(Dfa.states[s].tags)
Attrs(s) == Rng(Dfa.states[s].attr)

-----------------------------------------------------------------------------
(* Letters *)
Upper == <<"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z">>
Lower == <<"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z">>
UpperSet == Rng(Upper)
ToLow == TLCEval([c \in UpperSet |-> Lower[CHOOSE i \in 1 .. 26 : Upper[i] = c]])
Low(c) == IF c \in UpperSet THEN ToLow[c] ELSE c

Vowels == {"a", "e", "i", "o", "u"}
Cons == {"b","c","d","f","g","j","k","l","m","n","p","r","s","t","v","x","z"}
Syllabic == {"l", "m", "n", "r"}
Voiced == {"b", "d", "g", "v", "j", "z"}
Unvoiced == {"p", "t", "k", "f", "c", "s", "x"}
Sibilant == {"c", "j", "s", "z"}
InitialPair == {"pl","pr","fl","fr","bl","br","vl","vr","cp","cf","ct","ck","cm","cn","cl","cr","jb","jv","jd","jg",
   "jm","sp","sf","st","sk","sm","sn","sl","sr","zb","zv","zd","zg","zm","tc","tr","ts","kl","kr","dj","dr","dz",
   "gl","gr","ml","mr","xl","xr"}

\* The class of consonant g after the (possibly y-separated) consonant s, l being the one before s.
PairClass(l, s, g) ==
  LET syl == g \in Syllabic
      p == s \o g
      obst == l \in Cons \ {"n", "r"}          \* a consonant other than n, r
  IN CASE (l = "r" /\ p = "ln") \/ (l = "n" /\ p = "lr")                      -> "HS"
       [] s = "r" /\ g # "r" /\ (obst \/ l = "n")                             -> IF syl THEN "HS" ELSE "H"
       [] s = "n" /\ g # "n" /\ l = "r"                                       -> IF syl THEN "HS" ELSE "H"
       [] s = "n" /\ g = "r" /\ obst                                          -> "HS"
       [] s = "n" /\ g = "r" /\ l = ""                                        -> "NR"
       [] s = g                                                               -> "CN"
       [] (s \in Voiced /\ g \in Unvoiced) \/ (s \in Unvoiced /\ g \in Voiced)  -> "CN"
       [] s \in Sibilant /\ g \in Sibilant                                    -> "CN"
       [] l = "n" /\ p \in {"dj", "dz", "tc", "ts"}                           -> "BT"
       [] p \in {"cx", "kx", "xc", "xk", "mz"}                                -> "CN"
       [] p \in InitialPair                                                   -> IF syl THEN "CSI" ELSE "CI"
       [] OTHER                                                               -> IF syl THEN "CS" ELSE "CP"

\* The class of the vowel or y v after b, a being the letter before b ("C" = anything but a vowel or y).
VowelClass(a, b, v) ==
  CASE (b \o v) \in {"ai", "au", "ei", "oi"}                    -> "VV"
    [] b \in {"i", "u"} /\ v \in Vowels                         -> "VX"
    [] b \in Vowels /\ v \in Vowels                             -> "VO"
    [] b \in {"i", "u"} /\ v = "y"                              -> "VY"
    [] b = "C" /\ v = "y"                                       -> "Y"
    [] b = "y" /\ v = "y" /\ a \in {"C", "y"}                   -> "YY"
    [] b = "C"                                                  -> "V"
    [] OTHER                                                    -> "UNK"

VKind(c) == IF c \in Vowels \cup {"y"} THEN c ELSE "C"

-----------------------------------------------------------------------------
(* Scanning a word letter by letter.  l, s: the last but one and the last
   consonant of the current cluster ("" = none; y does not end a cluster);
   starts: where a new word may begin (after a vowel, up to the first cluster);
   ystarts: consonants right after a y. *)
Scan0 == [l |-> "", s |-> "", va |-> "C", vb |-> "C", cur |-> Start, starts |-> <<>>, ystarts |-> <<>>,
          inhibited |-> FALSE, initial |-> TRUE, frozen |-> FALSE, h3 |-> 0, h4 |-> 0, p1 |-> 0, p2 |-> 0, up |-> FALSE]

ScanStep(r, ch, i) ==
  IF ch = "," \/ r.cur = 0 THEN r
  ELSE
  LET c == Low(ch)
      isC == c \in Cons
      fresh == isC /\ r.s = ""
      cls == IF isC THEN (IF fresh THEN (IF c = "r" THEN "R" ELSE IF c = "n" THEN "N" ELSE "C") ELSE PairClass(r.l, r.s, c))
             ELSE IF c \in Vowels \cup {"y"} THEN VowelClass(r.va, r.vb, c)
             ELSE IF c = "'" THEN "APOS" ELSE "UNK"
      inh == r.inhibited \/ (isC /\ ~fresh)
      attrs == Attrs(r.cur)
      nl == IF isC THEN r.s ELSE IF c = "y" THEN r.l ELSE ""
      ns == IF isC THEN c ELSE IF c = "y" THEN r.s ELSE ""
  IN [r EXCEPT !.inhibited = inh,
               !.starts = IF (fresh /\ ~inh) \/ r.initial THEN Append(@, i) ELSE @,
               !.ystarts = IF r.frozen /\ isC THEN Append(@, i) ELSE @,
               !.frozen = (c = "y"),
               !.h3 = IF attrs \cap {"AT_S3_3", "AT_XS3_3"} # {} THEN r.p2 ELSE @,
               !.h4 = IF attrs \cap {"AT_S3_4", "AT_XS3_4"} # {} THEN r.p2 ELSE @,
               !.p1 = i, !.p2 = r.p1, !.initial = FALSE,
               !.va = r.vb, !.vb = VKind(c), !.l = nl, !.s = ns,
               !.cur = Move(r.cur, cls),
               !.up = @ \/ ch \in UpperSet]

RECURSIVE ScanFrom(_, _, _)
ScanFrom(r, w, i) == IF i > Len(w) THEN r ELSE ScanFrom(ScanStep(r, w[i], i), w, i + 1)

(* The verdict: which word shapes the whole string has, and what that makes it. *)
Category(tags) ==
  LET T(x) == x \in tags
      Lujvo0 == T("TAG_LUJVO_0")
      Lujvo1 == T("TAG_LUJVO_1") /\ ~Lujvo0
      Lujvo1T == T("TAG_LUJVO_1T") /\ T("TAG_LUJVO_TAIL_OK")
      Gismu == T("TAG_GISMU_0") \/ T("TAG_GISMU_1")
      Vlg == Gismu \/ Lujvo0 \/ Lujvo1 \/ Lujvo1T
      C0 == T("TAG_CULTURAL_LUJVO_0") /\ ~T("TAG_LUJVO_0")
      C1 == T("TAG_CULTURAL_LUJVO_1") /\ ~T("TAG_LUJVO_1")
      C1T == T("TAG_CULTURAL_LUJVO_1T") /\ ~T("TAG_LUJVO_1T")
      CTail == T("TAG_CULTURAL_LUJVO_TAIL_OK")
      F0 == ~Vlg /\ T("TAG_FUIVLA_0") /\ ~T("TAG_SLINKUI_0")
      F1 == ~Vlg /\ T("TAG_FUIVLA_1") /\ (T("TAG_FUIVLA_0") => T("TAG_SLINKUI_0"))
      Slink == ~Vlg /\ T("TAG_FUIVLA_0") /\ T("TAG_SLINKUI_0") /\ ~T("TAG_FUIVLA_1")
      S3L == T("TAG_STAGE3_LONG")
      S3C == T("TAG_STAGE3_CVC")
      X3L == T("TAG_X_STAGE3_LONG")
      X3C == T("TAG_X_STAGE3_CVC")
      S4 == ~(S3L \/ S3C \/ X3L \/ X3C) /\ ~T("TAG_LUJVO_NO_Y_BAD_VOWELS")
  IN { x \in {
        <<"GISMU", 0, T("TAG_GISMU_0")>>,      <<"GISMU", 1, T("TAG_GISMU_1")>>,
        <<"LUJVO", 0, Lujvo0>>,                <<"LUJVO", 1, Lujvo1 \/ Lujvo1T>>,
        <<"TOSMABRU", 1, T("TAG_LUJVO_1T") /\ ~T("TAG_LUJVO_TAIL_OK")>>,
        <<"CULTURAL", 0, C0>>,                 <<"CULTURAL", 1, (C1 /\ ~C0) \/ (C1T /\ CTail)>>,
        <<"CULTOSMABRU", 1, C1T /\ ~CTail>>,
        <<"SLINKUI", 0, Slink>>,
        <<"STAGE3", 0, F0 /\ S3L>>,            <<"STAGE3", 1, F1 /\ S3L>>,
        <<"STAGE3CVC", 1, F1 /\ S3C /\ ~S3L>>,
        <<"STAGE3X", 0, F0 /\ X3L>>,           <<"STAGE3X", 1, F1 /\ X3L>>,
        <<"STAGE3XCVC", 0, F0 /\ X3C /\ ~X3L>>,<<"STAGE3XCVC", 1, F1 /\ X3C /\ ~X3L>>,
        <<"STAGE4", 0, F0 /\ S4>>,             <<"STAGE4", 1, F1 /\ S4>>,
        <<"CMENE", 0, T("TAG_CMENE")>>,
        <<"CMAVOS", 0, T("TAG_CMAVOS")>>,      <<"CMAVOSCY", 0, T("TAG_CMAVOS_END_CY")>> } : x[3] }

Scan(w) ==
  LET r == ScanFrom(Scan0, w, 1)
      cats == Category(Tags(r.cur))
      cat == IF cats = {} THEN <<"NONE", 0>> ELSE CHOOSE c \in cats : TRUE
      st == CASE cat[1] = "CMAVOSCY" -> r.starts \o r.ystarts
              [] cat[1] = "CMENE" -> SubSeq(r.starts, 1, 1)
              [] cat[2] = 1 -> Front(r.starts)
              [] OTHER -> r.starts
  IN [cat |-> cat[1], starts |-> st, up |-> r.up, ncat |-> Cardinality(cats),
      hyph |-> IF cat[1] \in {"STAGE3", "STAGE3X"} THEN r.h4
               ELSE IF cat[1] \in {"STAGE3CVC", "STAGE3XCVC"} THEN r.h3 ELSE 0]

-----------------------------------------------------------------------------
(* A name may not contain la, lai or doi where they would be heard as such: at
   the start or right after a vowel, and followed by a consonant or apostrophe
   (commas do not count).  The leftmost such place decides. *)
NoCommas(w) == SelectSeq([i \in 1 .. Len(w) |-> [c |-> Low(w[i]), i |-> i]], LAMBDA x : x.c # ",")
LaDoi(w) ==
  LET v == NoCommas(w)
      n == Len(v)
      At(k) == IF k <= n THEN v[k].c ELSE ""
      Ends(k) == k <= n /\ (v[k].c \in Cons \cup {"'"})
      \* (start, tail) of an occurrence beginning at k
      Occ(k) == IF At(k) = "l" /\ At(k+1) = "a" /\ Ends(k+2) THEN k + 2
                ELSE IF At(k) = "l" /\ At(k+1) = "a" /\ At(k+2) = "i" /\ Ends(k+3) THEN k + 3
                ELSE IF At(k) = "d" /\ At(k+1) = "o" /\ At(k+2) = "i" /\ Ends(k+3) THEN k + 3 ELSE 0
      \* a y (or run of y) straight after a consonant (or at the start) is a mere buffer: a la after it is bad but cannot be split off
      Buffer(k) == \E j \in 1 .. k : (\A m \in j .. k : v[m].c = "y") /\ (j = 1 \/ v[j-1].c \in Cons)
      Here(k) == Occ(k) # 0 /\ (k = 1 \/ v[k-1].c \in Vowels \cup {"y"})
      k == FirstIdx(1, n, Here)
  IN IF k = 0 THEN [bad |-> FALSE, split |-> FALSE, ladoi |-> 0, tail |-> 0]
     ELSE [bad |-> TRUE, split |-> k = 1 \/ ~Buffer(k-1), ladoi |-> v[k].i, tail |-> v[Occ(k)].i]

-----------------------------------------------------------------------------
(* What vlatai prints for a word. *)
TypeText(m, ld) ==
  CASE m.cat \in {"CMAVOS", "CMAVOSCY"} -> "cmavo(s)"
    [] m.cat = "GISMU" -> "gismu"
    [] m.cat = "LUJVO" -> "lujvo"
    [] m.cat = "CULTURAL" -> "lujvo (with cultural rafsi)"
    [] m.cat = "STAGE3" -> "fu'ivla (stage-3)"
    [] m.cat = "STAGE3CVC" -> "fu'ivla (stage-3 short rafsi)"
    [] m.cat = "STAGE3X" -> "fu'ivla (multi-stage-3)"
    [] m.cat = "STAGE3XCVC" -> "fu'ivla (multi-stage-3, final short rafsi)"
    [] m.cat = "STAGE4" -> "fu'ivla (stage-4)"
    [] m.cat = "CMENE" -> IF ld.bad THEN (IF ld.split THEN "bad cmene (breaks up)" ELSE "bad cmene (doesn't break up)") ELSE "cmene"
    [] m.cat = "TOSMABRU" -> "Bad lujvo (y hyphen not required)"
    [] m.cat = "CULTOSMABRU" -> "Bad lujvo (y hyphen not required, with cultural rafsi)"
    [] m.cat = "SLINKUI" -> "Bad fu'ivla (fails slinku'i test)"

SplitText(w, m, ld) ==
  LET Piece(i) == (IF i \in Rng(m.starts) THEN " " ELSE "")
                  \o (IF m.hyph = i /\ i # 0 THEN "/" ELSE "")
                  \o (IF m.cat = "CMENE" /\ ld.split /\ ((i = ld.ladoi /\ i # 1) \/ i = ld.tail) THEN "+" ELSE "")
                  \o w[i]
                  \o (IF m.hyph = i /\ i # 0 THEN "/" ELSE "")
  IN Join([i \in 1 .. Len(w) |-> Piece(i)])

\* <<type, division>> or <<"UNMATCHED", word>>
Vlatai(w) ==
  LET m == Scan(w)
      ld == IF m.cat = "CMENE" THEN LaDoi(w) ELSE [bad |-> FALSE, split |-> FALSE, ladoi |-> 0, tail |-> 0]
  IN IF m.cat = "NONE" THEN <<"UNMATCHED", Join(w)>>
     ELSE << TypeText(m, ld) \o (IF m.up /\ m.cat # "CMENE" THEN " (contains invalid uppercase)" ELSE ""), SplitText(w, m, ld) >>
=============================================================================
