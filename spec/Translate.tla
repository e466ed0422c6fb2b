------------------------------- MODULE Translate ------------------------------
(* English for Lojban words: the dictionary (dict.json: key -> value), places
   and roles of a word, the classes of definitions, patterns for the parts of
   lujvo, and words the dictionary does not have. *)
EXTENDS Lujvo

DictRaw == TLCEval(JsonDeserialize("dict.json"))
Dict == TLCEval([k \in DOMAIN DictRaw |-> DictRaw[k]])
DictKeys == TLCEval(DOMAIN Dict)
\* the value of a key, <<>> if there is none
Look(k) == IF k \in DictKeys THEN <<Dict[k]>> ELSE <<>>
Or(s, F(_), e) == IF s = <<>> THEN e ELSE F(s[1])
FirstOf(s, t) == IF s # <<>> THEN s ELSE t

Ch(s, k) == IF k < 1 \/ k > Len(s) THEN "" ELSE SubSeq(s, k, k)
FromCh(s, k) == IF k > Len(s) THEN "" ELSE SubSeq(s, k, Len(s))
UpToCh(s, k) == IF k < 1 THEN "" ELSE SubSeq(s, 1, k)
Chars(s) == TLCEval([k \in 1 .. Len(s) |-> SubSeq(s, k, k)])
DigitOf == "0" :> 0 @@ "1" :> 1 @@ "2" :> 2 @@ "3" :> 3 @@ "4" :> 4 @@ "5" :> 5 @@ "6" :> 6 @@ "7" :> 7 @@ "8" :> 8 @@ "9" :> 9
IsLetter(c) == c \in TLCEval({"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z",
                      "A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z"})

-----------------------------------------------------------------------------
(* Inflection.  A value may have stars: the word in front of a star followed by
   a space, a slash or nothing is the one to inflect. *)
StarIn(x) == FirstIdx(1, Len(x), LAMBDA k : Ch(x, k) = "*")
Starred(x) == LET k == StarIn(x) IN k # 0 /\ Ch(x, k + 1) \in {"", " ", "/"}
HasStar(x) == StarIn(x) # 0
EndsWith(x, s) == Len(x) >= Len(s) /\ FromCh(x, Len(x) - Len(s) + 1) = s
Plural1(x) ==
  CASE Ch(x, Len(x)) \in {"s", "z", "x"} \/ EndsWith(x, "ch") -> x \o "(es)"
    [] Ch(x, Len(x)) = "y" /\ Len(x) > 1 /\ Ch(x, Len(x) - 1) \in Cons \cup {"h", "q", "w"} -> x \o "(ies)"
    [] OTHER -> x \o "(s)"
Er1(x) == IF Ch(x, Len(x)) = "e" THEN x \o "-r(s)" ELSE x \o "-er(s)"
Ing1(x) == IF Len(x) > 1 /\ Ch(x, Len(x)) = "e" /\ Ch(x, Len(x) - 1) \notin Vowels THEN UpToCh(x, Len(x) - 1) \o "-ing" ELSE x \o "-ing"
Inflect1(how, x) == CASE how = "s" -> Plural1(x) [] how = "er" -> Er1(x) [] how = "ing" -> Ing1(x)
NoBlanks(x) == FromCh(x, FirstIdx(1, Len(x), LAMBDA k : Ch(x, k) # " "))
Preposition(x) ==
  LET n == FirstIdx(1, Len(x), LAMBDA k : Ch(x, k) # " ")
      y == IF n = 0 THEN "" ELSE FromCh(x, n)
  IN UpToCh(y, MinOf(2, Len(y))) \in {"in", "at"} \/ UpToCh(y, MinOf(4, Len(y))) = "with" \/ UpToCh(y, MinOf(7, Len(y))) = "through"
RECURSIVE Inflect(_, _)
Inflect(how, x) ==
  IF ~Starred(x) THEN Inflect1(how, x)
  ELSE LET k == StarIn(x)
           p == FromCh(x, k + 1)
       IN Inflect(how, UpToCh(x, k - 1)) \o (IF how = "er" /\ ~Preposition(p) THEN " of" ELSE "")
          \o (IF HasStar(p) THEN Inflect(how, p) ELSE p)
Unstarred(x) == Join([k \in 1 .. Len(x) |-> IF Ch(x, k) = "*" /\ Ch(x, k + 1) = " " THEN "" ELSE Ch(x, k)])

\* A value v found for a role; noun: the value given for the noun, "" if none.  <<>>: not usable.
Classed(v, role, noun) ==
  LET w == FromCh(v, 3)
      Being(x) == "being " \o (IF noun # "" THEN noun ELSE x)
      AsTag(x) == IF noun # "" THEN noun ELSE x
  IN CASE Ch(v, 1) \in {"D", "E"} ->
            <<CASE role = "n" -> Inflect("s", w) [] role = "v" -> Being(Inflect("s", w)) [] role = "q" -> Unstarred(w) \o "-ish" [] role = "t" -> AsTag(Inflect("s", w))>>
       [] Ch(v, 1) = "S" -> <<CASE role = "n" -> Unstarred(w) [] role = "v" -> Being(w) [] role = "q" -> w \o "-ish" [] role = "t" -> AsTag(w)>>
       [] Ch(v, 1) = "A" -> <<IF role \in {"n", "t"} THEN Inflect("er", w) ELSE Inflect("ing", w)>>
       [] Ch(v, 1) = "P" -> <<CASE role \in {"n", "t"} -> w \o " thing(s)" [] role = "v" -> "being " \o w [] role = "q" -> w>>
       [] Ch(v, 1) = "R" -> <<CASE role \in {"n", "t"} -> "thing(s) " \o w [] role = "v" -> "being " \o w [] role = "q" -> w>>
       [] Ch(v, 1) = "I" -> <<IF role \in {"n", "t"} THEN "thing(s) " \o Inflect("ing", w) ELSE Inflect("ing", w)>>
       [] OTHER -> <<>>
InRole(v, role, noun) == IF Ch(v, 2) = ";" THEN Classed(v, role, noun) ELSE <<v>>

-----------------------------------------------------------------------------
(* Lujvo by their components.  se, te, ve and xe in front of a component change
   its places.  Components, each with its word, its places (pl[i]: its place that
   is i in the lujvo), where it begins with and without these (s, p). *)
SePlace == "se" :> 2 @@ "te" :> 3 @@ "ve" :> 4 @@ "xe" :> 5
TakePart(m, w, k) ==
  IF w \notin DOMAIN SePlace THEN <<[w |-> w, pl |-> <<1, 2, 3, 4, 5>>, s |-> k, p |-> k]>> \o m
  ELSE IF m = <<>> THEN m
  ELSE [m EXCEPT ![1].pl = [@ EXCEPT ![1] = m[1].pl[SePlace[w]], ![SePlace[w]] = m[1].pl[1]], ![1].s = k]
Comps(c) == FoldSeqL(LAMBDA m, k : TakePart(m, c[k], k), <<>>, [k \in 1 .. Len(c) |-> Len(c) + 1 - k])
CompPlace(m, p) == IF p \in 1 .. 5 THEN m.pl[p] ELSE p
\* A word's components: written with +, or a lujvo taken apart; Fail if it is neither.
HasPlus(w) == \E k \in 1 .. Len(w) : Ch(w, k) = "+"
PlusEnd(w) == FirstIdx(1, Len(w), LAMBDA j : Ch(w, j) = "+")
RECURSIVE PlusParts(_)
PlusParts(w) == With(PlusEnd(w), LAMBDA k : IF k = 0 THEN <<w>> ELSE <<UpToCh(w, k - 1)>> \o PlusParts(FromCh(w, k + 1)))
PlusWord(c) == Join([k \in 1 .. Len(c) |-> IF k = 1 THEN c[k] ELSE "+" \o c[k]])
Parts(w) == IF HasPlus(w) THEN PlusParts(w) ELSE Components(Chars(w))

\* Answers are sequences of at most one string.
RECURSIVE Adv(_, _, _), Hyphened(_, _, _)
Hyphened(m, place, role) ==
  Join([k \in 1 .. Len(m) |-> (IF k = 1 THEN "" ELSE "-") \o
          Adv(m[k].w, CompPlace(m[k], IF k = Len(m) THEN place ELSE 1), IF k = Len(m) THEN role ELSE "q")])

\* A word the dictionary does not have.
ByComponents(w, place) ==
  With(Parts(w), LAMBDA c : IF c = Fail THEN <<"?">> ELSE With(Comps(c), LAMBDA m : IF Len(m) < 2 THEN <<>> ELSE <<Hyphened(m, place, "n")>>))
TailAt(w, h) ==
  LET J == {j \in h + 1 .. Len(w) : Ch(w, j) # ","} IN FromCh(w, CHOOSE j \in J : \A k \in J : j <= k)
Classifier(w, h) == Join([k \in 1 .. h - 1 |-> IF Ch(w, k) = "," THEN "" ELSE Ch(w, k)])
PrefixMeaning(c, role) == IF c = Fail THEN "?" ELSE Hyphened(Comps(c), 1, role)
WithClassifier(w, h, role) == <<With(Parts(Classifier(w, h)), LAMBDA c : PrefixMeaning(c, role)) \o "-[" \o TailAt(w, h) \o "]">>
Unknown1(w, m, place, role) ==
  CASE m.up \/ m.cat \in {"NONE", "CMAVOS", "CMAVOSCY"} -> <<>>
    [] m.cat = "LUJVO" -> ByComponents(w, place)
    [] m.cat \in {"STAGE3", "STAGE3CVC", "STAGE3X", "STAGE3XCVC"} -> WithClassifier(w, m.hyph, role)
    [] m.cat = "CMENE" -> <<"[NAME]">>
    [] OTHER -> <<"?">>
Unknown(w, place, role) == IF HasPlus(w) THEN ByComponents(w, place) ELSE With(Scan(Chars(w)), LAMBDA m : Unknown1(w, m, place, role))

\* Patterns: *, precedence, the components at one end, place[, role].  In the value
\* %1n stands for the rest in that place and role.  - : no such pattern here.
RoleOf(c) == IF c \in {"n", "v", "q", "t"} THEN c ELSE "n"
RECURSIVE Filled(_, _)
Filled(v, base) ==
  With(FirstIdx(1, Len(v), LAMBDA k : Ch(v, k) = "%"), LAMBDA k :
    IF k = 0 THEN v ELSE UpToCh(v, k - 1) \o Adv(base, DigitOf[Ch(v, k + 1)], RoleOf(Ch(v, k + 2))) \o Filled(FromCh(v, k + 3), base))
AtPattern(key, place, spec, role) ==
  LET full == Look(key \o ToString(place) \o role)
      v == FirstOf(full, Look(key \o ToString(place)))
  IN IF v = <<>> THEN <<>>
     ELSE IF Ch(v[1], 1) = "@" THEN <<Adv(spec, DigitOf[Ch(v[1], 2)], role)>>
     ELSE With(Filled(v[1], spec), LAMBDA f :
            IF full # <<>> THEN <<f>> ELSE InRole(f, role, Or(Look(key \o ToString(place) \o "n"), LAMBDA x : x, "")))
Gathered(prec, suffix, g, c, m, place, role) ==
  IF suffix
  THEN LET e == m[Len(m) - g + 1] IN
       AtPattern("*" \o ToString(prec) \o (IF e.p = 1 THEN "" ELSE "+") \o PlusWord(From(c, e.p)), CompPlace(e, place),
                 PlusWord(SubSeq(c, 1, e.s - 1)), role)
  ELSE AtPattern("*" \o ToString(prec) \o PlusWord(SubSeq(c, 1, m[g + 1].s - 1)) \o "+", CompPlace(m[g], place), PlusWord(From(c, m[g + 1].s)), role)
\* one component at this end, then two if there is a pattern that does not count for one
RECURSIVE AtEnd(_, _, _, _, _, _, _)
AtEnd(prec, suffix, g, c, m, place, role) ==
  IF g > (IF suffix THEN 2 ELSE MinOf(2, Len(m) - 1)) THEN <<>>
  ELSE With(Gathered(prec, suffix, g, c, m, place, role), LAMBDA r :
         IF r = <<>> THEN <<>> ELSE IF r[1] # "-" THEN r ELSE AtEnd(prec, suffix, g + 1, c, m, place, role))
AnyPattern == \E k \in DictKeys : Ch(k, 1) = "*"
HasPatterns == TLCEval(AnyPattern)
Patterns(c, m, place, role) ==
  FoldSeqL(LAMBDA r, q : IF r # <<>> THEN r ELSE AtEnd(q[1], q[2], 1, c, m, place, role), <<>>,
           IF HasPatterns THEN [k \in 1 .. 12 |-> <<5 - ((k - 1) \div 2), k % 2 = 1>>] ELSE <<>>)
Matched1(c, m, place, role) ==
  CASE m = <<>> -> <<>>
    [] Len(m) = 1 -> <<Adv(m[1].w, CompPlace(m[1], place), role)>>
    [] OTHER -> Patterns(c, m, place, role)
Matched(w, place, role) == With(Parts(w), LAMBDA c : IF c = Fail \/ Len(c) < 2 THEN <<>> ELSE With(Comps(c), LAMBDA m : Matched1(c, m, place, role)))

\* The place-th place of w in a role: n noun, v verb, q in front of another word, t tag.
RedirectEnd(v) == LET k == FirstIdx(2, Len(v), LAMBDA j : ~IsLetter(Ch(v, j))) IN IF k = 0 THEN Len(v) + 1 ELSE k
Redirect(v, role) == With(RedirectEnd(v), LAMBDA e : IF Ch(v, e) \in DOMAIN DigitOf THEN Adv(SubSeq(v, 2, e - 1), DigitOf[Ch(v, e)], role) ELSE "??")
Hit(w, place, role, v) ==
  IF Ch(v, 1) = "@" THEN Redirect(v, role)
  ELSE With(InRole(v, role, Or(Look(w \o ToString(place) \o "n"), LAMBDA x : x, "")), LAMBDA r : IF r = <<>> THEN "??" ELSE r[1])
NotFound(w, place, role) ==
  With(Look(w), LAMBDA b : IF b # <<>> THEN b[1] \o "??"
    ELSE With(Matched(w, place, role), LAMBDA r : IF r # <<>> THEN r[1]
      ELSE With(Unknown(w, place, role), LAMBDA u : IF u # <<>> THEN u[1] \o "??" ELSE "??")))
AdvIn(w, place, role) ==
  With(FirstOf(Look(w \o ToString(place) \o role), Look(w \o ToString(place))),
       LAMBDA v : IF v = <<>> THEN NotFound(w, place, role) ELSE Hit(w, place, role, v[1]))
Adv(w, place, role) == IF place = 0 THEN AdvIn(w, 1, "v") ELSE AdvIn(w, place, role)
=============================================================================
