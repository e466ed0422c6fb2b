-------------------------------- MODULE Lujvo ---------------------------------
(* Lujvo: taking them apart into their components, and making them from their
   components with the right hyphens, in order of merit.  rafsi.json: words
   (their short rafsi) and of (the word each short or four-letter rafsi stands
   for), from the word list. *)
EXTENDS Morph

Raf == TLCEval(JsonDeserialize("rafsi.json"))
RafsiOf == TLCEval(Raf.words)           \* word -> sequence of rafsi, each a sequence of letters
WordOf == TLCEval(Raf.of)               \* rafsi -> word
RafsiWords == TLCEval(DOMAIN RafsiOf)
AllRafsi == TLCEval(DOMAIN WordOf)
Known(r) == r \in AllRafsi
Meant(r) == IF Known(r) THEN WordOf[r] ELSE "?"

IsC(c) == c \in Cons
IsV(c) == c \in Vowels

-----------------------------------------------------------------------------
(* Taking apart, from the left.  A rafsi followed by y ends there; otherwise the
   first letters tell how long it is, and an r or n after a vowel pair is a
   hyphen if a consonant follows that r or n cannot join. *)
Fail == <<"FAIL">>
RnHyphen(w, k) == (w[k] = "r" /\ IsC(w[k+1])) \/ (w[k] = "n" /\ w[k+1] = "r")
\* <<length of the first rafsi, length of its hyphen>>, <<>> if there is none
Peel(w) ==
  CASE w[4] = "y" -> <<3, 1>>
    [] w[4] # "y" /\ w[5] = "y" -> <<4, 1>>
    [] w[4] # "y" /\ w[5] # "y" /\ w[6] = "y" -> <<5, 1>>
    [] w[4] = "'" /\ Len(w) > 6 /\ w[5] # "y" /\ w[6] # "y" /\ w[7] = "y" -> <<6, 1>>
    [] OTHER ->
       IF ~IsC(w[1]) THEN <<>>
       ELSE IF IsC(w[2]) THEN (IF IsV(w[3]) THEN <<3, 0>> ELSE <<>>)
       ELSE IF ~IsV(w[2]) THEN <<>>
       ELSE IF w[3] = "'" THEN (IF IsV(w[4]) THEN <<4, IF RnHyphen(w, 5) THEN 1 ELSE 0>> ELSE <<>>)
       ELSE IF IsV(w[3]) THEN <<3, IF RnHyphen(w, 4) THEN 1 ELSE 0>>
       ELSE <<3, 0>>
\* One letter on: st.at is where the next rafsi begins, 0 when there is no more to take.
PeelAt(st, w, p) ==
  IF p = <<>> THEN [at |-> 0, done |-> Fail]
  ELSE [at |-> st.at + p[1] + p[2], done |-> Append(st.done, Meant(Join(SubSeq(w, 1, p[1]))))]
SplitHere(st, w) ==
  CASE Len(w) < 3 -> [at |-> 0, done |-> Fail]
    [] Len(w) \in {3, 4} -> [at |-> 0, done |-> Append(st.done, Meant(Join(w)))]
    [] Len(w) = 5 -> [at |-> 0, done |-> Append(st.done, Join(w))]
    [] OTHER -> PeelAt(st, w, TLCEval(Peel(w)))
SplitStep(st, k, W) == IF st.at # k THEN st ELSE SplitHere(st, From(W, k))
Split(W) ==
  LET e == FoldSeqL(LAMBDA st, k : SplitStep(st, k, W), [at |-> 1, done |-> <<>>], [k \in 1 .. Len(W) + 1 |-> k])
  IN e.done
\* Only something with a consonant cluster (perhaps across a y), or a consonant at its end, can be one.
Clustered(w) ==
  /\ Len(w) >= 2
  /\ \E i \in 1 .. Len(w) : IsC(w[i]) /\ (\/ i = Len(w) \/ IsC(w[i+1])
                                          \/ (w[i+1] = "y" /\ (i + 1 = Len(w) \/ IsC(w[i+2]))))
Components(w) == IF Clustered(w) THEN Split(w) ELSE Fail

-----------------------------------------------------------------------------
(* Making.  o: the options long, brod.  The rafsi of each component: its short
   ones (the last component's must end in a vowel), or its long one if it has
   no other or all are asked for. *)
Shape(r) == TLCEval([i \in 1 .. Len(r) |-> IF IsC(r[i]) THEN "C" ELSE IF IsV(r[i]) THEN "V" ELSE r[i]])
Broda(w) == Len(w) = 5 /\ SubSeq(w, 1, 4) = <<"b", "r", "o", "d">>
Choices(w, last, o) ==
  LET short == RafsiOf[Join(w)]
      fit == IF last THEN SelectSeq(short, LAMBDA r : IsV(Last(r))) ELSE short
      long == Len(w) = 5 /\ (o.long \/ fit = <<>>) /\ (last \/ o.brod \/ ~Broda(w))
  IN IF long THEN Append(fit, IF last THEN w ELSE SubSeq(w, 1, 4)) ELSE fit

CVV == {<<"C","V","V">>, <<"C","V","'","V">>}
CCV == <<"C","C","V">>
\* Two rafsi can stand side by side.
Joinable(a, b) ==
  LET e == Last(a) IN
  ~IsC(e) \/ /\ PairClass("", e, b[1]) # "CN"
             /\ ~(e = "n" /\ Len(b) > 1 /\ (b[1] \o b[2]) \in {"dj", "dz", "tc", "ts"})
\* The hyphen after the k-th of the rafsi s, but for the leading CVC that would fall off.
Glue(s, k) ==
  IF k = 1 /\ Shape(s[1]) \in CVV /\ (Len(s) > 2 \/ Shape(s[2]) # CCV)
  THEN IF s[2][1] = "r" THEN "n" ELSE "r"
  ELSE IF (Len(s[k]) = 4 /\ Shape(s[k]) \notin CVV) \/ ~Joinable(s[k], s[k+1]) THEN "y" ELSE ""
Glued(s, g) == Flatten([k \in 1 .. Len(s) |-> IF k < Len(s) /\ g[k] # "" THEN Append(s[k], g[k]) ELSE s[k]])
\* A word heard as one word, a lujvo.
OneLujvo(w) == LET m == Scan(w) IN m.cat = "LUJVO" /\ m.starts = <<1>>
Make(s) ==
  LET g == TLCEval([k \in 1 .. Len(s) - 1 |-> Glue(s, k)])
      w == TLCEval(Glued(s, g))
  IN IF Shape(s[1]) = <<"C","V","C">> /\ g[1] = "" /\ ~OneLujvo(w)
     THEN [w |-> Glued(s, [g EXCEPT ![1] = "y"]), g |-> [g EXCEPT ![1] = "y"]]
     ELSE [w |-> w, g |-> g]

\* The merit of a lujvo: less is better.
Weight(r) ==
  LET h == Shape(r) IN
  CASE h = <<"C","V","C","C","V">> -> 1 [] h = <<"C","V","C","C">> -> 2 [] h = <<"C","C","V","C","V">> -> 3
    [] h = <<"C","C","V","C">> -> 4 [] h = <<"C","V","C">> -> 5 [] h = <<"C","V","'","V">> -> 6
    [] h = <<"C","C","V">> -> 7 [] h = <<"C","V","V">> -> 8
Count(w, S) == Cardinality({i \in 1 .. Len(w) : w[i] \in S})
RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE Head(q) + Sum(Tail(q))
Score(s, m) ==
  LET h == Cardinality({k \in DOMAIN m.g : m.g[k] # ""})
  IN 1000 * Len(m.w) - 500 * Count(m.w, {"'"}) + 100 * h - 10 * Sum([k \in 1 .. Len(s) |-> Weight(s[k])]) - Count(m.w, Vowels)
HasBrod(s) == \E k \in 1 .. Len(s) : s[k] = <<"b", "r", "o", "d">>

\* All lujvo from the choices ch, as a sequence (one per combination of rafsi).
RECURSIVE Combos(_)
Combos(ch) == IF ch = <<>> THEN <<<<>>>>
              ELSE LET R == TLCEval(Combos(Tail(ch))) IN TLCEval(Flatten([i \in 1 .. Len(ch[1]) |-> [k \in 1 .. Len(R) |-> <<ch[1][i]>> \o R[k]]]))
Made(s) == LET m == TLCEval(Make(s)) IN TLCEval([w |-> m.w, score |-> Score(s, m), brod |-> HasBrod(s), s |-> s])
=============================================================================
