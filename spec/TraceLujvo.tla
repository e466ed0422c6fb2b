------------------------------ MODULE TraceLujvo ------------------------------
(* Recorded runs of jvocuhadju against the making of lujvo, and what must be true
   of every lujvo made: it is one word, a lujvo, and comes apart into the
   components it was made from.

   A record:  words  the components as given, letter sequences   o  the options
              (long, brod, all, noscore, noann, norafsi, quiet)
              rc, out (lines), err (lines), part: too many combinations to list here

   Stages: look up the components, show their rafsi, make, show the best.  *)
EXTENDS Lujvo

Obs == TLCEval(JsonDeserialize("obs.json"))
VARIABLES i, pc, ch, made
vars == <<i, pc, ch, made>>
r == Obs[i]
o == r.o

Init == i \in 1 .. Len(Obs) /\ pc = "words" /\ ch = <<>> /\ made = <<>>

Differ(what, exp) == PrintT("MISMATCH " \o ToJson([i |-> i, what |-> what, exp |-> exp])) /\ FALSE
Stop(ok) == pc' = (IF ok THEN "ok" ELSE "bad") /\ UNCHANGED <<i, ch, made>>
\* The run's output, messages and status.
Same(out, err, rc) ==
  IF r.out # out THEN Differ("out", out) ELSE IF r.err # err THEN Differ("err", err) ELSE IF r.rc # rc THEN Differ("rc", rc) ELSE TRUE

Norm(w) == TLCEval([k \in 1 .. Len(w) |-> IF Low(w[k]) = "h" THEN "'" ELSE Low(w[k])])
W == TLCEval([k \in 1 .. Len(r.words) |-> Norm(r.words[k])])
Pad(s, n) == s \o Join([k \in 1 .. MaxOf(0, n - Len(s)) |-> " "])
LPad(s, n) == Join([k \in 1 .. MaxOf(0, n - Len(s)) |-> " "]) \o s

Suppressed == \E k \in 1 .. Len(W) - 1 : ~o.brod /\ Broda(W[k]) /\ (o.long \/ RafsiOf[Join(W[k])] = <<>>)
Note == IF ~o.quiet /\ Suppressed THEN <<"Note: The rafsi \"brod\" was suppressed. Use \"-b\" to force it.">> ELSE <<>>
RafsiLines(c) ==
  IF o.norafsi \/ W = <<>> THEN <<>>
  ELSE <<IF o.long THEN "Possible rafsi for input words:" ELSE "Possible rafsi for input words (avoiding long rafsi):">>
       \o [k \in 1 .. Len(W) |->
             Pad(Join(W[k]), 5) \o ":  " \o Join([j \in 1 .. Len(c[k]) |-> Pad(Join(c[k][j]), 5) \o " "])
             \o (IF <<"b", "r", "o", "d">> \in Rng(c[k]) THEN " /!\\" ELSE "") \o (IF c[k] = <<>> THEN "<NONE> " ELSE "")]
Header ==
  IF ~o.noscore THEN <<"---------------------", IF o.noann THEN " Score  Lujvo" ELSE "  Score  Lujvo", "---------------------">>
  ELSE IF ~o.norafsi THEN <<"List of lujvo:">> ELSE <<>>

LookUp ==
  /\ pc = "words"
  /\ \E k \in {FirstIdx(1, Len(W), LAMBDA j : Len(r.words[j]) > 5 \/ Join(W[j]) \notin RafsiWords)} :
        LET shown == IF Len(r.words[k]) > 5 THEN Join(r.words[k]) ELSE Join(W[k])
        IN IF k # 0 THEN Stop(Same(<<>>, <<"Cannot use component [" \o shown \o "] in forming lujvo.">>, 1))
        ELSE /\ pc' = "rafsi"
             /\ ch' = TLCEval([j \in 1 .. Len(W) |-> Choices(W[j], j = Len(W), o)])
             /\ UNCHANGED <<i, made>>

RafsiStage ==
  /\ pc = "rafsi"
  /\ \E k \in {LastIdx(1, Len(ch), LAMBDA j : ch[j] = <<>>)} :
        IF k # 0
        THEN Stop(Same(RafsiLines(ch) \o Note,
                       <<"No matching rafsi available for component [" \o Join(W[k]) \o "] at position " \o ToString(k) \o ".">>, 1))
        ELSE IF Len(W) < 2 THEN Stop(Same(RafsiLines(ch), <<"Not enough components for lujvo (need at least 2).">>, 1))
        ELSE IF r.part THEN pc' = "part" /\ UNCHANGED <<i, ch, made>>
        ELSE pc' = "made" /\ made' = (LET C == TLCEval(Combos(ch)) IN TLCEval([j \in 1 .. Len(C) |-> Made(C[j])])) /\ UNCHANGED <<i, ch>>

\* What is true of each lujvo.
Sound(m) == OneLujvo(m.w)
\* (the word for a rafsi shared by several words, brod, is any of them)
Comes(m) == LET c == Components(m.w) IN
  /\ Len(c) = Len(W)
  /\ \A k \in 1 .. Len(W) : c[k] = Join(W[k]) \/ (Len(m.s[k]) = 4 /\ SubSeq(m.s[k], 1, 3) = <<"b", "r", "o">>)
SoundStage ==
  /\ pc = "made"
  /\ IF \A k \in 1 .. Len(made) : Sound(made[k]) /\ Comes(made[k]) THEN pc' = "sorted" /\ UNCHANGED <<i, ch, made>>
     ELSE Stop(Differ("theory", {<<Join(m.w), Scan(m.w).cat, Components(m.w)>> : m \in {x \in Rng(made) : ~(Sound(x) /\ Comes(x))}}))

Line(mark, m) ==
  (IF o.noann THEN "" ELSE IF o.noscore THEN mark \o " " ELSE mark)
  \o (IF o.noscore THEN "" ELSE LPad(ToString(m.score), 6) \o "  ") \o Join(m.w)

BrodWarn(used) == IF ~used THEN <<>> ELSE
  <<"Warning: The rafsi \"brod\" is ambigious!",
    "It could stand for \"broda\", \"brode\", \"brodi\", \"brodo\" or \"brodu\".">>

(* The list: the best first, ties in any order, at most eight unless all are
   asked for; an asterisk for the best, an exclamation mark for those that use
   the ambiguous brod. *)
ListGood ==
     LET n == Len(made)
         pre == RafsiLines(ch) \o Header
         shown == IF o.all THEN n ELSE MinOf(n, 8)
         post == (IF shown < n /\ ~o.quiet THEN <<"(" \o ToString(n - shown) \o " lujvo hidden, use \"-a\" to see all)">> ELSE <<>>)
                 \o (IF \E m \in Rng(made) : m.brod THEN <<>> ELSE Note)
         lines == SubSeq(r.out, Len(pre) + 1, Len(pre) + shown)
         best == CHOOSE b \in {m.score : m \in Rng(made)} : \A m \in Rng(made) : b <= m.score
         starred == \E m \in Rng(made) : m.score = best /\ ~m.brod /\ lines # <<>> /\ lines[1] = Line("*", m)
         Mark(m) == IF m.score = best /\ starred THEN "*" ELSE IF m.brod THEN "!" ELSE " "
         all == TLCEval([k \in 1 .. n |-> Line(Mark(made[k]), made[k])])
         \* (where in the list of all lujvo each line shown is)
         at == TLCEval([k \in 1 .. Len(lines) |-> {j \in 1 .. n : all[j] = lines[k]}])
         sc == TLCEval([k \in 1 .. Len(lines) |-> IF at[k] = {} THEN 0 ELSE made[CHOOSE j \in at[k] : TRUE].score])
         good == /\ Len(r.out) = Len(pre) + shown + Len(post)
                 /\ SubSeq(r.out, 1, Len(pre)) = pre
                 /\ SubSeq(r.out, Len(pre) + shown + 1, Len(r.out)) = post
                 /\ \A k \in 1 .. shown : at[k] # {}
                 /\ sc[1] = best
                 /\ \A k \in 1 .. shown : Cardinality({j \in 1 .. shown : lines[j] = lines[k]}) <= Cardinality(at[k])
                 /\ \A k \in 1 .. shown - 1 : sc[k] <= sc[k+1]
                 /\ \A k \in 1 .. n : made[k].score < sc[shown] => all[k] \in Rng(lines)
     IN IF ~good THEN Differ("list", pre \o all \o post)
             ELSE Same(r.out, BrodWarn(\E m \in Rng(made) : m.brod), 0)
ListStage == pc = "sorted" /\ Stop(ListGood)

(* A tanru with a great many lujvo: each line shown is one of them, with its
   score, the list is in order, and says how many more there are. *)
Product == LET RECURSIVE P(_, _)
               P(k, acc) == IF k > Len(ch) \/ acc >= 65536 THEN acc ELSE P(k + 1, acc * Len(ch[k]))
           IN MinOf(65536, P(1, 1))
\* the combinations that begin the word w
RECURSIVE Fit(_, _, _)
Fit(k, w, acc) ==
  IF k > Len(ch) THEN (IF w = <<>> THEN {acc} ELSE {})
  ELSE UNION { LET x == ch[k][j]
                   n == Len(x)
               IN IF Len(w) < n \/ SubSeq(w, 1, n) # x THEN {}
                  ELSE Fit(k + 1, From(w, n + 1), Append(acc, x))
                       \cup (IF Len(w) > n /\ w[n+1] \in {"y", "r", "n"} THEN Fit(k + 1, From(w, n + 2), Append(acc, x)) ELSE {})
             : j \in 1 .. Len(ch[k]) }
Letters(l, from) == [k \in 1 .. Len(l) - from + 1 |-> SubSeq(l, from + k - 1, from + k - 1)]
PartGood ==
     LET pre == RafsiLines(ch) \o Header
         off == (IF o.noann THEN 0 ELSE 1) + (IF o.noscore THEN (IF o.noann THEN 0 ELSE 1) ELSE 8)
         lines == SubSeq(r.out, Len(pre) + 1, Len(pre) + 8)
         is == TLCEval([k \in 1 .. Len(lines) |->
                  LET w == Letters(lines[k], off + 1) IN {m \in {Made(s) : s \in Fit(1, w, <<>>)} : m.w = w}])
         sc == TLCEval([k \in 1 .. Len(lines) |-> IF is[k] = {} THEN -1 ELSE (CHOOSE m \in is[k] : TRUE).score])
         Suits(k) == \E m \in is[k] : Sound(m) /\ \E mark \in {"*", "!", " "} : lines[k] = Line(mark, m)
         rest == From(r.out, Len(pre) + 9)
         hidden == "(" \o ToString(Product - 8) \o " lujvo hidden, use \"-a\" to see all)"
     IN      /\ SubSeq(r.out, 1, Len(pre)) = pre \/ Differ("head", pre)
             /\ (\A k \in 1 .. 8 : Suits(k)) \/ Differ("lines", is)
             /\ (\A k \in 1 .. 7 : sc[k] <= sc[k+1]) \/ Differ("order", sc)
             /\ o.quiet \/ (rest # <<>> /\ rest[1] = hidden) \/ Differ("hidden", hidden)
             /\ r.rc = 0 \/ Differ("rc", 0)
PartStage == pc = "part" /\ Stop(PartGood)

Next == LookUp \/ RafsiStage \/ SoundStage \/ ListStage \/ PartStage
=============================================================================
