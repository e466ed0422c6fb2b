------------------------------- MODULE Elision -------------------------------
(* Elidable terminators: which can be left out of a text without changing its
   structure (-se), and what writing all of them out does (-ie, -re).

   Two parses have the same structure when their trees agree once terminators
   that carry nothing are dropped and nodes left with one part are replaced by
   that part. *)
EXTENDS Lexer, Preproc, Compound, Bracketed

Terminators == {"BEhO", "BOI", "CU", "DOhU", "FEhU", "GEhU", "KEI", "KEhE", "KU", "KUhE", "KUhO", "LIhU", "LOhO", "LUhU",
                "MEhU", "NUhU", "SEhU", "TEhU", "TOI", "TUhU", "VAU", "VEhO"}
\* A free modifier.
RECURSIVE IsFree(_)
IsFree(x) == CASE x.lab = "FREE_SEQ" -> IsFree(x.ch[1])
               [] x.lab = "FREE" -> TRUE
               [] OTHER -> FALSE
IsTerm(x) == x.leaf /\ x.t # <<>> /\ (x.el \/ (x.t[1].ty = "CMAVO" /\ x.t[1].sel \in Terminators))

\* The places of the terminators that carry a free modifier.
RECURSIVE Carriers(_)
Carriers(x) ==
  IF x.leaf THEN {}
  ELSE (IF x.lab = "AUGMENTED" THEN {} ELSE UNION {Carriers(x.ch[i]) : i \in DOMAIN x.ch})
       \cup {<<x.ch[i].l, x.ch[i].c>> : i \in {k \in 1 .. Len(x.ch) - 1 : IsFree(x.ch[k+1])}}

Core1(lab, t, ch) == [lab |-> lab, t |-> t, ch |-> ch]
Plain(t) == [t EXCEPT !.l = 0, !.c = 0, !.ui = <<>>, !.bh = <<>>]
RECURSIVE Core(_, _)
Core(x, keep) ==
  IF x.leaf THEN
    IF x.t = <<>> \/ (x.hid) THEN <<>>
    ELSE IF IsTerm(x) /\ <<x.t[1].l, x.t[1].c>> \notin keep THEN <<>>
    ELSE <<Core1(Symbol(x.t[1]), <<Plain(x.t[1])>>, <<>>)>>
  ELSE LET kids == IF x.lab = "AUGMENTED" THEN [i \in 1 .. Len(x.ch) |-> Core1(x.ch[i].lab, <<>>, <<>>)]
                   ELSE Flatten([i \in 1 .. Len(x.ch) |-> Core(x.ch[i], keep)])
       IN IF Len(kids) <= 1 THEN kids
          ELSE <<Core1(IF x.lab = "NO_CU_SENTENCE" THEN "SENTENCE" ELSE x.lab, <<>>, kids)>>
Structure(tree) == Core(tree, Carriers(tree))

\* A list of words (before grouping) -> its parse.
ParseWords(ts) == Parse(LrNorm, Categorize(ts), FALSE)

\* The maximal runs of terminators carrying nothing: intervals of positions.
Loose(t, carriers) == t.ty = "CMAVO" /\ t.sel \in Terminators /\ t.ui = <<>> /\ t.bh = <<>> /\ <<t.l, t.c>> \notin carriers
Runs(ts, carriers) ==
  LET L(i) == i >= 1 /\ i <= Len(ts) /\ Loose(ts[i], carriers)
  IN {<<i, j>> \in (1 .. Len(ts)) \X (1 .. Len(ts)) : i <= j /\ ~L(i - 1) /\ ~L(j + 1) /\ \A k \in i .. j : L(k)}

\* The run i..j with only the words of K kept.
Keep(ts, i, j, K) == SubSeq(ts, 1, i - 1) \o SelectSeq([k \in 1 .. (j - i + 1) |-> IF (i + k - 1) \in K THEN ts[i + k - 1] ELSE Marker("-")],
                                                      LAMBDA t : t.ty # "MARKER") \o From(ts, j + 1)
Places(ts, K) == {<<ts[k].l, ts[k].c>> : k \in K}
\* ... gives the same structure, the words kept still doing what they did.
Suffices(ts, p, i, j, K) ==
  \/ K = i .. j
  \/ LET q == ParseWords(Keep(ts, i, j, K)) IN
     q.res = "ok" /\ Core(q.tree[1], Carriers(q.tree[1]) \cup Places(ts, K)) = Core(p.tree[1], Carriers(p.tree[1]) \cup Places(ts, K))
Enough(ts, p, i, j) == {K \in SUBSET (i .. j) : Suffices(ts, p, i, j, K)}
MinimalOf(E) == {K \in E : ~\E M \in E : M # K /\ M \subseteq K}
\* Leaving the run out lets words on its two sides group into a compound.
Compounds(ts, i, j) ==
  LET Gone(t) == t.ty = "CMAVO" /\ \E k \in i .. j : ts[k].l = t.l /\ ts[k].c = t.c
  IN Categorize(Keep(ts, i, j, {})) # SelectSeq(Categorize(ts), LAMBDA t : ~Gone(t))

\* Words that can begin a free modifier.
FreeStarts(ts, i) ==
  i <= Len(ts) /\ ts[i].ty = "CMAVO" /\ ts[i].sel \in {"SEI", "SOI", "COI", "DOI", "TO", "XI", "PA", "BY"}
\* Words that can begin a tense (perhaps with a number).
TenseStarts(ts, i) == i <= Len(ts) /\ StagClass(ts[i]) # ""
RECURSIVE WordsOf(_, _, _, _)
WordsOf(ts, i, j, K) == IF i > j THEN <<>> ELSE (IF i \in K THEN <<ts[i].txt>> ELSE <<>>) \o WordsOf(ts, i + 1, j, K)

-----------------------------------------------------------------------------
(* Writing every elided terminator out (-ie) gives a text of the language in
   which they are all required (-re), with the same tree; nothing else is
   added, and the words stay in order. *)
RECURSIVE LeafWords(_)
LeafWords(x) == IF x.leaf THEN (IF x.el THEN <<[x.t[1] EXCEPT !.txt = LowerOf[x.t[1].txt]]>> ELSE x.t) ELSE Flatten([i \in 1 .. Len(x.ch) |-> LeafWords(x.ch[i])])
Bared(ts) == [i \in 1 .. Len(ts) |-> [ts[i] EXCEPT !.ui = <<>>, !.bh = <<>>]]
RECURSIVE Outline(_)
Outline(x) == Core1(IF x.lab = "NO_CU_SENTENCE" THEN "SENTENCE" ELSE x.lab, <<>>, IF x.leaf THEN <<>> ELSE [i \in 1 .. Len(x.ch) |-> Outline(x.ch[i])])
RECURSIVE Written(_)
Written(x) == IF x.leaf THEN (IF x.t = <<>> THEN x ELSE [x EXCEPT !.lab = Symbol(x.t[1])])
              ELSE [x EXCEPT !.ch = [i \in 1 .. Len(x.ch) |-> Written(x.ch[i])]]
NoMarkers(ts) == SelectSeq(ts, LAMBDA t : t.ty # "MARKER")
\* words: the list before grouping
RoundTrip(words) ==
  LET ws == Bared(words)
      p == Parse(LrNorm, Categorize(ws), TRUE)
  IN IF p.res # "ok" THEN "ok"
     ELSE LET all == NoMarkers(LeafWords(p.tree[1]))
              here == SelectSeq(all, LAMBDA t : t.l > 0)
              full == Categorize(all)
              f == Parse(LrFull, full, FALSE)
              n == Parse(LrNorm, full, TRUE)
              want == Outline(Compress(Written(p.tree[1])))
          IN IF here # SubSeq(ws, 1, Len(here)) THEN "words"
             ELSE IF f.res # "ok" THEN "full"
             ELSE IF Outline(Compress(Written(f.tree[1]))) # want THEN "tree"
             ELSE IF n.res # "ok" \/ Outline(Compress(Written(n.tree[1]))) # want THEN "norm" ELSE "ok"
=============================================================================
