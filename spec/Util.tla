-------------------------------- MODULE Util --------------------------------
(* Small operators shared by the modules of the specification. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Fold

Rng(s) == {s[i] : i \in DOMAIN s}
Last(s) == s[Len(s)]
Front(s) == SubSeq(s, 1, Len(s) - 1)
From(s, i) == SubSeq(s, i, Len(s))
InsertAt(s, i, e) == SubSeq(s, 1, i - 1) \o <<e>> \o SubSeq(s, i, Len(s))
Cut(s, i, j) == SubSeq(s, 1, i - 1) \o SubSeq(s, j + 1, Len(s))

\* Concatenation of a sequence of strings.
Join(s) == FoldSeqL(LAMBDA a, x : a \o x, "", s)
RECURSIVE JoinSep(_, _)
JoinSep(s, sep) == IF s = <<>> THEN "" ELSE IF Len(s) = 1 THEN s[1] ELSE Head(s) \o sep \o JoinSep(Tail(s), sep)

Flatten(ss) == FoldSeqL(LAMBDA a, x : a \o x, <<>>, ss)

\* The largest / smallest index in a..b satisfying P, 0 if none.
With(x, F(_)) == FoldSeqL(LAMBDA u, v : F(v), 0, <<x>>)      \* F(x), x evaluated once
LastIdx(a, b, P(_)) == With({i \in a .. b : P(i)}, LAMBDA S : IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : j <= i)
FirstIdx(a, b, P(_)) == With({i \in a .. b : P(i)}, LAMBDA S : IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : j >= i)

MinOf(a, b) == IF a < b THEN a ELSE b
MaxOf(a, b) == IF a > b THEN a ELSE b
=============================================================================
