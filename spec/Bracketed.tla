------------------------------ MODULE Bracketed ------------------------------
(* The plain bracketed output: every word of the parse, in text order, inside
   one pair of brackets per constituent that has more than one part, the shape
   of a pair telling its depth.  Markers are not shown, elided words (-ie) are
   in capitals.  The output is the sequence of brackets and of maximal runs of
   words between brackets. *)
EXTENDS LR

Shapes == <<<<"(", ")">>, <<"[", "]">>, <<"{", "}">>, <<"<", ">">>>>
Num(d) == IF d % 4 = 0 THEN ToString(d \div 4) ELSE ""
Open(d)  == [k |-> "b", s |-> Shapes[(d % 4) + 1][1] \o Num(d)]
Shut(d) == [k |-> "b", s |-> Shapes[(d % 4) + 1][2] \o Num(d)]
Text(s) == [k |-> "w", s |-> s]

RECURSIVE Spaced(_)
Spaced(ws) == IF ws = <<>> THEN "" ELSE " " \o Head(ws) \o Spaced(Tail(ws))

Some(s) == IF s = "" THEN <<>> ELSE <<s>>

\* What a single word shows.
WordItems(t, d) ==
  CASE t.ty = "MARKER" -> <<>>
    [] t.ty = "CMAVO"  -> <<Text(t.txt \o Spaced(t.mods))>>
    [] t.ty = "ZOI"    -> <<Text(t.form \o " " \o t.delim \o Spaced(Some(t.txt)) \o " " \o t.delim)>>
    [] t.ty = "ZO"     -> <<Text("zo " \o t.txt)>>
    [] t.ty = "ZEI"    -> <<Open(d + 1), Text(t.txt), Shut(d + 1)>>
    [] t.ty = "LOHU"   -> <<Open(d + 1), Text("lo'u" \o Spaced(Some(t.txt)) \o " le'u"), Shut(d + 1)>>
    [] t.ty = "BU"     -> <<Text(t.txt \o " bu")>>
    [] OTHER           -> <<Text(t.txt)>>

RECURSIVE Items(_, _)
Items(x, d) ==
  IF x.leaf THEN (IF x.t = <<>> THEN <<>> ELSE WordItems(x.t[1], d))
  ELSE <<Open(d)>> \o Flatten([i \in 1 .. Len(x.ch) |-> Items(x.ch[i], d + 1)]) \o <<Shut(d)>>

RECURSIVE Merge(_, _)
Merge(its, acc) ==
  IF its = <<>> THEN acc
  ELSE IF acc # <<>> /\ Head(its).k = "w" /\ Last(acc).k = "w"
  THEN Merge(Tail(its), [acc EXCEPT ![Len(acc)].s = @ \o " " \o Head(its).s])
  ELSE Merge(Tail(its), Append(acc, Head(its)))

Brackets(tree) == LET m == Merge(Items(Compress(tree), 0), <<>>) IN [i \in 1 .. Len(m) |-> m[i].s]
=============================================================================
