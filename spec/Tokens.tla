------------------------------- MODULE Tokens --------------------------------
(* The words of a text as the analyser handles them.

   ty   kind of unit: CMAVO BRIVLA CMENE ZOI ZO LOHU ZEI BU BROKEN MARKER
   txt  its text;  sel  selma'o of a CMAVO / name of a MARKER
   l,c  line and column it is reported at
   bh   emphasis words (ba'e, za'e) in front of it, in text order
   ui   indicators attached behind it (each a unit of its own)
   mods the nai / CAI / nai absorbed by an indicator
   n    missing si of a BROKEN erasure;  form, delim of a ZOI quotation *)
EXTENDS Util, Json

Cmavo == TLCEval(JsonDeserialize("cmavo.json"))
CmavoWords == TLCEval(DOMAIN Cmavo)

Tok(ty, txt, sel, l, c) ==
  [ty |-> ty, txt |-> txt, sel |-> sel, l |-> l, c |-> c, bh |-> <<>>, ui |-> <<>>, mods |-> <<>>, n |-> 0,
   form |-> "", delim |-> ""]
Marker(name) == Tok("MARKER", name, name, 0, 0)

IsCm(t, s) == t.ty = "CMAVO" /\ t.sel = s
IsMk(t, s) == t.ty = "MARKER" /\ t.sel = s
\* tests at a position of a list, false outside it
CmAt(s, i, x) == i >= 1 /\ i <= Len(s) /\ IsCm(s[i], x)
MkAt(s, i, x) == i >= 1 /\ i <= Len(s) /\ IsMk(s[i], x)

\* A unit as text inside a larger unit.
UnitText(t) ==
  CASE t.ty = "ZOI"    -> "zoi+\"" \o t.txt \o "\""
    [] t.ty = "ZO"     -> "zo+" \o t.txt
    [] t.ty = "LOHU"   -> "lo'u+\"" \o t.txt \o "\""
    [] t.ty = "BROKEN" -> "<Defective erasure>"
    [] OTHER           -> t.txt

\* A unit in the -k token lists.
ListLine(t) ==
  CASE t.ty = "CMAVO"  -> "CMV : " \o t.txt \o " [" \o Cmavo[t.txt].m \o "]"
    [] t.ty = "MARKER" -> "MAR : " \o t.txt
    [] t.ty = "ZOI"    -> "ZOI : " \o t.txt
    [] t.ty = "ZO"     -> "ZO  : " \o t.txt
    [] t.ty = "LOHU"   -> "LOhU  : " \o t.txt
    [] t.ty = "ZEI"    -> "ZEI : " \o t.txt
    [] t.ty = "BU"     -> "BU : " \o t.txt
    [] t.ty = "BRIVLA" -> "BRV : " \o t.txt
    [] t.ty = "CMENE"  -> "CMN : " \o t.txt
    [] t.ty = "BROKEN" -> "BKN : (broken erasure)"
List(ts) == [i \in 1 .. Len(ts) |-> ListLine(ts[i])]

\* A unit in a syntax-error report.
ErrLine(t) ==
  LET at == " (line " \o ToString(t.l) \o ", col " \o ToString(t.c) \o ")" IN
  CASE t.ty = "CMAVO"  -> t.txt \o " [" \o Cmavo[t.txt].c \o "]" \o at
    [] t.ty = "MARKER" -> "MARKER : " \o t.txt
    [] t.ty = "ZOI"    -> t.form \o " " \o t.delim \o ". " \o t.txt \o " " \o t.delim \o "." \o at
    [] t.ty = "ZO"     -> "zo " \o t.txt \o at
    [] t.ty = "LOHU"   -> "lo'u " \o t.txt \o " le'u" \o at
    [] t.ty = "ZEI"    -> t.txt \o at
    [] t.ty = "BU"     -> t.txt \o " bu" \o at
    [] t.ty = "BRIVLA" -> t.txt \o " [BRIVLA]" \o at
    [] t.ty = "CMENE"  -> t.txt \o " [CMENE]" \o at
    [] t.ty = "BROKEN" -> "<Incomplete SI erasure>" \o at

\* A unit as a leaf of the parse tree.
LeafLabel(t) ==
  CASE t.ty = "CMAVO"  -> "CMAVO : " \o t.txt \o " [" \o Cmavo[t.txt].c \o "]"
    [] t.ty = "ZOI"    -> "ZOI : " \o t.txt
    [] t.ty = "ZO"     -> "ZO  : " \o t.txt
    [] t.ty = "LOHU"   -> "LOhU  : " \o t.txt
    [] t.ty = "ZEI"    -> "ZEI : " \o t.txt
    [] t.ty = "BU"     -> "BU : " \o t.txt
    [] t.ty = "BRIVLA" -> "BRIVLA : " \o t.txt
    [] t.ty = "CMENE"  -> "CMENE : " \o t.txt
    [] OTHER           -> t.txt
=============================================================================
