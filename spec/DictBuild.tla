------------------------------ MODULE DictBuild -------------------------------
(* The dictionary compiler: definitions, one per line, added to a database.
   Text is a sequence of byte values.  A database is a function from keys to
   values; its file lists it in ascending order of the keys. *)
EXTENDS Lujvo

NUL == 0
NL == 10
Blank == {9, 10, 11, 12, 13, 32}
Colon == 58
CommentSigns == {33, 35, 59}
DigitsB == 48 .. 57
SmallB == 97 .. 122
AlphaB == SmallB \cup (65 .. 90)
Classes == TLCEval(<<110, 118, 97, 113, 116>>)      \* n v a q t
Plus == 43
At == 64
MaxLen == 255

\* bytes of a word given as a string, and letters of a sequence of bytes
LetterList == TLCEval(<<"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z">>)
CapList == TLCEval(<<"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z">>)
Letter(b) == IF b \in SmallB THEN LetterList[b - 96] ELSE CapList[b - 64]
ByteOf == TLCEval([c \in Rng(LetterList) \cup Rng(CapList) \cup {"?", "'"} |->
             CASE c = "?" -> 63 [] c = "'" -> 39 [] c \in Rng(CapList) -> 64 + (CHOOSE k \in 1 .. 26 : CapList[k] = c)
               [] OTHER -> 96 + (CHOOSE k \in 1 .. 26 : LetterList[k] = c)])
Bytes(s) == TLCEval([k \in 1 .. Len(s) |-> ByteOf[SubSeq(s, k, k)]])

At1(s, k, S) == k <= Len(s) /\ s[k] \in S
Find(s, from, c) == FirstIdx(from, Len(s), LAMBDA k : s[k] = c)
UpTo(s, from, k) == IF k = 0 THEN From(s, from) ELSE SubSeq(s, from, k - 1)

-----------------------------------------------------------------------------
(* A line: nothing, a complaint, or the definition of a key. *)
Cut0(l) == UpTo(l, 1, Find(l, 1, NUL))
ReadDef(l, b, c) ==
  IF c = 0 THEN [t |-> "nocolon", line |-> l]
  ELSE LET key == SubSeq(l, b, c - 1)
           val == TLCEval(UpTo(l, c + 1, Find(l, c + 1, Colon)))
       IN IF Len(key) > MaxLen \/ Len(val) > MaxLen THEN [t |-> "long", key |-> key]
          ELSE [t |-> "def", key |-> key, val |-> val]
ReadFrom(l, b) ==
  IF b = 0 THEN [t |-> "none"] ELSE IF l[b] \in CommentSigns THEN [t |-> "none"]
  ELSE With(Find(l, b, Colon), LAMBDA c : ReadDef(l, b, c))
ReadLine(l0) == With(Cut0(l0), LAMBDA l : With(FirstIdx(1, Len(l), LAMBDA k : l[k] \notin Blank), LAMBDA b : ReadFrom(l, b)))

\* The key under which a lujvo's place is found from its components, <<>> if there is none.
EndsInDigit(k) == k # <<>> /\ Last(k) \in DigitsB
AlphaRun(k) == FirstIdx(1, Len(k), LAMBDA j : k[j] \notin AlphaB)
PlusJoin(c) == Flatten([k \in 1 .. Len(c) |-> IF k = 1 THEN Bytes(c[k]) ELSE <<Plus>> \o Bytes(c[k])])
CanonOf(c, d) == IF c = Fail THEN <<>> ELSE PlusJoin(c) \o <<d>>
CanonFrom(k, e) ==          \* e: the first that is not a letter; there is one, the digit
  IF e <= 6 THEN <<>>
  ELSE With(TLCEval([j \in 1 .. e - 1 |-> Letter(k[j])]), LAMBDA w : With(Components(w), LAMBDA c : CanonOf(c, Last(k))))
CanonKey(k) == IF ~EndsInDigit(k) THEN <<>> ELSE With(AlphaRun(k), LAMBDA e : CanonFrom(k, e))

(* A definition of a place (the key ends in a digit) does away with the special
   forms of that place defined before. *)
Forms(k) == {k \o <<Classes[j]>> : j \in 1 .. 5}
Define(db, k, v) ==
  LET gone == IF EndsInDigit(k) THEN Forms(k) ELSE {}
  IN TLCEval([x \in (DOMAIN db \ gone) \cup {k} |-> IF x = k THEN v ELSE db[x]])
EnterBoth(d1, ck, cv) == IF ck = <<>> \/ Len(ck) > MaxLen \/ Len(cv) > MaxLen THEN d1 ELSE Define(d1, ck, cv)
Enter(db, k, v) == With(Define(db, k, v), LAMBDA d1 : With(CanonKey(k), LAMBDA ck : EnterBoth(d1, ck, <<At>> \o k)))

\* One line in a state [db, msgs].
Take(st, l) ==
  CASE l.t = "none" -> st
    [] l.t = "nocolon" -> [st EXCEPT !.msgs = Append(@, [t |-> "nocolon", s |-> l.line])]
    [] l.t = "long" -> [st EXCEPT !.msgs = Append(@, [t |-> "long", s |-> l.key])]
    [] OTHER -> [st EXCEPT !.db = Enter(@, l.key, l.val)]
Step(st, l0) == With(ReadLine(l0), LAMBDA l : Take(st, l))
Steps(st, ls) == FoldSeqL(Step, st, ls)
\* One run of the compiler on a database: the files' lines, in order.
Run(db, files) == FoldSeqL(Steps, [db |-> db, msgs |-> <<>>], files)
Empty == TLCEval([x \in {} |-> <<>>])

-----------------------------------------------------------------------------
(* The file: the number of entries (4 bytes), the lengths of each key and value,
   then the keys and values, each ended by a zero. *)
RECURSIVE Less(_, _, _)
Less(a, b, k) == IF k > Len(b) THEN FALSE ELSE IF k > Len(a) THEN TRUE
                 ELSE IF a[k] = b[k] THEN Less(a, b, k + 1) ELSE a[k] < b[k]
Long(n) == <<n \div 16777216, (n \div 65536) % 256, (n \div 256) % 256, n % 256>>
FileOf(es) ==
  Long(Len(es)) \o Flatten([k \in 1 .. Len(es) |-> <<Len(es[k][1]), Len(es[k][2])>>])
  \o Flatten([k \in 1 .. Len(es) |-> es[k][1] \o <<NUL>> \o es[k][2] \o <<NUL>>])
\* The entries of a file, if it is one.
Count4(f) == 16777216 * f[1] + 65536 * f[2] + 256 * f[3] + f[4]
IsFile(f) == Len(f) >= 4 /\ f[1] = 0 /\ f[2] = 0 /\ Len(f) >= 4 + 4 * Count4(f)
\* (one more entry, from the place the one before ended)
NextEntry(f, st, k) ==
  LET kl == f[3 + 2 * k]
      vl == f[4 + 2 * k]
  IN [at |-> st.at + kl + vl + 2, es |-> Append(st.es, <<SubSeq(f, st.at, st.at + kl - 1), SubSeq(f, st.at + kl + 1, st.at + kl + vl)>>)]
EntriesOf(f) == FoldSeqL(LAMBDA st, k : NextEntry(f, st, k), [at |-> 5 + 2 * Count4(f), es |-> <<>>], [k \in 1 .. Count4(f) |-> k]).es
DbOf(es) == TLCEval([x \in {es[k][1] : k \in DOMAIN es} |-> es[CHOOSE k \in DOMAIN es : es[k][1] = x][2]])
\* A file is the database's.
Ascending(es) == \A k \in 1 .. Len(es) - 1 : Less(es[k][1], es[k+1][1], 1)
Holds(f, db) ==
  /\ IsFile(f)
  /\ With(EntriesOf(f), LAMBDA es : FileOf(es) = f /\ Ascending(es) /\ {es[k] : k \in DOMAIN es} = {<<x, db[x]>> : x \in DOMAIN db})

-----------------------------------------------------------------------------
(* What a user of the database relies on, whatever was compiled before. *)
\* nothing special is left of a place defined after it, and the components lead to the last definition
Base(k) == Front(k)
IsForm(k) == Len(k) > 1 /\ Last(k) \in Rng(Classes) /\ Base(k)[Len(k) - 1] \in DigitsB
\* What matters of a list of definitions for one key is what comes after its place's last definition.
LastDef(defs, k) == LastIdx(1, Len(defs), LAMBDA j : defs[j][1] = k)
Wanted(defs, k) ==
  LET j == LastDef(defs, k)
  IN j # 0 /\ ~(IsForm(k) /\ \E m \in j + 1 .. Len(defs) : defs[m][1] = Base(k))
=============================================================================
