------------------------------- MODULE Outcome -------------------------------
(* How every run of the five programs ends: the command line is read argument
   by argument, then the program does its work; the exit status is that of the
   outcome, whatever the bytes of the input and whatever else was asked for.

   A record of runs.json:
     prog   program            args   its arguments
     files  the files it may name: <<[name, kind, text]>>, kind file/dir
     text   standard input, a sequence of characters
     big    the input is too big to be evaluated here: any verdict will do
     rc     exit status        bad    it crashed, or broke a memory rule  *)
EXTENDS Lexer, Preproc, Compound, LR

Runs == TLCEval(JsonDeserialize("runs.json"))
VARIABLES i, phase, k, opt
vars == <<i, phase, k, opt>>
r == Runs[i]
Opt0 == [file |-> "", named |-> FALSE, re |-> FALSE, words |-> 0, end |-> {}]

Init == i \in 1 .. Len(Runs) /\ phase = "args" /\ k = 1 /\ opt = Opt0

Starts(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
Go(o) == k' = k + 1 /\ opt' = o /\ UNCHANGED <<i, phase>>
Go2(o) == k' = k + 2 /\ opt' = o /\ UNCHANGED <<i, phase>>
End(S) == phase' = "ended" /\ opt' = [opt EXCEPT !.end = S] /\ UNCHANGED <<i, k>>
Name(a) == [opt EXCEPT !.file = a, !.named = TRUE]

Flags == {"-d", "-k", "-g", "-t", "-tf", "-l", "-x", "-H", "-b", "-m", "-ie", "-se", "-sev", "-cr", "-bt", "-dd"}
JbofiheArg(a) ==
  IF a = "-v" \/ a \in {"--help", "-h", "-?"} THEN End({0})
  ELSE IF a = "-re" THEN Go([opt EXCEPT !.re = TRUE])
  ELSE IF a \in Flags THEN Go(opt)
  ELSE IF a = "-w" THEN (IF k = Len(r.args) THEN End({1}) ELSE Go2(opt))
  ELSE IF Starts(a, "-w") THEN Go(opt)
  ELSE IF Starts(a, "-") THEN End({1})
  ELSE Go(Name(a))

CmafiheArg(a) ==
  IF a \in {"-v", "-h", "--help"} THEN End({0})
  ELSE IF a \in {"-l", "-b"} THEN Go(opt)
  ELSE IF a = "-w" THEN (IF k = Len(r.args) THEN End({1}) ELSE Go2(opt))
  ELSE Go(Name(a))

JvoArg(a) ==
  IF a = "-v" THEN End({0})
  ELSE IF a \in {"-a", "-l", "-b", "-S", "-A", "-R", "-q"} THEN Go(opt)
  ELSE IF Starts(a, "-") THEN End({1})
  ELSE IF opt.words = 49 THEN End({1})
  ELSE Go([opt EXCEPT !.words = @ + 1])

SmujajgauArgs ==
  IF Len(r.args) >= 1 /\ r.args[1] = "-v" THEN End({0})
  ELSE IF Len(r.args) < 2 THEN End({1})
  ELSE LET db == SelectSeq(r.files, LAMBDA f : f.name = r.args[1])
       IN End({IF db # <<>> /\ db[1].kind \in {"dir", "junk"} THEN 1 ELSE 0})

ArgStep ==
  /\ phase = "args" /\ k <= Len(r.args) /\ r.prog \in {"jbofihe", "cmafihe", "jvocuhadju", "vlatai"}
  /\ CASE r.prog = "jbofihe" -> JbofiheArg(r.args[k])
       [] r.prog = "cmafihe" -> CmafiheArg(r.args[k])
       [] r.prog = "jvocuhadju" -> JvoArg(r.args[k])
       [] OTHER -> Go(opt)

\* What a text comes to: 3 bad words, 1 or 2 rejected, 0 accepted.
Verdict(text, full) ==
  LET lx == Lex(text) IN
  IF lx.msgs # <<>> THEN {3}
  ELSE LET z == HandleZo(lx.toks) IN IF z.m # <<>> THEN {1}
  ELSE LET u == HandleLohu(z.t) IN IF u.m # <<>> THEN {1}
  ELSE LET ze == HandleZei(HandleSu(HandleSa(HandleSi(u.t).t)))
           bu == HandleBu(HandleBahe(ze.t))
       IN IF ze.m \o bu.m # <<>> THEN {3}
  ELSE IF Parse(IF full THEN LrFull ELSE LrNorm, Categorize(HandleIndicators(bu.t)), FALSE).res = "ok" THEN {0} ELSE {1, 2}

WorkStep ==
  /\ phase = "args"
  /\ \/ /\ r.prog = "smujajgau" /\ SmujajgauArgs
     \/ /\ r.prog # "smujajgau" /\ k > Len(r.args)
        /\ \E f \in {SelectSeq(r.files, LAMBDA x : x.name = opt.file)} : LET
               text == IF ~opt.named THEN r.text ELSE IF f[1].kind = "dir" THEN <<>> ELSE f[1].text
           IN IF r.prog \in {"jbofihe", "cmafihe"} /\ opt.named /\ f = <<>> THEN End({1})
              ELSE CASE r.prog = "vlatai" -> End({0})
                     [] r.prog = "cmafihe" -> End(IF opt.named /\ f[1].kind = "dir" THEN {1, 2} ELSE {0})   \* nothing to be read there
                     [] r.prog = "jvocuhadju" -> End(IF opt.words < 2 THEN {1} ELSE {0, 1})
                     [] r.prog = "jbofihe" -> IF r.big THEN End({0, 1, 2, 3}) ELSE End(Verdict(text, opt.re))

\* The run really ended that way.
CheckStep ==
  /\ phase = "ended"
  /\ IF r.rc \in opt.end /\ ~r.bad THEN phase' = "ok"
     ELSE phase' = "bad" /\ PrintT("MISMATCH " \o ToJson([i |-> i, end |-> opt.end]))
  /\ UNCHANGED <<i, k, opt>>

Next == ArgStep \/ WorkStep \/ CheckStep
=============================================================================
