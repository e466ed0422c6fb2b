-------------------------------- MODULE Fold --------------------------------
LOCAL INSTANCE SequencesExt
\* op(... op(op(base, s[1]), s[2]) ..., s[n])
FoldSeqL(op(_, _), base, s) == FoldLeft(op, base, s)
=============================================================================
