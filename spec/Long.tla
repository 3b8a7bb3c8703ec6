-------------------------------- MODULE Long --------------------------------
(* Line and column once more, for long texts. *)
EXTENDS Integers, Sequences
LOCAL INSTANCE SequencesExt
LongPosition(code, p) ==
  FoldLeft(LAMBDA a, b : IF b = 10 THEN <<a[1] + 1, 1>> ELSE <<a[1], a[2] + 1>>, <<1, 1>>, SubSeq(code, 1, p))
=============================================================================
