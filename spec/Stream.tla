------------------------------- MODULE Stream -------------------------------
(* Views of a token sequence: queries are <<name, argument, answer>> or      *)
(* <<name, answer>>; Answer gives what the answer must be.                   *)
EXTENDS Peg

RECURSIVE StartsBelow(_, _, _)
StartsBelow(toks, p, k) == IF k > Len(toks) \/ toks[k][2] >= p THEN k - 1 ELSE StartsBelow(toks, p, k + 1)

View(toks, flt) == [k \in 1..Len(flt) |-> toks[flt[k] + 1]]
Part(s, a, z) == SubSeq(s, a + 1, z)
(* an exact lookup, or the next position *)
Look(s, v) == LET k == CountBelow(s, v, 1) IN
              IF k < Len(s) /\ s[k + 1] = v THEN <<1, k>> ELSE <<0, k>>
LookTok(toks, p) == LET k == StartsBelow(toks, p, 1) IN
                    <<IF toks[k + 1][2] = p THEN 1 ELSE 0, toks[k + 1]>>

Known == {"len", "eos", "iter", "seg", "hasat", "get", "iterat", "last", "tokptr", "ptr", "idx",
          "iseos", "range", "rawat", "rawrange", "find", "findp", "rawidx", "raweos", "fat", "lexat", "fdat", "pairs"}
Answer(toks, code, flt, eof, q) ==
  LET v == View(toks, flt)
      a == IF Len(q) = 3 THEN q[2] ELSE 0
  IN
  CASE q[1] = "len" -> Len(flt)
    [] q[1] = "eos" -> toks[Len(toks)][3]
    [] q[1] = "iter" -> v
    [] q[1] = "seg" -> toks
    [] q[1] = "pairs" -> [k \in 1..Len(toks) |-> <<toks[k][1], Part(code, toks[k][2], toks[k][3])>>]
    [] q[1] = "hasat" -> a < Len(flt)
    [] q[1] = "get" -> IF a < Len(flt) THEN v[a + 1] ELSE <<>>
    [] q[1] = "iterat" -> Part(v, a, Len(v))
    [] q[1] = "last" -> IF a = 0 THEN -1 ELSE flt[a]
    [] q[1] = "tokptr" -> flt[a + 1]
    [] q[1] = "ptr" -> v[a + 1][2]
    [] q[1] = "idx" -> v[a + 1]
    [] q[1] = "iseos" -> v[a + 1][1] = eof
    [] q[1] = "range" -> Part(v, a[1], a[2])
    [] q[1] = "rawat" -> Part(toks, a, Len(toks))
    [] q[1] = "rawrange" -> Part(toks, a[1], a[2])
    [] q[1] \in {"find", "findp"} -> Look(flt, a)
    [] q[1] = "rawidx" -> toks[a + 1]
    [] q[1] = "raweos" -> toks[a + 1][1] = eof
    [] q[1] = "fat" -> Look([k \in 1..Len(v) |-> v[k][2]], a)
    [] q[1] = "lexat" -> LookTok(toks, a)
    [] q[1] = "fdat" -> LookTok(v, a)

(* The two views are consistent: converting there and back is the identity, *)
(* and an inexact position is that of the next structural token.             *)
Consistent(toks, flt) ==
  /\ \A k \in 0..(Len(flt) - 1) : Look(flt, flt[k + 1]) = <<1, k>>
  /\ \A p \in 0..(Len(toks) - 1) :
       LET l == Look(flt, p) IN
       /\ l[2] < Len(flt) => flt[l[2] + 1] >= p
       /\ l[2] > 0 => flt[l[2]] < p
       /\ l[1] = 1 <=> \E k \in 1..Len(flt) : flt[k] = p
=============================================================================
