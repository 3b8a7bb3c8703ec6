------------------------------- MODULE Regex -------------------------------
(* Anchored regular expressions with leftmost-first (backtracking) choice:   *)
(* Ends(r, code, p) is the sequence, in order of preference, of the offsets  *)
(* where a match of r starting at p can end.                                 *)
(*   [k |-> "lit", s |-> bytes]                                              *)
(*   [k |-> "cls", neg |-> BOOLEAN, set |-> code points]   one character     *)
(*   [k |-> "byt", neg |-> BOOLEAN, set |-> bytes]         one byte          *)
(*   [k |-> "seq", a |-> regexes]     [k |-> "alt", a |-> regexes]           *)
(*   [k |-> "rep", e |-> regex, lo |-> n, hi |-> n or -1, greedy |-> BOOLEAN]*)
EXTENDS Bytes

RECURSIVE AddNew(_, _)
AddNew(acc, s) ==
  IF s = <<>> THEN acc
  ELSE AddNew(IF \E k \in 1..Len(acc) : acc[k] = Head(s) THEN acc ELSE Append(acc, Head(s)), Tail(s))

RECURSIVE Ends(_, _, _), EndsSeq(_, _, _, _), EndsOver(_, _, _, _, _)
RECURSIVE EndsRep(_, _, _, _, _), EndsReps(_, _, _, _, _)

(* concatenation, without repetitions, of F applied to each element of ps *)
EndsOver(r, kk, code, ps, acc) ==
  IF ps = <<>> THEN acc
  ELSE EndsOver(r, kk, code, Tail(ps), AddNew(acc, EndsSeq(r, kk, code, Head(ps))))

EndsSeq(r, kk, code, p) ==
  IF kk > Len(r.a) THEN <<p>>
  ELSE EndsOver(r, kk + 1, code, TLCEval(Ends(r.a[kk], code, p)), <<>>)

(* kk iterations are done at p; the body never matches the empty text.       *)
(* st: <<the ends found, the visited>>. Arriving a second time at the same   *)
(* offset, with as many iterations still due or allowed, finds no new ends.  *)
EndsRep(r, kk, code, p, st) ==
  LET here == <<IF r.hi = -1 /\ kk > r.lo THEN r.lo ELSE kk, p>>
      Stop(x) == IF kk >= r.lo THEN <<AddNew(x[1], <<p>>), x[2]>> ELSE x
      More(x) == IF r.hi # -1 /\ kk >= r.hi THEN x ELSE EndsReps(r, kk + 1, code, TLCEval(Ends(r.e, code, p)), x)
      new == TLCEval(<<st[1], st[2] \cup {here}>>)
  IN IF here \in st[2] THEN st ELSE TLCEval(IF r.greedy THEN Stop(TLCEval(More(new))) ELSE More(TLCEval(Stop(new))))
EndsReps(r, kk, code, ps, st) ==
  IF ps = <<>> THEN st ELSE EndsReps(r, kk, code, Tail(ps), TLCEval(EndsRep(r, kk, code, Head(ps), st)))

Ends(r, code, p) ==
  CASE r.k = "lit" -> IF PrefixAt(code, p, r.s) THEN <<p + Len(r.s)>> ELSE <<>>
    [] r.k = "cls" -> LET d == Decode(code, p)
                          in == \E k \in 1..Len(r.set) : r.set[k] = d[1]
                      IN IF d[2] > 0 /\ in # r.neg THEN <<p + d[2]>> ELSE <<>>
    [] r.k = "byt" -> IF p < Len(code) /\ (\E k \in 1..Len(r.set) : r.set[k] = code[p + 1]) # r.neg
                      THEN <<p + 1>> ELSE <<>>
    [] r.k = "seq" -> EndsSeq(r, 1, code, p)
    [] r.k = "alt" -> LET RECURSIVE Alt(_, _)
                          Alt(kk, acc) == IF kk > Len(r.a) THEN acc
                                          ELSE Alt(kk + 1, AddNew(acc, Ends(r.a[kk], code, p)))
                      IN Alt(1, <<>>)
    [] r.k = "rep" -> EndsRep(r, 0, code, p, <<<<>>, {}>>)[1]

(* End of the preferred match at p, -1 when there is none. *)
MatchEnd(r, code, p) == LET es == Ends(r, code, p) IN IF es = <<>> THEN -1 ELSE es[1]
MatchesEmpty(r) == Ends(r, <<>>, 0) # <<>>
=============================================================================
