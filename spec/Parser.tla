------------------------------- MODULE Parser -------------------------------
(* Whole parsers: outcome of parsing a text, error reports, debug parsing.   *)
(* An outcome is <<0, nodes>> or <<1, offset, line, column, class, shown>>,  *)
(* class being "lex", "eof" (unexpected end), "tok" (unexpected token, with  *)
(* its text), "chr" (unexpected character) or the message of a validation.   *)
EXTENDS Peg

(* UTF-8 text of a slice, invalid parts replaced by U+FFFD. *)
BadLen(c, p) ==
  LET b == c[p + 1]
      in2(lo, hi) == p + 1 < Len(c) /\ c[p + 2] >= lo /\ c[p + 2] <= hi
      second == CASE b = 224 -> in2(160, 191)
                  [] b = 237 -> in2(128, 159)
                  [] b >= 225 /\ b <= 239 -> in2(128, 191)
                  [] b = 240 -> in2(144, 191)
                  [] b >= 241 /\ b <= 243 -> in2(128, 191)
                  [] b = 244 -> in2(128, 143)
                  [] OTHER -> FALSE
  IN IF ~second THEN 1 ELSE IF b >= 240 /\ Cont(c, p, 2) THEN 3 ELSE 2
RECURSIVE LossyFrom(_, _)
LossyFrom(c, p) ==
  IF p >= Len(c) THEN <<>>
  ELSE LET d == Decode(c, p) IN
    IF d[2] > 0 THEN Slice(c, p, p + d[2]) \o LossyFrom(c, p + d[2])
    ELSE <<239, 191, 189>> \o LossyFrom(c, p + BadLen(c, p))
Lossy(c) == LossyFrom(c, 0)
FirstChar(code, p) == LET d == Decode(code, p) IN
                      IF d[2] > 0 THEN Slice(code, p, p + d[2]) ELSE <<239, 191, 189>>

Structural(toks, ns) == SelectSeq([k \in 1..Len(toks) |-> k - 1],
                                  LAMBDA k : \A j \in 1..Len(ns) : ns[j] # toks[k + 1][1])

Context(g, code, toks, ns, eof) ==
  [g |-> g, code |-> code, toks |-> toks, flt |-> Structural(toks, ns), eof |-> eof]
TextContext(g, code, eof) == [g |-> g, code |-> code, toks |-> <<>>, flt |-> <<>>, eof |-> eof]

Report(code, p, cls, shown) == <<1, p, Line(code, p), Column(code, p), cls, shown>>

(* Index of the first structural token starting at or after an offset. *)
RECURSIVE AtOrAfter(_, _, _)
AtOrAfter(cx, off, k) ==
  IF k >= Len(cx.flt) \/ TokenAt(cx, 0, k)[2] >= off THEN k ELSE AtOrAfter(cx, off, k + 1)

(* What a furthest offset blames: a byte, or a structural token. *)
Blame(cx, m, far) == IF m = 2 THEN far ELSE AtOrAfter(cx, far, 0)
TokenFailure(cx, far) ==
  LET k == AtOrAfter(cx, far, 0) IN
  IF k >= Len(cx.flt) THEN Report(cx.code, Len(cx.code), "eof", <<>>)
  ELSE LET l == TokenAt(cx, 0, k) IN
       IF l[1] = cx.eof THEN Report(cx.code, l[2], "eof", <<>>)
       ELSE Report(cx.code, l[2], "tok", Lossy(Slice(cx.code, l[2], l[3])))
TextFailure(cx, far) ==
  IF far = Len(cx.code) THEN Report(cx.code, far, "eof", <<>>)
  ELSE Report(cx.code, far, "chr", FirstChar(cx.code, far))

Outcome(cx, m, r, far) ==
  CASE r.t = 0 -> <<0, r.c>>
    [] r.t = 2 -> Report(cx.code, r.p, r.s, <<>>)
    [] OTHER -> IF m = 2 THEN TextFailure(cx, far) ELSE TokenFailure(cx, far)

(* Parsing a text from its beginning. *)
Parse(cx, root, m) == LET r == D(cx, root, m, 0) IN Outcome(cx, m, r, r.f)
(* Debug parsing of a production from an offset. *)
DebugParse(cx, n, m, off) ==
  LET r == D(cx, n, m, IF m = 2 THEN off ELSE AtOrAfter(cx, off, 0))
  IN Outcome(cx, m, r, Max(off, r.f))

LexFailure(code, p) == Report(code, p, "lex", <<>>)
ParseText(g, def, ns, eof, root, code) ==
  LET lx == Tokenize(def, eof, code) IN
  IF lx[1] = 1 THEN LexFailure(code, lx[2])
  ELSE Parse(Context(g, code, lx[2], ns, eof), root, 0)

(* Spans of the nodes of a tree: leaves and composite nodes. *)
RECURSIVE Spanned(_, _)
Spanned(cx, nd) ==
  /\ nd[2] <= nd[3] /\ nd[2] >= 0 /\ nd[3] <= Len(cx.code)
  /\ nd[4] <= nd[5] /\ nd[4] < Max(1, Len(cx.toks)) /\ nd[5] <= Len(cx.toks)
  /\ nd[4] >= 0 => nd[2] = cx.toks[nd[4] + 1][2]
  (* a leaf ends where its token ends, any other node where the next begins *)
  /\ nd[4] >= 0 => \/ nd[6] = <<>> /\ nd[5] = nd[4] + 1 /\ nd[3] = cx.toks[nd[4] + 1][3]
                   \/ nd[5] < Len(cx.toks) /\ nd[3] = cx.toks[nd[5] + 1][2]
  /\ \A k \in 1..Len(nd[6]) : Spanned(cx, nd[6][k])
(* Siblings in order, within their parent (grammars without raw sections). *)
RECURSIVE Nested(_)
Nested(nd) ==
  /\ \A k \in 1..Len(nd[6]) : nd[6][k][2] >= nd[2] /\ nd[6][k][3] <= nd[3] /\ Nested(nd[6][k])
  /\ \A k \in 1..(Len(nd[6]) - 1) : nd[6][k][3] <= nd[6][k + 1][2]

(* A tree seen through structural tokens only: values, and the numbers of   *)
(* the structural tokens it begins with and stops at.                        *)
RECURSIVE Shape(_, _)
Shape(flt, nd) == <<nd[1], CountBelow(flt, nd[4], 1), CountBelow(flt, nd[5], 1),
                    [k \in 1..Len(nd[6]) |-> Shape(flt, nd[6][k])]>>
(* an error: what it is, and how many structural tokens precede it *)
ShapeOf(flt, toks, out) ==
  IF out[1] = 0 THEN <<0, [k \in 1..Len(out[2]) |-> Shape(flt, out[2][k])]>>
  ELSE IF out[1] = 1 THEN <<1, out[5], Len(SelectSeq(flt, LAMBDA k : toks[k + 1][2] < out[2]))>>
  ELSE out
(* A tree without token bounds. *)
RECURSIVE Bare(_)
Bare(nd) == <<nd[1], nd[2], nd[3], [k \in 1..Len(nd[6]) |-> Bare(nd[6][k])]>>
BareOf(out) == IF out[1] = 0 THEN <<0, [k \in 1..Len(out[2]) |-> Bare(out[2][k])]>>
               ELSE IF out[1] = 1 THEN <<1, out[2], out[3], out[4]>> ELSE <<9>>
=============================================================================
