--------------------------------- MODULE Peg --------------------------------
(* What productions match: the denotation of every production at every      *)
(* position, in the three modes of the library.                              *)
(*   mode 0: position in the structural tokens  (advance_fltr_ptr)           *)
(*   mode 1: position in all tokens             (advance_token_ptr)          *)
(*   mode 2: offset in the text, no tokens      (advance_ptr)                *)
(* The context cx is [g, code, toks, flt, eof]: grammar, text, all tokens,   *)
(* and the indices (0-based) of the structural ones.                         *)
(* A result is Ok(next position, nodes), Un (not matched) or Inv (a final   *)
(* validation error); f is the furthest offset any terminal matched up to.  *)
(* A node is <<value, start, end, left bound, right bound, children>>, bounds*)
(* being -1 without tokens.                                                  *)
EXTENDS Grammar

Ok(x, c, f) == [t |-> 0, x |-> x, c |-> c, f |-> f, p |-> 0, s |-> ""]
Un(f) == [t |-> 1, x |-> 0, c |-> <<>>, f |-> f, p |-> 0, s |-> ""]
Inv(p, s, f) == [t |-> 2, x |-> 0, c |-> <<>>, f |-> f, p |-> p, s |-> s]
Far(r, f) == [r EXCEPT !.f = Max(@, f)]

TokenAt(cx, m, i) == IF m = 0 THEN cx.toks[cx.flt[i + 1] + 1] ELSE cx.toks[i + 1]
StartOf(cx, m, i) == IF m = 2 THEN i ELSE TokenAt(cx, m, i)[2]
RawOf(cx, m, i) == IF m = 0 THEN cx.flt[i + 1] ELSE IF m = 1 THEN i ELSE -1

Span(cx, m, v, i, x, c) ==
  <<v, StartOf(cx, m, i), StartOf(cx, m, x), RawOf(cx, m, i), RawOf(cx, m, x), c>>
Zero(cx, m, v, i) == Span(cx, m, v, i, i, <<>>)
NullValue == 0
Leaf(v, s, e, bl, br) == IF v < 0 THEN <<>> ELSE <<<<v, s, e, bl, br, <<>>>>>>

TokenLeaf(cx, m, v, i) ==
  LET l == TokenAt(cx, m, i) b == RawOf(cx, m, i)
  IN Ok(i + 1, Leaf(v, l[2], l[3], b, b + 1), l[3])
TextLeaf(v, i, e) == Ok(e, Leaf(v, i, e, -1, -1), e)

Terminal(cx, n, m, i) ==
  LET nd == cx.g[n] IN
  CASE nd.k = "tf" -> IF TokenAt(cx, m, i)[1] = nd.t THEN TokenLeaf(cx, m, nd.v, i) ELSE Un(0)
    [] nd.k = "tfs" -> LET k == IndexOfKey(nd.a, TokenAt(cx, m, i)[1], 1)
                       IN IF k = 0 THEN Un(0) ELSE TokenLeaf(cx, m, nd.a[k][2], i)
    [] nd.k = "eof" -> IF (m = 2 /\ i = Len(cx.code)) \/ (m # 2 /\ TokenAt(cx, m, i)[1] = cx.eof)
                       THEN Ok(i, Leaf(nd.v, Len(cx.code), Len(cx.code), RawOf(cx, m, i), RawOf(cx, m, i)), Len(cx.code))
                       ELSE Un(0)
    [] nd.k = "null" -> Ok(i, IF nd.v < 0 THEN <<>> ELSE <<Zero(cx, m, NullValue, i)>>, 0)
    [] nd.k = "cst" -> IF PrefixAt(cx.code, i, nd.s) THEN TextLeaf(nd.v, i, i + Len(nd.s)) ELSE Un(0)
    [] nd.k \in {"csts", "pun"} -> LET k == LongestLit(nd.a, cx.code, i)
                       IN IF k = 0 THEN Un(0) ELSE TextLeaf(nd.a[k][2], i, i + Len(nd.a[k][1]))
    [] nd.k = "re" -> LET e == MatchEnd(nd.re, cx.code, i)
                      IN IF e < 0 THEN Un(0) ELSE TextLeaf(nd.v, i, e)

(* User validation functions. *)
RECURSIVE FirstWith(_, _, _)
FirstWith(c, v, k) == IF k > Len(c) THEN 0 ELSE IF c[k][1] = v THEN k ELSE FirstWith(c, v, k + 1)
Validate(fn, r, code) ==
  LET c == r.c IN
  CASE fn.k = "ok" -> r
    [] fn.k = "min" -> IF Len(c) >= fn.n THEN r
                       ELSE Inv(IF c = <<>> THEN 0 ELSE c[1][2], fn.s, r.f)
    [] fn.k = "has" -> LET k == FirstWith(c, fn.v, 1) IN IF k = 0 THEN r ELSE Inv(c[k][2], fn.s, r.f)
    [] fn.k = "byte" -> IF c # <<>> /\ c[1][2] < Len(code) /\ code[c[1][2] + 1] = fn.b
                        THEN Inv(c[1][3], fn.s, r.f) ELSE r
    [] fn.k = "unmin" -> IF Len(c) >= fn.n THEN r ELSE Un(r.f)
    [] fn.k = "unhas" -> IF FirstWith(c, fn.v, 1) = 0 THEN r ELSE Un(r.f)

(* Raw position where a raw section begins; structural position following. *)
RawStart(cx, i) == IF i = 0 THEN 0 ELSE cx.flt[i] + 1
RECURSIVE CountBelow(_, _, _)
CountBelow(s, v, k) == IF k > Len(s) \/ s[k] >= v THEN k - 1 ELSE CountBelow(s, v, k + 1)
NextFltr(cx, i) == CountBelow(cx.flt, i, 1)

(* How a wrapper turns the result of its symbol into its own. *)
Wrap(cx, nd, m, i, r) ==
  CASE r.t # 0 /\ ~(nd.k = "nul" /\ r.t = 1) -> r
    [] nd.k = "nul" -> IF r.t = 0 THEN r
                       ELSE Ok(i, IF nd.h THEN <<>> ELSE <<Zero(cx, m, NullValue, i)>>, r.f)
    [] nd.k = "hid" -> [r EXCEPT !.c = <<>>]
    [] nd.k = "look" -> Ok(i, IF nd.v < 0 THEN <<>> ELSE <<Zero(cx, m, nd.v, i)>>, r.f)
    [] nd.k = "node" -> Ok(r.x, <<Span(cx, m, nd.v, i, r.x, r.c)>>, r.f)
    [] nd.k = "cache" -> r
    [] nd.k = "val" -> Validate(nd.fn, r, cx.code)
    [] nd.k = "ns" -> IF m # 0 THEN r
                      ELSE IF nd.fill /\ r.x # cx.flt[i + 1] THEN Un(r.f)
                      ELSE [r EXCEPT !.x = i]
    [] nd.k = "st" -> IF m # 1 THEN r
                      ELSE [r EXCEPT !.x = IF r.x > NextFltr(cx, i) THEN cx.flt[r.x] + 1 ELSE i]
(* Mode and position at which a wrapper tries its symbol. *)
InnerMode(nd, m) == IF nd.k = "ns" /\ m = 0 THEN 1 ELSE IF nd.k = "st" /\ m = 1 THEN 0 ELSE m
InnerPos(cx, nd, m, i) == IF nd.k = "ns" /\ m = 0 THEN RawStart(cx, i)
                          ELSE IF nd.k = "st" /\ m = 1 THEN NextFltr(cx, i) ELSE i

RECURSIVE D(_, _, _, _), DSeq(_, _, _, _, _, _, _), DAlt(_, _, _, _, _, _),
          DSuf(_, _, _, _, _, _), DRep(_, _, _, _, _, _), DSep(_, _, _, _, _, _)

(* a sequence, from its k-th symbol, at position x *)
DSeq(cx, a, k, m, x, c, f) ==
  IF k > Len(a) THEN Ok(x, c, f)
  ELSE LET r == D(cx, a[k], m, x) IN
    IF r.t = 0 THEN DSeq(cx, a, k + 1, m, r.x, c \o r.c, Max(f, r.f)) ELSE Far(r, f)

(* ordered choice, from the k-th alternative *)
DAlt(cx, a, k, m, i, f) ==
  IF k > Len(a) THEN Un(f)
  ELSE LET r == D(cx, a[k], m, i) IN
    IF r.t = 1 THEN DAlt(cx, a, k + 1, m, i, Max(f, r.f)) ELSE Far(r, f)

(* suffixes from the k-th, l being the result of the left symbol *)
DSuf(cx, nd, k, m, i, l) ==
  IF k > Len(nd.a) THEN (IF nd.st THEN l ELSE Un(l.f))
  ELSE LET r == D(cx, nd.a[k][1], m, l.x) IN
    CASE r.t = 0 -> Ok(r.x, <<Span(cx, m, nd.a[k][2], i, r.x, l.c \o r.c)>>, Max(l.f, r.f))
      [] r.t = 1 -> DSuf(cx, nd, k + 1, m, i, Far(l, r.f))
      [] OTHER -> Far(r, l.f)

(* one or more items; an item which consumes nothing is the last *)
DRep(cx, e, m, x, c, f) ==
  LET r == D(cx, e, m, x) IN
  CASE r.t = 0 -> IF r.x = x THEN Ok(x, c \o r.c, Max(f, r.f))
                  ELSE DRep(cx, e, m, r.x, c \o r.c, Max(f, r.f))
    [] r.t = 1 -> Ok(x, c, Max(f, r.f))
    [] OTHER -> Far(r, f)

(* after an item ending at x: (separator item)*, and a final separator if inclusive *)
DSep(cx, nd, m, x, c, f) ==
  LET s == D(cx, nd.s, m, x) IN
  CASE s.t = 2 -> Far(s, f)
    [] s.t = 1 -> Ok(x, c, Max(f, s.f))
    [] OTHER ->
      LET r == D(cx, nd.e, m, s.x)  f2 == Max(f, Max(s.f, r.f)) IN
      CASE r.t = 2 -> Far(r, f2)
        [] r.t = 1 -> IF nd.inc THEN Ok(s.x, c \o s.c, f2) ELSE Ok(x, c, f2)
        [] OTHER -> IF r.x = x THEN Ok(x, c \o s.c \o r.c, f2)
                    ELSE DSep(cx, nd, m, r.x, c \o s.c \o r.c, f2)

D(cx, n, m, i) ==
  LET nd == cx.g[n] IN
  CASE nd.k \in Terminals -> Terminal(cx, n, m, i)
    [] nd.k = "concat" -> DSeq(cx, nd.a, 1, m, i, <<>>, 0)
    [] nd.k = "union" -> DAlt(cx, nd.a, 1, m, i, 0)
    [] nd.k = "suf" -> LET l == D(cx, nd.l, m, i) IN IF l.t = 0 THEN DSuf(cx, nd, 1, m, i, l) ELSE l
    [] nd.k = "list" -> LET r == D(cx, nd.e, m, i) IN
         IF r.t # 0 \/ r.x = i THEN r ELSE DRep(cx, nd.e, m, r.x, r.c, r.f)
    [] nd.k = "sl" -> LET r == D(cx, nd.e, m, i) IN
         IF r.t # 0 THEN r ELSE DSep(cx, nd, m, r.x, r.c, r.f)
    [] OTHER -> Wrap(cx, nd, m, i, D(cx, nd.e, InnerMode(nd, m), InnerPos(cx, nd, m, i)))

(* As recorded from the implementation. *)
Proj(r) == CASE r.t = 0 -> <<0, r.x, r.c>> [] r.t = 1 -> <<1>> [] OTHER -> <<2, r.p, r.s>>
=============================================================================
