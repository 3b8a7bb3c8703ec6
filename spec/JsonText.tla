------------------------------ MODULE JsonText ------------------------------
(* The texts the shipped JSON parsers accept and the trees they build, from  *)
(* the definition of JSON: a recursive descent over bytes, independent of    *)
(* the grammars of the library. A result is <<1, next offset, nodes>> or     *)
(* <<0>>; a node is <<name, start, end, children>>.                          *)
(* Liberties: a trailing comma, leading zeros, any white space of Unicode,   *)
(* any escape and control characters but line breaks within strings (line    *)
(* breaks after a backslash, surrounded by blanks, are line continuations).  *)
EXTENDS Regex

SpaceSet == {9, 10, 11, 12, 13, 32, 133, 160, 5760, 8232, 8233, 8239, 8287, 12288} \cup (8192..8202)
RECURSIVE SkipWs(_, _)
SkipWs(c, p) == LET d == Decode(c, p) IN
                IF d[2] > 0 /\ d[1] \in SpaceSet THEN SkipWs(c, p + d[2]) ELSE p
IsDigit(c, p) == p < Len(c) /\ c[p + 1] >= 48 /\ c[p + 1] <= 57
RECURSIVE Digits(_, _)
Digits(c, p) == IF IsDigit(c, p) THEN Digits(c, p + 1) ELSE p
IsByte(c, p, b) == p < Len(c) /\ c[p + 1] = b
NumEnd(c, p) ==
  LET a == Digits(c, p)
      f == IF IsByte(c, a, 46) /\ IsDigit(c, a + 1) THEN Digits(c, a + 1) ELSE a
      s == IF IsByte(c, f, 101) \/ IsByte(c, f, 69)
           THEN (IF IsByte(c, f + 1, 43) \/ IsByte(c, f + 1, 45) THEN f + 2 ELSE f + 1) ELSE f
  IN IF a = p THEN -1 ELSE IF s > f /\ IsDigit(c, s) THEN Digits(c, s) ELSE f
Word(c, p) == CASE PrefixAt(c, p, <<116, 114, 117, 101>>) -> p + 4
                [] PrefixAt(c, p, <<102, 97, 108, 115, 101>>) -> p + 5
                [] PrefixAt(c, p, <<110, 117, 108, 108>>) -> p + 4
                [] OTHER -> -1
(* blanks: white space but line breaks *)
RECURSIVE SkipBlank(_, _)
SkipBlank(c, p) == LET d == Decode(c, p) IN
                   IF d[2] > 0 /\ d[1] \in SpaceSet \ {10, 13} THEN SkipBlank(c, p + d[2]) ELSE p
(* offsets where the characters of a string, from p, may be followed by its  *)
(* end; a backslash begins an escape or a line continuation                  *)
RECURSIVE StrEnd(_, _)
StrEnd(c, p) ==
  LET d == Decode(c, p) IN
  IF d[2] = 0 \/ d[1] \in {10, 13} THEN -1
  ELSE IF d[1] = 34 THEN p + 1
  ELSE IF d[1] # 92 THEN StrEnd(c, p + d[2])
  ELSE LET q == SkipBlank(c, p + 1)
           e == Decode(c, p + 1)
           cont == IF IsByte(c, q, 10) \/ IsByte(c, q, 13)
                   THEN StrEnd(c, SkipBlank(c, q + 1)) ELSE -1
       IN IF cont # -1 THEN cont
          ELSE IF e[2] > 0 /\ e[1] # 10 THEN StrEnd(c, p + 1 + e[2]) ELSE -1
StringEnd(c, p) == IF IsByte(c, p, 34) THEN StrEnd(c, p + 1) ELSE -1

NullNode(p) == <<"NULL", p, p, <<>>>>
RECURSIVE JValue(_, _), JItems(_, _, _, _, _)
(* items of an object or array from p (white space skipped), closed by b;    *)
(* <<1, offset after the closing bracket, nodes>>                            *)
JItem(c, p, obj) ==
  IF ~obj THEN JValue(c, p)
  ELSE LET k == StringEnd(c, p)
           q == IF k = -1 THEN -1 ELSE SkipWs(c, k)
       IN IF k = -1 \/ ~IsByte(c, q, 58) THEN <<0>>
          ELSE LET v == JValue(c, SkipWs(c, q + 1)) IN
               IF v[1] = 0 THEN <<0>>
               ELSE <<1, v[2], <<<<"Item", p, v[2], <<<<"Key", p, k, <<>>>>>> \o v[3]>>>>>>
JItems(c, p, obj, b, acc) ==
  IF acc # <<>> /\ IsByte(c, p, b) THEN <<1, p + 1, acc>>
  ELSE LET r == JItem(c, p, obj) IN
    IF r[1] = 0 THEN <<0>>
    ELSE LET q == SkipWs(c, r[2]) IN
      IF IsByte(c, q, b) THEN <<1, q + 1, acc \o r[3]>>
      ELSE IF IsByte(c, q, 44) THEN JItems(c, SkipWs(c, q + 1), obj, b, acc \o r[3])
      ELSE <<0>>
JBody(c, p, obj, b) ==
  LET q == SkipWs(c, p) IN
  IF IsByte(c, q, b) THEN <<1, q + 1, <<NullNode(q)>>>> ELSE JItems(c, q, obj, b, <<>>)
JValue(c, p) ==
  LET leaf(name, e) == IF e = -1 THEN <<0>> ELSE <<1, e, <<<<name, p, e, <<>>>>>>>>
      wrap(name, r) == IF r[1] = 0 THEN <<0>> ELSE <<1, r[2], <<<<name, p, r[2], r[3]>>>>>>
  IN CASE IsByte(c, p, 34) -> leaf("String", StringEnd(c, p))
       [] IsByte(c, p, 123) -> wrap("Object", JBody(c, p + 1, TRUE, 125))
       [] IsByte(c, p, 91) -> wrap("Array", JBody(c, p + 1, FALSE, 93))
       [] IsDigit(c, p) -> leaf("Number", NumEnd(c, p))
       [] OTHER -> leaf("Constant", Word(c, p))
(* <<1, start of the value, nodes>> of a whole text, or <<0>> *)
JText(c) ==
  LET p == SkipWs(c, 0)
      v == JValue(c, p)
  IN IF v[1] = 0 \/ SkipWs(c, v[2]) # Len(c) THEN <<0>> ELSE <<1, p, v[3]>>
=============================================================================
