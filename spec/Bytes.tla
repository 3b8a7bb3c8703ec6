------------------------------- MODULE Bytes -------------------------------
(* Texts are sequences of bytes; offsets ("pointers") are 0-based, as in the *)
(* library: the byte at offset p is code[p+1].                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Max(a, b) == IF a >= b THEN a ELSE b
Min(a, b) == IF a <= b THEN a ELSE b
Slice(code, s, e) == SubSeq(code, s + 1, e)

PrefixAt(code, p, lit) ==
  /\ p + Len(lit) <= Len(code)
  /\ \A k \in 1..Len(lit) : code[p + k] = lit[k]

(* Line and column of an offset: line feeds before it, bytes since the last. *)
RECURSIVE LineStart(_, _)
LineStart(code, p) == IF p = 0 THEN 0
                      ELSE IF code[p] = 10 THEN p ELSE LineStart(code, p - 1)
RECURSIVE Breaks(_, _)
Breaks(code, p) == IF p = 0 THEN 0
                   ELSE Breaks(code, p - 1) + (IF code[p] = 10 THEN 1 ELSE 0)
Line(code, p) == 1 + Breaks(code, p)
Column(code, p) == p - LineStart(code, p) + 1
Position(code, p) == <<Line(code, p), Column(code, p)>>
(* UTF-8: <<code point, length>> of the character at offset p, length 0 when *)
(* there is no valid one.                                                    *)
Cont(code, p, k) == p + k < Len(code) /\ code[p + k + 1] >= 128 /\ code[p + k + 1] <= 191
CB(code, p, k) == code[p + k + 1] - 128
Decode(code, p) ==
  IF p >= Len(code) THEN <<-1, 0>>
  ELSE LET b == code[p + 1] IN
    IF b < 128 THEN <<b, 1>>
    ELSE IF b >= 194 /\ b <= 223 /\ Cont(code, p, 1)
      THEN <<(b - 192) * 64 + CB(code, p, 1), 2>>
    ELSE IF b >= 224 /\ b <= 239 /\ Cont(code, p, 1) /\ Cont(code, p, 2)
      THEN LET c == (b - 224) * 4096 + CB(code, p, 1) * 64 + CB(code, p, 2)
           IN IF c >= 2048 /\ ~(c >= 55296 /\ c <= 57343) THEN <<c, 3>> ELSE <<-1, 0>>
    ELSE IF b >= 240 /\ b <= 244 /\ Cont(code, p, 1) /\ Cont(code, p, 2) /\ Cont(code, p, 3)
      THEN LET c == (b - 240) * 262144 + CB(code, p, 1) * 4096 + CB(code, p, 2) * 64 + CB(code, p, 3)
           IN IF c >= 65536 /\ c <= 1114111 THEN <<c, 4>> ELSE <<-1, 0>>
    ELSE <<-1, 0>>

SeqMax(s) == LET RECURSIVE M(_)
                 M(k) == IF k = 0 THEN 0 ELSE Max(s[k], M(k - 1))
             IN M(Len(s))
ToSetOf(s) == {s[k] : k \in 1..Len(s)}
=============================================================================
