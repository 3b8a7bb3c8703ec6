------------------------------- MODULE Lexer -------------------------------
(* What lexemes match and what the tokenizers produce.                       *)
(* A tokenizer is [k |-> "plain"|"comb", dflt |-> state,                     *)
(*                 states |-> sequence of <<state, sequence of lexemes>>].   *)
(* A token is <<token value, start, end>>.                                   *)
EXTENDS Regex

NoTok == -999   \* "no token produced so far", as seen by user functions

Hit(t, s, e, st) == [h |-> TRUE, t |-> t, s |-> s, e |-> e, st |-> st, pan |-> FALSE]
Miss(st) == [h |-> FALSE, t |-> 0, s |-> 0, e |-> 0, st |-> st, pan |-> FALSE]
Panic(st) == [h |-> FALSE, t |-> 0, s |-> 0, e |-> 0, st |-> st, pan |-> TRUE]

(* Index of the longest literal of f which is a prefix of code at p, or 0. *)
RECURSIVE Longest(_, _, _, _, _)
Longest(f, code, p, k, best) ==
  IF k > Len(f) THEN best
  ELSE Longest(f, code, p, k + 1,
         IF PrefixAt(code, p, f[k][1]) /\ (best = 0 \/ Len(f[k][1]) > Len(f[best][1]))
         THEN k ELSE best)
LongestLit(f, code, p) == Longest(f, code, p, 1, 0)

RECURSIVE IndexOfKey(_, _, _)
IndexOfKey(f, key, k) == IF k > Len(f) THEN 0
                         ELSE IF f[k][1] = key THEN k ELSE IndexOfKey(f, key, k + 1)

(* User functions of the decorators: pure functions of the match, the text   *)
(* and the tokens produced so far.                                           *)
LastTok(ts) == IF ts = <<>> THEN <<NoTok, 0, 0>> ELSE ts[Len(ts)]
ByteAt(code, p) == IF 0 <= p /\ p < Len(code) THEN code[p + 1] ELSE -1
Seen(fn, code, ts) ==
  CASE fn.k = "true"    -> TRUE
    [] fn.k \in {"false", "never"} -> FALSE
    [] fn.k = "prev"    -> LastTok(ts)[1] = fn.t
    [] fn.k = "prevnot" -> LastTok(ts)[1] # fn.t
    [] fn.k = "first"   -> ts # <<>> /\ ts[1][1] = fn.t
    [] fn.k = "any"     -> \E k \in 1..Len(ts) : ts[k][1] = fn.t
    [] fn.k = "prevlen" -> LastTok(ts)[3] - LastTok(ts)[2] >= fn.n
    [] fn.k = "count"   -> Len(ts) >= fn.n
    [] fn.k = "few"     -> Len(ts) < fn.n
    [] fn.k = "codelen" -> Len(code) >= fn.n
    [] fn.k = "head"    -> ByteAt(code, 0) = fn.b
    [] fn.k = "tail"    -> ByteAt(code, Len(code) - 1) = fn.b
SeenMatch(fn, r, code, ts) ==
  CASE fn.k = "len"   -> r.e - r.s >= fn.n
    [] fn.k = "byte"  -> ByteAt(code, r.s) = fn.b
    [] fn.k = "is"    -> r.t = fn.t
    [] fn.k = "next"  -> ByteAt(code, r.e) = fn.b
    [] fn.k = "rest"  -> Len(code) - r.e >= fn.n
    [] fn.k = "before" -> r.s > 0 /\ code[r.s] = fn.b
    [] fn.k = "start" -> r.s >= fn.n
    [] fn.k = "gap"   -> LastTok(ts)[3] < r.s
    [] OTHER          -> Seen(fn, code, ts)
ThunkToken(fn, r, code, ts) == IF SeenMatch(fn, r, code, ts) THEN fn.to ELSE r.t
ThunkAction(fn, r, code, ts) ==
  IF fn.k = "tok" THEN LET k == IndexOfKey(fn.a, r.t, 1) IN IF k = 0 THEN fn.other ELSE fn.a[k][2]
  ELSE IF SeenMatch(fn, r, code, ts) THEN fn.then ELSE fn.other

(* Perform a state action on the stack; a discarded match is no match. *)
Perform(r, act) ==
  LET st == CASE act.k = "none"   -> r.st
              [] act.k = "append" -> Append(r.st, act.s)
              [] act.k = "switch" -> IF r.st = <<>> THEN <<act.s>>
                                     ELSE [r.st EXCEPT ![Len(r.st)] = act.s]
              [] act.k = "pop"    -> IF r.st = <<>> THEN <<>> ELSE SubSeq(r.st, 1, Len(r.st) - 1)
  IN IF act.k = "pop" /\ r.st = <<>> THEN Panic(r.st)
     ELSE IF act.d THEN Miss(st) ELSE [r EXCEPT !.st = st]

RECURSIVE Consume(_, _, _, _, _)
Consume(lx, code, p, ts, st) ==
  CASE lx.k = "pat" ->
         LET e == MatchEnd(lx.re, code, p) IN IF e > p THEN Hit(lx.t, p, e, st) ELSE Miss(st)
    [] lx.k \in {"punc", "const"} ->
         LET k == LongestLit(lx.f, code, p)
         IN IF k = 0 THEN Miss(st) ELSE Hit(lx.f[k][2], p, p + Len(lx.f[k][1]), st)
    [] lx.k = "map" ->
         LET r == Consume(lx.e, code, p, ts, st)
             k == IF r.h THEN IndexOfKey(lx.f, Slice(code, r.s, r.e), 1) ELSE 0
         IN IF k = 0 THEN r ELSE [r EXCEPT !.t = lx.f[k][2]]
    [] lx.k = "tmap" ->
         LET r == Consume(lx.e, code, p, ts, st)
         IN IF r.h THEN [r EXCEPT !.t = ThunkToken(lx.fn, r, code, ts)] ELSE r
    [] lx.k = "mw" ->
         IF Seen(lx.fn, code, ts) THEN Consume(lx.e, code, p, ts, st) ELSE Miss(st)
    [] lx.k = "smix" ->
         LET r == Consume(lx.e, code, p, ts, st)
             k == IF r.h THEN IndexOfKey(lx.a, r.t, 1) ELSE 0
         IN IF k = 0 THEN r ELSE Perform(r, lx.a[k][2])
    [] lx.k = "tmix" ->
         LET r == Consume(lx.e, code, p, ts, st)
         IN IF r.h THEN Perform(r, ThunkAction(lx.fn, r, code, ts)) ELSE r

StateIndex(def, s) == IndexOfKey(def.states, s, 1)
TopState(def, st) == IF def.k = "plain" \/ st = <<>> THEN def.dflt ELSE st[Len(st)]

(* The first lexeme, from index li, which yields a token at p. *)
RECURSIVE FirstHit(_, _, _, _, _, _)
FirstHit(lxs, li, code, p, toks, st) ==
  IF li > Len(lxs) THEN Miss(st)
  ELSE LET r == Consume(lxs[li], code, p, toks, st)
       IN IF r.h \/ r.pan THEN r ELSE FirstHit(lxs, li + 1, code, p, toks, r.st)

(* <<0, tokens>>, <<1, offset>> when no lexeme matches, <<3>> for a user    *)
(* error (pop of an empty stack, or switching to a state without lexemes).  *)
RECURSIVE TokenizeFrom(_, _, _, _, _, _)
TokenizeFrom(def, eof, code, p, toks, st) ==
  LET si == StateIndex(def, TopState(def, st)) IN
  IF si = 0 THEN <<3>>
  ELSE LET r == FirstHit(def.states[si][2], 1, code, p, toks, st) IN
    IF r.pan THEN <<3>>
    ELSE IF ~r.h THEN <<1, p>>
    ELSE LET ts == Append(toks, <<r.t, r.s, r.e>>)
         IN IF r.e = Len(code) THEN <<0, Append(ts, <<eof, r.e, r.e>>)>>
            ELSE TokenizeFrom(def, eof, code, r.e, ts, r.st)
Tokenize(def, eof, code) ==
  IF code = <<>> THEN <<0, <<<<eof, 0, 0>>>>>>
  ELSE TokenizeFrom(def, eof, code, 0, <<>>, <<>>)

(* A part of a text, [px, px+py), repeated pn more times: what becomes of the *)
(* outcome x of the tokenizer. The tokens of the part are repeated when it   *)
(* begins and ends between tokens; a token which covers it grows. Holds for  *)
(* tokenizers whose lexemes see neither the number of tokens nor a bounded   *)
(* number of repetitions, when x is for three or more of them.               *)
Shifted(t, d) == <<t[1], t[2] + d, t[3] + d>>
Pumped(x, code, px, py, pn) ==
  IF x[1] # 0 THEN IF x[2] < px + py THEN <<1, x[2]>> \o Position(code, x[2]) ELSE
    LET lf == Breaks(code, px + py) - Breaks(code, px)
        before == LineStart(code, x[2]) <= px  \* of the last line
    IN <<1, x[2] + pn * py, Line(code, x[2]) + pn * lf,
         IF lf = 0 /\ before THEN Column(code, x[2]) + pn * py ELSE Column(code, x[2])>>
  ELSE LET T == x[2]
           B == {T[k][3] : k \in 1..Len(T)} \cup {0}
           a == SelectSeq(T, LAMBDA t : t[3] <= px)
           b == SelectSeq(T, LAMBDA t : t[2] >= px /\ t[3] <= px + py)
           c == SelectSeq(T, LAMBDA t : t[2] >= px + py)
           next == SelectSeq(T, LAMBDA t : t[2] >= px + py /\ t[3] <= px + 2 * py)
       IN IF {px, px + py, px + 2 * py} \subseteq B /\ next = [k \in 1..Len(b) |-> Shifted(b[k], py)]
          THEN LET n == Len(b) IN
               <<0, a \o [k \in 1..(n * (pn + 1)) |-> Shifted(b[((k - 1) % n) + 1], ((k - 1) \div n) * py)]
                      \o [k \in 1..Len(c) |-> Shifted(c[k], pn * py)]>>
          ELSE IF ~\E k \in 1..Len(T) : T[k][2] <= px /\ T[k][3] >= px + 3 * py THEN <<3>>  \* not known
          ELSE <<0, [k \in 1..Len(T) |-> <<T[k][1], T[k][2] + (IF T[k][2] > px THEN pn * py ELSE 0),
                                            T[k][3] + (IF T[k][3] > px THEN pn * py ELSE 0)>>]>>

(* The tokens tile the text and end with one end-of-file token. *)
Tiles(toks, eof, len) ==
  /\ Len(toks) >= 1
  /\ toks[Len(toks)] = <<eof, len, len>>
  /\ \A k \in 1..(Len(toks) - 1) : toks[k][2] < toks[k][3] /\ toks[k][3] = toks[k + 1][2]
  /\ toks[1][2] = 0
=============================================================================
