----------------------------- MODULE PegMachine -----------------------------
(* Parsing as a stack machine: productions call their symbols, results are   *)
(* returned and resumed one step at a time. Nondeterministically, memoized   *)
(* results are used or computed again, and alternatives which cannot begin   *)
(* with the next structural or raw token are skipped or tried; the result    *)
(* must not depend on it.                                                    *)
EXTENDS Parser, Json, IOUtils, TLC

CONSTANTS Memo, Predict   \* BOOLEAN: may memoized results be used, alternatives be skipped
Groups == TLCEval(ndJsonDeserialize(IOEnv.VERIF_GROUPS))
Cases == TLCEval(ndJsonDeserialize(IOEnv.VERIF_CASES))  \* [g, code]
ASSUME \A k \in 1..Len(Groups) : Accepted(Groups[k].grammar, Groups[k].root)
                                  /\ Terminating(Groups[k].grammar, Groups[k].root)
(* texts which do not tokenize are not parsed *)
Parsed == TLCEval({k \in 1..Len(Cases) :
  LET g == Groups[Cases[k].g] IN g.mode = "less" \/ Tokenize(g.lexer, g.eof, Cases[k].code)[1] = 0})
ContextOf(c) ==
  LET g == Groups[c.g] IN
  IF g.mode = "less" THEN TextContext(g.grammar, c.code, g.eof)
  ELSE Context(g.grammar, c.code, Tokenize(g.lexer, g.eof, c.code)[2], g.ns, g.eof)
(* register k of the model checker: what is known about case k *)
Known(k) ==
  LET g == Groups[Cases[k].g] N == TLCEval(NullSet(g.grammar))
  IN [cx |-> TLCEval(ContextOf(Cases[k])), N |-> N, F |-> TLCEval(FirstSets(g.grammar, N, g.eof)),
      root |-> g.root, mode |-> g.mode, den |-> <<>>]
ASSUME \A k \in Parsed : TLCSet(k, TLCEval(Known(k)))

(* The denotation of a production; every worker of the model checker keeps   *)
(* the ones it has computed.                                                 *)
Den(k, n, m, i) ==
  LET key == (n * 4 + m) * 1000 + i  t == TLCGet(k).den IN
  IF key \in DOMAIN t THEN t[key]
  ELSE LET r == TLCEval(D(TLCGet(k).cx, n, m, i)) IN
       IF TLCSet(k, [TLCGet(k) EXCEPT !.den = TLCEval(t @@ (key :> r))]) THEN r ELSE r

VARIABLES q, st, ret, far, memo
\* q: case; st: stack of frames; ret: <<>> or the result just returned
vars == <<q, st, ret, far, memo>>

Cx == TLCGet(q).cx
Sta == TLCGet(q)
Frame(n, m, i) == [n |-> n, m |-> m, i |-> i, k |-> 0, x |-> i, c |-> <<>>, l |-> <<>>]
Top == st[Len(st)]
Below == SubSeq(st, 1, Len(st) - 1)
Nd == Cx.g[Top.n]

Init == /\ q \in Parsed
        /\ st = <<Frame(TLCGet(q).root, IF TLCGet(q).mode = "less" THEN 2 ELSE 0, 0)>>
        /\ ret = <<>> /\ far = 0 /\ memo = {}

Push(n, m, i) == st' = Append(st, Frame(n, m, i)) /\ ret' = <<>>
(* replace the top frame *)
Turn(f) == st' = Append(Below, f) /\ ret' = <<>>
(* replace the top frame and call *)
TurnPush(f, n, m, i) == st' = Append(Append(Below, f), Frame(n, m, i)) /\ ret' = <<>>
Return(r) == st' = Below /\ ret' = <<[n |-> Top.n, m |-> Top.m, i |-> Top.i, r |-> [r EXCEPT !.f = 0]]>>

Keep == UNCHANGED <<q, far, memo>>
Calling == st # <<>> /\ ret = <<>>
Resuming == st # <<>> /\ ret # <<>>
R == ret[1].r

(* terminals *)
Match == /\ Calling /\ Nd.k \in Terminals
         /\ LET r == Terminal(Cx, Top.n, Top.m, Top.i) IN
            Return(r) /\ far' = Max(far, r.f)
         /\ UNCHANGED <<q, memo>>

(* may the symbol begin with the tokens at the position? *)
NextTokens(m, i) ==
  IF m = 1 THEN {TokenAt(Cx, 1, i)[1], TokenAt(Cx, 0, NextFltr(Cx, i))[1]}
  ELSE {TokenAt(Cx, 0, i)[1], Cx.toks[RawStart(Cx, i) + 1][1]}
Skippable(n, m, i) == /\ Predict /\ m # 2 /\ n \notin Sta.N
                      /\ NextTokens(m, i) \cap Sta.F[n] = {}

(* sequence *)
ConcatCall == /\ Calling /\ Nd.k = "concat"
              /\ IF Top.k = Len(Nd.a) THEN Return(Ok(Top.x, Top.c, 0))
                 ELSE Push(Nd.a[Top.k + 1], Top.m, Top.x)
              /\ Keep
ConcatResume == /\ Resuming /\ Nd.k = "concat"
                /\ IF R.t = 0 THEN Turn([Top EXCEPT !.k = @ + 1, !.x = R.x, !.c = @ \o R.c])
                   ELSE Return(R)
                /\ Keep
(* ordered choice *)
UnionTry == /\ Calling /\ Nd.k = "union"
            /\ IF Top.k = Len(Nd.a) THEN Return(Un(0)) ELSE Push(Nd.a[Top.k + 1], Top.m, Top.i)
            /\ Keep
UnionSkip == /\ Calling /\ Nd.k = "union" /\ Top.k < Len(Nd.a)
             /\ Skippable(Nd.a[Top.k + 1], Top.m, Top.i)
             /\ Turn([Top EXCEPT !.k = @ + 1])
             /\ Keep
UnionResume == /\ Resuming /\ Nd.k = "union"
               /\ IF R.t = 1 THEN Turn([Top EXCEPT !.k = @ + 1]) ELSE Return(R)
               /\ Keep
(* suffixes: k = 0 before the left symbol, then the suffix to try *)
SuffixTry == /\ Calling /\ Nd.k = "suf"
             /\ IF Top.k = 0 THEN Push(Nd.l, Top.m, Top.i)
                ELSE IF Top.k > Len(Nd.a)
                     THEN (IF Nd.st THEN Return(Ok(Top.x, Top.c, 0)) ELSE Return(Un(0)))
                ELSE Push(Nd.a[Top.k][1], Top.m, Top.x)
             /\ Keep
SuffixSkip == /\ Calling /\ Nd.k = "suf" /\ Top.k > 0 /\ Top.k <= Len(Nd.a)
              /\ Skippable(Nd.a[Top.k][1], Top.m, Top.x)
              /\ Turn([Top EXCEPT !.k = @ + 1])
              /\ Keep
SuffixResume == /\ Resuming /\ Nd.k = "suf"
                /\ IF Top.k = 0
                   THEN (IF R.t = 0 THEN Turn([Top EXCEPT !.k = 1, !.x = R.x, !.c = R.c]) ELSE Return(R))
                   ELSE CASE R.t = 0 -> Return(Ok(R.x, <<Span(Cx, Top.m, Nd.a[Top.k][2], Top.i, R.x, Top.c \o R.c)>>, 0))
                          [] R.t = 1 -> Turn([Top EXCEPT !.k = @ + 1])
                          [] OTHER -> Return(R)
                /\ Keep
(* repetition: k counts the items *)
ListCall == /\ Calling /\ Nd.k = "list" /\ Push(Nd.e, Top.m, Top.x) /\ Keep
ListResume == /\ Resuming /\ Nd.k = "list"
              /\ CASE R.t = 2 \/ (R.t = 1 /\ Top.k = 0) -> Return(R)
                   [] R.t = 1 -> Return(Ok(Top.x, Top.c, 0))
                   [] R.t = 0 /\ R.x = Top.x -> Return(Ok(R.x, Top.c \o R.c, 0))
                   [] OTHER -> Turn([Top EXCEPT !.k = @ + 1, !.x = R.x, !.c = @ \o R.c])
              /\ Keep
(* separated list: k is even before an item, odd before a separator; l holds *)
(* the position and nodes before the pending separator                       *)
SepCall == /\ Calling /\ Nd.k = "sl"
           /\ Push(IF Top.k % 2 = 0 THEN Nd.e ELSE Nd.s, Top.m, Top.x) /\ Keep
SepResume == /\ Resuming /\ Nd.k = "sl"
             /\ CASE R.t = 2 \/ (R.t = 1 /\ Top.k = 0) -> Return(R)
                  [] R.t = 1 /\ Top.k % 2 = 1 -> Return(Ok(Top.x, Top.c, 0))
                  [] R.t = 1 -> IF Nd.inc THEN Return(Ok(Top.x, Top.c, 0))
                                ELSE Return(Ok(Top.l[1], Top.l[2], 0))
                  [] R.t = 0 /\ Top.k % 2 = 1 ->
                       Turn([Top EXCEPT !.k = @ + 1, !.x = R.x, !.c = @ \o R.c, !.l = <<Top.x, Top.c>>])
                  [] OTHER -> IF Top.k > 0 /\ R.x = Top.l[1] THEN Return(Ok(R.x, Top.c \o R.c, 0))
                              ELSE Turn([Top EXCEPT !.k = @ + 1, !.x = R.x, !.c = @ \o R.c])
             /\ Keep
(* memoization *)
Entry == {e \in memo : e.key = Nd.key /\ e.i = Top.i}
MemoHit == /\ Calling /\ Nd.k = "cache" /\ Memo
           /\ \E e \in Entry : Return(e.r)
           /\ Keep
MemoMiss == /\ Calling /\ Nd.k = "cache" /\ Push(Nd.e, Top.m, Top.i) /\ Keep
MemoStore == /\ Resuming /\ Nd.k = "cache"
             /\ Return(R)
             /\ memo' = IF Memo /\ Entry = {}
                        THEN memo \cup {[key |-> Nd.key, i |-> Top.i, n |-> Top.n, m |-> Top.m, r |-> R]} ELSE memo
             /\ UNCHANGED <<q, far>>
(* other wrappers *)
WrapCall == /\ Calling /\ Nd.k \in Wrappers \ {"list", "sl", "cache"}
            /\ Push(Nd.e, InnerMode(Nd, Top.m), InnerPos(Cx, Nd, Top.m, Top.i)) /\ Keep
WrapResume == /\ Resuming /\ Nd.k \in Wrappers \ {"list", "sl", "cache"}
              /\ Return(Wrap(Cx, Nd, Top.m, Top.i, R)) /\ Keep

Finished == st = <<>> /\ UNCHANGED vars
Next == Finished \/ Match \/ ConcatCall \/ ConcatResume \/ UnionTry \/ UnionSkip \/ UnionResume
        \/ SuffixTry \/ SuffixSkip \/ SuffixResume \/ ListCall \/ ListResume \/ SepCall \/ SepResume
        \/ MemoHit \/ MemoMiss \/ MemoStore \/ WrapCall \/ WrapResume
Spec == Init /\ [][Next]_vars

Done == st = <<>>
(* Every result returned is the denotation of the production there. *)
Denotes == ret = <<>> \/ LET r == Den(q, ret[1].n, ret[1].m, ret[1].i) IN ret[1].r = [r EXCEPT !.f = 0]
(* so are memoized results *)
MemoSound == \A e \in memo :
  e.r = [Den(q, e.n, e.m, e.i) EXCEPT !.f = 0]
(* The furthest offset, and so the error report, depends on neither choice. *)
Furthest == Done => far = Den(q, ret[1].n, ret[1].m, ret[1].i).f
(* No production is tried again where it is already being tried. *)
Progress == \A a, b \in 1..Len(st) : a < b =>
  ~(st[a].n = st[b].n /\ st[a].m = st[b].m /\ st[a].i = st[b].i)
(* Positions stay within the text or tokens. *)
Bounded == \A a \in 1..Len(st) :
  st[a].x <= (CASE st[a].m = 2 -> Len(Cx.code) [] st[a].m = 1 -> Len(Cx.toks) [] OTHER -> Len(Cx.flt))
(* Trees are well formed. *)
NoRaw == \A n \in 1..Len(Cx.g) : Cx.g[n].k \notin {"ns", "st"}
Spans == ret = <<>> \/ ret[1].r.t # 0 \/
  \A c \in 1..Len(ret[1].r.c) : Spanned(Cx, ret[1].r.c[c]) /\ (NoRaw => Nested(ret[1].r.c[c]))
(* What moves on is allowed to start like that; what does not, to be empty. *)
Foreseen == ret = <<>> \/ ret[1].r.t # 0 \/ LET e == ret[1] IN
  IF e.r.x = e.i THEN e.n \in Sta.N
  ELSE e.m = 2 \/ NextTokens(e.m, e.i) \cap Sta.F[e.n] # {}
(* The laws of each production, on the result just returned and those of its *)
(* symbols.                                                                   *)
Law(n, m, i, r) ==
  LET nd == Cx.g[n]
      S(a, x) == [Den(q, a, m, x) EXCEPT !.f = 0]
  IN CASE nd.k = "union" ->
            \/ r.t = 1 /\ \A a \in 1..Len(nd.a) : S(nd.a[a], i).t = 1
            \/ \E a \in 1..Len(nd.a) : /\ S(nd.a[a], i) = r /\ r.t # 1
                                       /\ \A b \in 1..(a - 1) : S(nd.a[b], i).t = 1
       [] nd.k = "concat" -> r.t = 0 => \A a \in 1..Len(nd.a) : \E x \in i..Max(i, r.x) : S(nd.a[a], x).t = 0
       [] nd.k = "nul" -> r.t # 1
       [] nd.k = "look" -> (r.t = S(nd.e, i).t) /\ (r.t = 0 => r.x = i /\ Len(r.c) <= 1)
       [] nd.k = "hid" -> (r.t = S(nd.e, i).t) /\ (r.t = 0 => r.c = <<>> /\ r.x = S(nd.e, i).x)
       [] nd.k = "node" -> (r.t = S(nd.e, i).t) /\ (r.t = 0 => Len(r.c) = 1 /\ r.c[1][6] = S(nd.e, i).c /\ r.x = S(nd.e, i).x)
       [] nd.k = "list" -> /\ (r.t = 0) => (S(nd.e, i).t = 0)
                           /\ (r.t = 0 /\ r.x # i) => (S(nd.e, r.x).t = 1 \/ (S(nd.e, r.x).t = 0 /\ S(nd.e, r.x).x = r.x))
       [] nd.k = "sl" -> r.t = 0 => S(nd.e, i).t = 0
       [] nd.k = "suf" -> r.t = 0 => \/ nd.st /\ r = S(nd.l, i)
                                     \/ Len(r.c) = 1 /\ \E a \in 1..Len(nd.a) : r.c[1][1] = nd.a[a][2]
       [] nd.k = "cache" -> r = S(nd.e, i)
       [] nd.k = "ns" -> r.t = 0 /\ m = 0 => r.x = i
       [] nd.k = "eof" -> r.t = 0 => r.x = i
       [] OTHER -> TRUE
Laws == ret = <<>> \/ Law(ret[1].n, ret[1].m, ret[1].i, ret[1].r)
(* A validation error is never caught. *)
Final == [][(ret # <<>> /\ R.t = 2 /\ st # <<>>) => (ret' # <<>> /\ ret'[1].r = R)]_vars
Monotone == [][far' >= far]_vars
(* There is always a next step (no deadlock), and no endless run of steps. *)
Terminates == []<><<TRUE>>_vars => <>Done
=============================================================================
