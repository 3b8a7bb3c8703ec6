-------------------------------- MODULE Trace -------------------------------
(* Validation of recorded executions of the implementation: every record is  *)
(* one text given to one parser or tokenizer, with the observations made     *)
(* while it was processed; each transition consumes one observation, which   *)
(* must be the one the specification prescribes. A mismatch is printed and   *)
(* the rest of the trace is still checked. Records are spread over Shards    *)
(* independent traces.                                                       *)
EXTENDS Parser, Stream, Ast, JsonText, Long, Printed, Json, IOUtils

CONSTANT Shards
Groups == TLCEval(ndJsonDeserialize(IOEnv.VERIF_GROUPS))
Records == TLCEval(ndJsonDeserialize(IOEnv.VERIF_RECORDS))

VARIABLES r, j
vars == <<r, j>>

Rec == Records[r]
Grp == Groups[Rec.g]
Mode == IF Grp.mode = "less" THEN 2 ELSE 0
(* the tokens of the record, checked by its first observation *)
Cx == IF Mode = 2 THEN TextContext(Grp.grammar, Rec.code, Grp.eof)
      ELSE Context(Grp.grammar, Rec.code, Rec.toks, Grp.ns, Grp.eof)

RECURSIVE JTok(_, _), JLess(_)
JTok(c, nd) == LET deep == nd[4] # <<>> IN
  <<nd[1], nd[2], IF deep THEN SkipWs(c, nd[3]) ELSE nd[3], [k \in 1..Len(nd[4]) |-> JTok(c, nd[4][k])]>>
JLess(nd) == <<IF nd[1] = "Key" THEN "String" ELSE nd[1], nd[2], nd[3], [k \in 1..Len(nd[4]) |-> JLess(nd[4][k])]>>

JsonTrees(c, x) ==
  IF x[1] = 0 THEN <<<<0, <<>>>>, <<0, <<>>>>>>
  ELSE <<<<1, <<<<"Main", x[2], Len(c), [k \in 1..Len(x[3]) |-> JTok(c, x[3][k])]>>>>>>,
         <<1, <<<<"Main", 0, Len(c), [k \in 1..Len(x[3]) |-> JLess(x[3][k])]>>>>>>>>

(* Nodes in preorder with their numbers of children: deeply nested trees are *)
(* recorded like that.                                                        *)
RECURSIVE Flat(_)
Flat(ns) == IF ns = <<>> THEN <<>>
            ELSE LET h == ns[1] IN <<<<h[1], h[2], h[3], h[4], h[5], Len(h[6])>>>> \o Flat(h[6]) \o Flat(Tail(ns))
FlatEnd(x) == IF x[1] = 0 THEN [x EXCEPT ![Len(x)] = Flat(@)] ELSE x

Lexemes(def) == LET RECURSIVE All(_, _)
                    All(k, acc) == IF k > Len(def.states) THEN acc ELSE All(k + 1, acc \o def.states[k][2])
                IN All(1, <<>>)

(* What a constructor must answer. *)
Distinct(f) == \A a, b \in 1..Len(f) : a # b => f[a][1] # f[b][1]
RECURSIVE Creatable(_)
Creatable(d) ==
  CASE d.k = "pat" -> ~d.bad /\ ~MatchesEmpty(d.re)
    [] d.k = "re" -> ~d.bad
    [] d.k \in {"punc", "map"} -> Distinct(d.f) /\ (d.k = "map" => Creatable(d.e))
    [] d.k = "pun" -> d.a # <<>> /\ Distinct(d.a)
    [] d.k = "cst" -> d.s # <<>>
    [] d.k \in {"tmap", "mw", "smix", "tmix"} -> Creatable(d.e)
    [] OTHER -> TRUE

(* The answer the specification prescribes for an observation o. *)
Expected(o) ==
  CASE o[1] = "lex" -> LET x == Tokenize(Grp.lexer, Grp.eof, Rec.code)
                       IN IF x[1] = 1 THEN <<1, x[2]>> \o Position(Rec.code, x[2]) ELSE x
    [] o[1] = "pump" -> Pumped(Tokenize(Grp.lexer, Grp.eof, Rec.code), Rec.code, o[2], o[3], o[4])
    [] o[1] = "tile" -> Tiles(Rec.toks, Grp.eof, Len(Rec.code))
    [] o[1] = "ls" -> LET x == Consume(Lexemes(Grp.lexer)[o[2]], Rec.code, o[3], o[4], o[5])
                      IN IF x.pan THEN <<3>>
                         ELSE IF x.h THEN <<1, x.t, x.s, x.e, x.st>> ELSE <<0, 0, 0, 0, x.st>>
    [] o[1] = "ev" -> LET x == D(Cx, o[2], o[3], o[4]) IN <<Proj(x), Blame(Cx, o[3], Max(o[5], x.f))>>
    [] o[1] = "par" -> IF Mode # 2 /\ Rec.lexed # 0 THEN LexFailure(Rec.code, Rec.at)
                       ELSE Parse(Cx, Grp.root, Mode)
    [] o[1] = "parf" -> FlatEnd(Parse(Cx, Grp.root, Mode))
    [] o[1] = "evf" -> LET x == D(Cx, o[2], o[3], o[4]) IN <<FlatEnd(Proj(x)), Blame(Cx, o[3], Max(o[5], x.f))>>
    [] o[1] = "dbg" -> IF o[2] = 0 THEN <<1>> ELSE DebugParse(Cx, o[2], Mode, o[3])
    [] o[1] = "q" -> [k \in 1..Len(o[3]) |-> QueryAnswer(o[2], o[3][k])]
    [] o[1] = "vw" -> LET flt == TLCEval(Structural(Rec.toks, Grp.ns)) IN
                       [k \in 1..Len(o[2]) |-> Answer(Rec.toks, Rec.code, flt, Grp.eof, o[2][k])]
    [] o[1] = "view" -> Consistent(Rec.toks, Structural(Rec.toks, Grp.ns))
    [] o[1] = "span" -> Spanned(Cx, o[2]) /\ (o[3] => Nested(o[2]))
    [] o[1] = "pos" -> LET x == Position(Rec.code, o[2]) IN x \o x \o x
    [] o[1] = "breaks" -> SelectSeq([k \in 1..Len(Rec.code) |-> k - 1], LAMBDA k : Rec.code[k + 1] = 10)
    [] o[1] = "build" -> Accepted(Grp.grammar, Grp.root)
    [] o[1] = "ctor" -> Creatable(o[2])
    [] o[1] = "is" -> o[2]
    [] o[1] = "bare" -> BareOf(o[2])
    [] o[1] = "shape" -> ShapeOf(Structural(o[2], Grp.ns), o[2], o[3])
    [] o[1] = "json" -> JsonTrees(Rec.code, JText(Rec.code))
    [] o[1] = "show" -> <<TreeText(Grp.fm, o[2]), TreeLines(Grp.fm, o[2], 0)>>
    [] o[1] = "gram" -> <<Printed(Grp.grammar, Grp.fm, Grp.root), TRUE, TRUE>>
    [] o[1] = "once" -> TRUE
    [] o[1] = "facts" -> LET N == TLCEval(NullSet(Grp.grammar)) IN
         [k \in 1..Len(o[2]) |-> LET b == IF o[2][k][1] \in N THEN 1 ELSE 0 IN <<b, b, TRUE>>]
    [] o[1] = "posl" -> [k \in 1..Len(o[2]) |-> LET x == LongPosition(Rec.code, o[2][k]) IN x \o x \o x]
(* The answer recorded from the implementation. *)
Observed(o) ==
  CASE o[1] = "lex" -> o[2]
    [] o[1] = "pump" -> o[5]
    [] o[1] \in {"tile", "view", "span"} -> TRUE
    [] o[1] = "ls" -> o[6]
    [] o[1] \in {"ev", "evf"} -> <<o[7], Blame(Cx, o[3], o[6])>>
    [] o[1] = "parf" -> o[2]
    [] o[1] = "par" -> o[2]
    [] o[1] = "dbg" -> o[4]
    [] o[1] = "q" -> [k \in 1..Len(o[3]) |-> o[3][k][3]]
    [] o[1] = "vw" -> [k \in 1..Len(o[2]) |-> o[2][k][Len(o[2][k])]]
    [] o[1] = "pos" -> o[3]
    [] o[1] = "breaks" -> o[2]
    [] o[1] = "build" -> o[2]
    [] o[1] = "ctor" -> o[3]
    [] o[1] = "is" -> o[3]
    [] o[1] = "bare" -> BareOf(o[3])
    [] o[1] = "shape" -> ShapeOf(Structural(Rec.toks, Grp.ns), Rec.toks, o[4])
    [] o[1] = "json" -> <<o[2], o[3]>>
    [] o[1] = "show" -> <<o[3], o[4]>>
    [] o[1] = "gram" -> <<o[2], Complete(Grp.grammar, Grp.fm, Grp.root),
                          IF Mode = 2 THEN o[3] = <<>> ELSE SameStates(Grp.fm, Grp.lexer, o[3])>>
    [] o[1] = "once" -> \A k \in 1..Len(o[2]) : OnlyMemoized(Grp.grammar, Grp.root, o[2][k][1]) => o[2][k][4] = 1
    [] o[1] = "facts" -> LET N == TLCEval(NullSet(Grp.grammar))
                             F == IF Mode = 2 THEN [n \in 1..Len(Grp.grammar) |-> {}]
                                  ELSE TLCEval(FirstSets(Grp.grammar, N, Grp.eof)) IN
         [k \in 1..Len(o[2]) |-> <<o[2][k][2], o[2][k][3], ToSetOf(o[2][k][4]) = F[o[2][k][1]]>>]
    [] o[1] = "posl" -> o[3]

(* Comparison: values of different kinds are different. *)
Same(a, b) == ToString(a) = ToString(b)

Obs == Rec.obs
Init == r \in 1..Min(Shards, Len(Records)) /\ j = 0
(* one observation; what follows a user error or a wrong token sequence is   *)
(* not judged                                                                *)
Observe ==
  /\ j < Len(Obs)
  /\ LET o == Obs[j + 1]  want == TLCEval(Expected(o))  got == TLCEval(Observed(o)) IN
     IF o[1] \in {"lex", "ls", "pump"} /\ Same(want, <<3>>) THEN j' = (IF o[1] = "lex" THEN Len(Obs) ELSE j + 1)
     ELSE IF Same(want, got) THEN j' = j + 1
     ELSE /\ PrintT("MISMATCH " \o ToJson([r |-> r, j |-> j + 1, want |-> ToString(want), got |-> ToString(got)]))
          /\ j' = IF o[1] = "lex" THEN Len(Obs) ELSE j + 1
  /\ r' = r
NextRecord ==
  /\ j = Len(Obs) /\ r + Shards <= Len(Records)
  /\ r' = r + Shards /\ j' = 0
Next == Observe \/ NextRecord
Spec == Init /\ [][Next]_vars
TypeOK == r \in 1..Len(Records) /\ j \in 0..Len(Obs)
=============================================================================
