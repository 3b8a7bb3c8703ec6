------------------------------ MODULE Printed ------------------------------
(* The printed form of a grammar and of a tokenizer. A format fm is          *)
(* <<node prefix, node suffix, token prefix, token suffix, name prefix,      *)
(* tokens in descending order>>. A literal carries its quoted text.          *)
EXTENDS Grammar

NodeText(fm, v) == IF v < 0 THEN "" ELSE fm[1] \o ToString(v) \o fm[2]
TokText(fm, t) == fm[3] \o ToString(t) \o fm[4]
NameText(fm, n) == fm[5] \o "p" \o ToString(n)
RECURSIVE Joined(_, _, _)
Joined(s, sep, k) == IF k > Len(s) THEN "" ELSE (IF k = 1 THEN "" ELSE sep) \o s[k] \o Joined(s, sep, k + 1)
Named(g, n) == g[n].k \in NonTerminals \/ ("rule" \in DOMAIN g[n] /\ g[n].rule)

(* The members of a set of literals, longest first; of tokens, in their order. *)
LongFirst(a) == LET RECURSIVE From(_)
                    From(l) == IF l < 0 THEN <<>>
                               ELSE SelectSeq([k \in 1..Len(a) |-> k], LAMBDA k : Len(a[k][1]) = l) \o From(l - 1)
                IN From(30)
Ranked(a, down) ==
  LET before(i, j) == IF down THEN a[i][1] > a[j][1] ELSE a[i][1] < a[j][1]
      rank(i) == Cardinality({j \in 1..Len(a) : before(j, i)}) + 1
  IN [r \in 1..Len(a) |-> CHOOSE i \in 1..Len(a) : rank(i) = r]
Members(g, fm, n) ==
  LET nd == g[n] IN
  IF nd.k = "tfs" THEN LET o == Ranked(nd.a, fm[6]) IN
       [r \in 1..Len(o) |-> "[&" \o TokText(fm, nd.a[o[r]][1]) \o "; " \o NodeText(fm, nd.a[o[r]][2]) \o "]"]
  ELSE LET o == LongFirst(nd.a) IN
       [r \in 1..Len(o) |-> "[" \o nd.txts[o[r]] \o "; " \o NodeText(fm, nd.a[o[r]][2]) \o "]"]

(* How a production appears inside of a rule, and the rule of a named one. *)
RECURSIVE Shown(_, _, _), Body(_, _, _)
Body(g, fm, n) ==
  LET nd == g[n] x(m) == TLCEval(Shown(g, fm, m)) IN
  CASE nd.k = "concat" -> Joined(TLCEval([k \in 1..Len(nd.a) |-> x(nd.a[k])]), " ", 1)
    [] nd.k = "union" -> " " \o Joined(TLCEval([k \in 1..Len(nd.a) |-> x(nd.a[k])]), " | ", 1)
    [] nd.k = "suf" -> Joined(TLCEval([k \in 1..Len(nd.a) |-> "[" \o x(nd.l) \o " " \o x(nd.a[k][1]) \o "; @" \o NodeText(fm, nd.a[k][2]) \o "]"]
                              \o (IF nd.st THEN <<x(nd.l)>> ELSE <<>>)), " | ", 1)
    [] nd.k = "sl" -> " " \o x(nd.e) \o " (" \o x(nd.s) \o " " \o x(nd.e) \o ")*" \o (IF nd.inc THEN " (" \o x(nd.s) \o ")?" ELSE "")
    [] nd.k = "hid" -> " [" \o x(nd.e) \o ";]"
    [] nd.k = "node" -> " [" \o x(nd.e) \o "; @" \o NodeText(fm, nd.v) \o "]"
Shown(g, fm, n) ==
  LET nd == g[n] x(m) == TLCEval(Shown(g, fm, m)) IN
  IF Named(g, n) THEN NameText(fm, n)
  ELSE CASE nd.k = "tf" -> "[&" \o TokText(fm, nd.t) \o "; " \o NodeText(fm, nd.v) \o "]"
         [] nd.k \in {"tfs", "csts", "pun"} -> "(" \o Joined(TLCEval(Members(g, fm, n)), "|", 1) \o ")"
         [] nd.k = "cst" -> "[" \o nd.txt \o "; " \o NodeText(fm, nd.v) \o "]"
         [] nd.k = "re" -> nd.txt
         [] nd.k = "eof" -> "EOF"
         [] nd.k = "null" -> "''"
         [] nd.k = "list" -> x(nd.e) \o "+"
         [] nd.k = "sl" -> x(nd.e) \o " (" \o x(nd.s) \o " " \o x(nd.e) \o ")*" \o (IF nd.inc THEN " (" \o x(nd.s) \o ")?" ELSE "")
         [] nd.k = "nul" -> "(" \o x(nd.e) \o ")?"
         [] nd.k = "hid" -> "[" \o x(nd.e) \o ";]"
         [] nd.k = "look" -> "?=" \o x(nd.e)
         [] nd.k = "node" -> "[" \o x(nd.e) \o "; @" \o NodeText(fm, nd.v) \o "]"
         [] nd.k = "cache" -> "<" \o x(nd.e) \o ">"
         [] nd.k \in {"ns", "st"} -> "%" \o x(nd.e) \o "%"
         [] nd.k = "val" -> "{" \o x(nd.e) \o "}"

(* The rules of the named productions, each once, in the order of their      *)
(* first appearance. V: those already written.                               *)
InOrder(g, n) ==
  LET nd == g[n] IN
  CASE nd.k \in Terminals -> <<>>
    [] nd.k \in {"concat", "union"} -> nd.a
    [] nd.k = "suf" -> <<nd.l>> \o [k \in 1..Len(nd.a) |-> nd.a[k][1]]
    [] nd.k = "sl" -> <<nd.e, nd.s>>
    [] OTHER -> <<nd.e>>
RECURSIVE Rules(_, _, _, _), RulesOf(_, _, _, _, _)
Rules(g, fm, n, V) ==
  IF g[n].k \in NonTerminals /\ n \in V THEN <<"", V>>
  ELSE LET own == IF Named(g, n) /\ n \notin V THEN " " \o NameText(fm, n) \o " :" \o Body(g, fm, n) \o " ;" ELSE ""
           r == TLCEval(RulesOf(g, fm, TLCEval(InOrder(g, n)), 1, TLCEval(IF Named(g, n) THEN V \cup {n} ELSE V)))
       IN <<own \o r[1], r[2]>>
RulesOf(g, fm, s, k, V) ==
  IF k > Len(s) THEN <<"", V>>
  ELSE LET a == TLCEval(Rules(g, fm, s[k], V)) b == TLCEval(RulesOf(g, fm, s, k + 1, TLCEval(a[2]))) IN <<a[1] \o b[1], b[2]>>
Printed(g, fm, root) == Shown(g, fm, root) \o Rules(g, fm, root, {})[1]
(* every reachable named production has a rule *)
Complete(g, fm, root) == Rules(g, fm, root, {})[2] = {n \in Reachable(g, root) : Named(g, n)}

(* The lexemes of a state: the texts of every lexeme and their tokens; the   *)
(* order within a lexeme is free.                                            *)
RECURSIVE LexTexts(_, _)
LexTexts(fm, d) ==
  CASE d.k = "pat" -> <<<<TokText(fm, d.t), d.txt>>>>
    [] d.k \in {"punc", "const"} -> [k \in 1..Len(d.f) |-> <<TokText(fm, d.f[k][2]), d.txts[k]>>]
    [] d.k = "map" -> [k \in 1..Len(d.f) |-> <<TokText(fm, d.f[k][2]), d.txts[k]>>] \o LexTexts(fm, d.e)
    [] OTHER -> LexTexts(fm, d.e)
Bag(s) == [x \in ToSetOf(s) |-> Cardinality({k \in 1..Len(s) : s[k] = x})]
RECURSIVE SameLexemes(_, _, _, _)
SameLexemes(fm, ls, k, got) ==
  IF k > Len(ls) THEN got = <<>>
  ELSE LET w == LexTexts(fm, ls[k]) n == Len(w) IN
       /\ Len(got) >= n
       /\ Bag(SubSeq(got, 1, n)) = Bag(w)
       /\ SameLexemes(fm, ls, k + 1, SubSeq(got, n + 1, Len(got)))
StateText(def, s) == IF def.k = "plain" THEN "" ELSE ToString(s)
SameStates(fm, def, got) ==
  LET S == {k \in 1..Len(def.states) : TRUE} IN
  /\ Len(got) = Cardinality(S)
  /\ \A i, j \in 1..Len(got) : i # j => got[i][1] # got[j][1]
  /\ \A i \in 1..Len(got) : \E k \in S : StateText(def, def.states[k][1]) = got[i][1] /\ SameLexemes(fm, def.states[k][2], 1, got[i][2])

(* Trees: in full, and as lines with their depth.                            *)
Extent(nd) == ToString(nd[2]) \o "-" \o ToString(nd[3])
RECURSIVE TreeText(_, _), TreeLines(_, _, _), TreesLines(_, _, _, _)
TreeText(fm, nd) ==
  "ASTNode { token: " \o NodeText(fm, nd[1]) \o ", start: " \o ToString(nd[2]) \o ", end: " \o ToString(nd[3])
  \o (IF nd[6] = <<>> THEN "" ELSE ", children: [" \o Joined(TLCEval([k \in 1..Len(nd[6]) |-> TreeText(fm, nd[6][k])]), ", ", 1) \o "]") \o " }"
TreeLines(fm, nd, d) == <<<<d, NodeText(fm, nd[1]) \o " # " \o Extent(nd)>>>> \o TreesLines(fm, nd[6], 1, d + 1)
TreesLines(fm, s, k, d) == IF k > Len(s) THEN <<>> ELSE TreeLines(fm, s[k], d) \o TreesLines(fm, s, k + 1, d)
=============================================================================
