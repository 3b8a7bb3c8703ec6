------------------------------- MODULE Grammar ------------------------------
(* Static semantics of grammars: a grammar is a sequence of productions,     *)
(* referring to each other by 1-based index.                                 *)
(*  terminals   tf(t,v) tfs(a) eof(v) null(v) cst(s,v) csts(a) pun(a) re(re,v)*)
(*  nonterminals concat(a,u) union(a,u) suf(l,st,a,u)   u: no symbols set    *)
(*  wrappers    list(e) sl(e,s,inc) nul(e,h) hid(e) look(e,v) node(e,v)      *)
(*              cache(e,key) ns(e,fill) st(e) val(e,fn)                      *)
EXTENDS Lexer

Wrappers == {"list", "sl", "nul", "hid", "look", "node", "cache", "ns", "st", "val"}
Terminals == {"tf", "tfs", "eof", "null", "cst", "csts", "pun", "re"}
NonTerminals == {"concat", "union", "suf"}

Unset(nd) == nd.k \in NonTerminals /\ nd.u

NullNow(g, N, n) ==
  LET nd == g[n] IN
  CASE nd.k \in {"tf", "tfs", "cst"} -> FALSE
    [] nd.k \in {"null", "eof", "look", "ns"} -> TRUE
    [] nd.k \in {"csts", "pun"} -> \E k \in 1..Len(nd.a) : nd.a[k][1] = <<>>
    [] nd.k = "re" -> MatchesEmpty(nd.re)
    [] nd.k = "concat" -> ~nd.u /\ \A k \in 1..Len(nd.a) : nd.a[k] \in N
    [] nd.k = "union" -> ~nd.u /\ \E k \in 1..Len(nd.a) : nd.a[k] \in N
    [] nd.k = "suf" -> ~nd.u /\ nd.l \in N /\ (nd.st \/ \E k \in 1..Len(nd.a) : nd.a[k][1] \in N)
    [] nd.k = "nul" -> TRUE
    [] OTHER -> nd.e \in N
RECURSIVE NullFix(_, _)
NullFix(g, N) == LET M == N \cup {n \in 1..Len(g) : NullNow(g, N, n)}
                 IN IF M = N THEN N ELSE NullFix(g, M)
(* The productions which may leave the position where it is. *)
NullSet(g) == NullFix(g, {})

(* Symbols of a production: all of them, and the leftmost ones (those which  *)
(* may be tried at the position where the production itself is tried).       *)
Symbols(g, n) ==
  LET nd == g[n] IN
  CASE nd.k \in Terminals -> {}
    [] nd.k \in {"concat", "union"} -> IF nd.u THEN {} ELSE ToSetOf(nd.a)
    [] nd.k = "suf" -> {nd.l} \cup (IF nd.u THEN {} ELSE {nd.a[k][1] : k \in 1..Len(nd.a)})
    [] nd.k = "sl" -> {nd.e, nd.s}
    [] OTHER -> {nd.e}
Leftmost(g, N, n) ==
  LET nd == g[n] IN
  CASE nd.k = "concat" -> IF nd.u THEN {} ELSE
         {nd.a[k] : k \in {k \in 1..Len(nd.a) : \A j \in 1..(k - 1) : nd.a[j] \in N}}
    [] nd.k = "suf" -> {nd.l} \cup (IF nd.u \/ nd.l \notin N THEN {}
                                    ELSE {nd.a[k][1] : k \in 1..Len(nd.a)})
    [] nd.k = "sl" -> {nd.e} \cup (IF nd.e \in N THEN {nd.s} ELSE {})
    [] OTHER -> Symbols(g, n)

RECURSIVE Closure(_, _, _)
Closure(S, D, g) == LET T == S \cup UNION {D[n] : n \in S} IN IF T = S THEN S ELSE Closure(T, D, g)
Reachable(g, root) == Closure({root}, [n \in 1..Len(g) |-> Symbols(g, n)], g)
LeftReach(g, N, n) == LET D == [k \in 1..Len(g) |-> Leftmost(g, N, k)] IN Closure(D[n], D, g)
LeftRecursive(g, N, n) == n \in LeftReach(g, N, n)

(* Building a parser for the root succeeds. *)
Accepted(g, root) ==
  LET R == Reachable(g, root)  N == NullSet(g) IN
  /\ \A n \in R : ~Unset(g[n])
  /\ \A n \in R : ~LeftRecursive(g, N, n)

(* An accepted grammar cannot recurse at a position, with one exception: a   *)
(* raw section which, through a structural section inside of it, contains     *)
(* itself. Neither moves the structural position, although raw tokens may be *)
(* consumed in between. A pair <<n, m>> is production n in mode m.            *)
ModeSteps(g, N, p) ==
  LET n == p[1] m == p[2] nd == g[n]
      im == IF nd.k = "ns" THEN 1 ELSE IF nd.k = "st" THEN 0 ELSE m
  IN {<<x, im>> : x \in IF m = 1 THEN Symbols(g, n) ELSE Leftmost(g, N, n)}
RECURSIVE ModeClosure(_, _, _)
ModeClosure(g, N, S) == LET T == S \cup UNION {ModeSteps(g, N, p) : p \in S}
                        IN IF T = S THEN S ELSE ModeClosure(g, N, T)
Terminating(g, root) ==
  LET N == NullSet(g)  R == ModeClosure(g, N, {<<root, 0>>} \cup {<<n, 0>> : n \in Reachable(g, root)}) IN
  \A p \in R : p[2] = 0 => p \notin ModeClosure(g, N, ModeSteps(g, N, p))

(* A production which is only ever called by a memoized one. *)
OnlyMemoized(g, root, n) ==
  /\ n # root
  /\ Cardinality({c \in 1..Len(g) : n \in Symbols(g, c)}) = 1
  /\ \E c \in 1..Len(g) : g[c].k = "cache" /\ g[c].e = n

(* Tokens a production may start with. *)
FirstNow(g, N, F, n) ==
  LET nd == g[n] IN
  CASE nd.k = "tf" -> {nd.t}
    [] nd.k = "tfs" -> {nd.a[k][1] : k \in 1..Len(nd.a)}
    [] nd.k \in Terminals -> {}
    [] OTHER -> UNION {F[m] : m \in Leftmost(g, N, n)}
RECURSIVE FirstFix(_, _, _)
FirstFix(g, N, F) == LET G == TLCEval([n \in 1..Len(g) |-> F[n] \cup FirstNow(g, N, F, n)])
                     IN IF G = F THEN F ELSE FirstFix(g, N, G)
(* eof stands for the end-of-file token, which productions other than "eof" never match *)
FirstSets(g, N, eof) ==
  FirstFix(g, N, TLCEval([n \in 1..Len(g) |-> IF g[n].k = "eof" THEN {eof} ELSE {}]))
=============================================================================
