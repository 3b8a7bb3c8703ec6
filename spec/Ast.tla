-------------------------------- MODULE Ast --------------------------------
(* Queries over trees (nodes <<value, start, end, left, right, children>>).  *)
EXTENDS Bytes

RECURSIVE PreOrder(_), PreOrderAll(_, _)
PreOrderAll(kids, k) == IF k > Len(kids) THEN <<>> ELSE PreOrder(kids[k]) \o PreOrderAll(kids, k + 1)
PreOrder(nd) == <<nd>> \o PreOrderAll(nd[6], 1)

First(s) == IF s = <<>> THEN <<>> ELSE <<s[1]>>
WithValue(nd, v) == SelectSeq(PreOrder(nd), LAMBDA x : x[1] = v)
WithKids(nd, n) == SelectSeq(PreOrder(nd), LAMBDA x : Len(x[6]) = n)
WithWidth(nd, n) == SelectSeq(PreOrder(nd), LAMBDA x : x[3] - x[2] = n)
RECURSIVE NestedFind(_, _)
NestedFind(found, vs) == IF vs = <<>> \/ found = <<>> THEN found
                         ELSE NestedFind(First(WithValue(found[1], Head(vs))), Tail(vs))

QueryKinds == {"find", "list", "child", "has", "nest", "pfind", "plist", "wfind", "wlist"}
QueryAnswer(nd, q) ==
  CASE q[1] = "find" -> First(WithValue(nd, q[2]))
    [] q[1] = "list" -> WithValue(nd, q[2])
    [] q[1] = "child" -> First(SelectSeq(nd[6], LAMBDA x : x[1] = q[2]))
    [] q[1] = "has" -> WithValue(nd, q[2]) # <<>>
    [] q[1] = "nest" -> NestedFind(<<nd>>, q[2])
    [] q[1] = "pfind" -> First(WithKids(nd, q[2]))
    [] q[1] = "plist" -> WithKids(nd, q[2])
    [] q[1] = "wfind" -> First(WithWidth(nd, q[2]))
    [] q[1] = "wlist" -> WithWidth(nd, q[2])
=============================================================================
