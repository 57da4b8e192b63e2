-------------------------------- MODULE Laws --------------------------------
(* What has to hold of every text that the specification gives, said without *)
(* the rules that make the text: only from the calls a program makes (ops)   *)
(* and from how Cypher is read (brackets, precedence of operators).          *)
EXTENDS Integers, Sequences, TLC

Closing == ")" :> "(" @@ "]" :> "[" @@ "}" :> "{"
Opening == {"(", "[", "{"}

RECURSIVE BalancedFrom(_, _, _)
BalancedFrom(ts, i, open) ==
  IF i > Len(ts) THEN open = <<>>
  ELSE IF ts[i] \in Opening THEN BalancedFrom(ts, i + 1, <<ts[i]>> \o open)
  ELSE IF ts[i] \in DOMAIN Closing THEN open # <<>> /\ Head(open) = Closing[ts[i]] /\ BalancedFrom(ts, i + 1, Tail(open))
  ELSE BalancedFrom(ts, i + 1, open)
Balanced(ts) == BalancedFrom(ts, 1, <<>>)

(* the tokens outside of all brackets *)
RECURSIVE TopFrom(_, _, _)
TopFrom(ts, i, d) ==
  IF i > Len(ts) THEN <<>>
  ELSE IF ts[i] \in Opening THEN TopFrom(ts, i + 1, d + 1)
  ELSE IF ts[i] \in DOMAIN Closing THEN TopFrom(ts, i + 1, d - 1)
  ELSE (IF d = 0 THEN <<ts[i]>> ELSE <<>>) \o TopFrom(ts, i + 1, d)
Top(ts) == TopFrom(ts, 1, 0)

----------------------------------------------------------------------------
(* the clauses of a statement are those that its chain of calls asked for, in that order *)
KeywordOf ==
  "Match" :> <<"MATCH">> @@ "AnOptionalMatch" :> <<"OPTIONAL", "MATCH">> @@ "OptionalMatch" :> <<"OPTIONAL", "MATCH">> @@
  "Create" :> <<"CREATE">> @@ "Merge" :> <<"MERGE">> @@ "Delete" :> <<"DELETE">> @@ "DetachDelete" :> <<"DETACH", "DELETE">> @@
  "Set" :> <<"SET">> @@ "SetWithNamed" :> <<"SET">> @@ "SetByNode" :> <<"SET">> @@ "OnCreate" :> <<"ON", "CREATE">> @@ "OnMatch" :> <<"ON", "MATCH">> @@
  "Remove" :> <<"REMOVE">> @@ "RemoveByNode" :> <<"REMOVE">> @@ "Unwind" :> <<"UNWIND">> @@ "With" :> <<"WITH">> @@
  "WithDistinct" :> <<"WITH", "DISTINCT">> @@ "Call" :> <<"CALL">> @@ "Call1" :> <<"CALL">> @@ "ACall" :> <<"CALL">> @@ "ACallSimple" :> <<"CALL">> @@
  "StatementCall" :> <<"CALL">> @@ "ACallByStatement" :> <<"CALL">> @@ "YieldString" :> <<"YIELD">> @@ "YieldSymbolic" :> <<"YIELD">> @@
  "Returning" :> <<"RETURN">> @@ "ReturningDistinct" :> <<"RETURN", "DISTINCT">> @@ "CypherReturning" :> <<"RETURN">> @@
  "Union" :> <<"UNION">> @@ "UnionAll" :> <<"UNION", "ALL">>
Keywords == {"OPTIONAL", "MATCH", "CREATE", "MERGE", "DELETE", "DETACH", "SET", "ON", "REMOVE", "UNWIND", "WITH", "DISTINCT", "CALL", "YIELD", "RETURN"}

RECURSIVE Asked(_, _)
Asked(ops, h) == IF h = 0 THEN <<>>
                 ELSE Asked(ops, ops[h].r) \o (IF ops[h].m \in DOMAIN KeywordOf THEN KeywordOf[ops[h].m] ELSE <<>>)

ClauseLaw(ops, h, ts) == SelectSeq(Top(ts), LAMBDA t : t \in Keywords) = Asked(ops, h)

----------------------------------------------------------------------------
(* Conditions: what the calls mean and what the text means agree for every assignment.  In Cypher NOT binds stronger *)
(* than AND, AND stronger than XOR, XOR stronger than OR.                                                            *)
Leaves == {"A", "B", "C"}

RECURSIVE Meant(_, _, _)
Meant(ops, h, f) ==
  LET op == ops[h]
      l == Meant(ops, op.r, f)
      r == Meant(ops, op.a[1].v, f)
  IN CASE op.m = "IsTrue" -> f[ops[op.r].a[1].v]
       [] op.m = "And" -> l /\ r
       [] op.m = "Or" -> l \/ r
       [] op.m = "Xor" -> l # r
       [] op.m = "Not" -> ~l

RECURSIVE POr(_, _, _), PXor(_, _, _), PAnd(_, _, _), PNot(_, _, _), MoreOr(_, _, _), MoreXor(_, _, _), MoreAnd(_, _, _)
POr(ts, i, f) == MoreOr(ts, PXor(ts, i, f), f)
MoreOr(ts, x, f) == IF ts[x.i] = "OR" THEN LET y == PXor(ts, x.i + 1, f) IN MoreOr(ts, [i |-> y.i, b |-> x.b \/ y.b], f) ELSE x
PXor(ts, i, f) == MoreXor(ts, PAnd(ts, i, f), f)
MoreXor(ts, x, f) == IF ts[x.i] = "XOR" THEN LET y == PAnd(ts, x.i + 1, f) IN MoreXor(ts, [i |-> y.i, b |-> x.b # y.b], f) ELSE x
PAnd(ts, i, f) == MoreAnd(ts, PNot(ts, i, f), f)
MoreAnd(ts, x, f) == IF ts[x.i] = "AND" THEN LET y == PNot(ts, x.i + 1, f) IN MoreAnd(ts, [i |-> y.i, b |-> x.b /\ y.b], f) ELSE x
PNot(ts, i, f) == CASE ts[i] = "NOT" -> LET x == PNot(ts, i + 1, f) IN [x EXCEPT !.b = ~@]
                    [] ts[i] = "(" -> LET x == POr(ts, i + 1, f) IN [x EXCEPT !.i = @ + 1]
                    [] ts[i] \in Leaves /\ ts[i + 1] = "=" /\ ts[i + 2] = "true" -> [i |-> i + 3, b |-> f[ts[i]]]

At(ts, t) == CHOOSE i \in 1..Len(ts) : ts[i] = t

(* known finding KF1: (A AND B) OR (C .. D), and then AND E, is written without brackets around the OR *)
RECURSIVE Shape(_, _)
Shape(ops, h) == CASE ops[h].m \in {"And", "Or", "Xor"} -> "compound" [] OTHER -> "leaf"
KnownShape(ops, h) == ops[h].m \in {"And", "Xor"} /\ Shape(ops, ops[h].a[1].v) = "leaf" /\ ops[ops[h].r].m \in {"Or", "Xor"}
                      /\ Shape(ops, ops[ops[h].r].r) = "compound" /\ Shape(ops, ops[ops[h].r].a[1].v) = "compound"
RECURSIVE HasKnown(_, _)
HasKnown(ops, h) == CASE ops[h].m = "IsTrue" -> FALSE
                      [] ops[h].m = "Not" -> HasKnown(ops, ops[h].r)
                      [] OTHER -> KnownShape(ops, h) \/ HasKnown(ops, ops[h].r) \/ HasKnown(ops, ops[h].a[1].v)

TruthLaw(ops, h, ts) ==
  HasKnown(ops, h)
  \/ \A f \in [Leaves -> BOOLEAN] :
       LET x == POr(ts, At(ts, "WHERE") + 1, f) IN ts[x.i] = "RETURN" /\ x.b = Meant(ops, h, f)

----------------------------------------------------------------------------
(* Expressions: the tree that the text is read as is the tree that was built.  Trees are in prefix notation.           *)
SymOf == "Add" :> "+" @@ "Subtract" :> "-" @@ "Multiply" :> "*" @@ "Divide" :> "/" @@ "Remainder" :> "%" @@ "Pow" :> "^" @@
         "Lt" :> "<" @@ "IsEqualTo" :> "=" @@ "IsNotEqualTo" :> "<>" @@ "Lte" :> "<=" @@ "Gt" :> ">" @@ "Gte" :> ">=" @@ "Concat" :> "+"
RECURSIVE Built(_, _)
Built(ops, h) ==
  LET op == ops[h] IN
  CASE op.m = "ASymbolic" -> <<op.a[1].v>>
    [] op.m = "Property" -> <<"n", ".", op.a[1].v>>
    [] op.m = "IsNull" -> <<"NULL?">> \o Built(ops, op.r)
    [] op.m = "IsNotNull" -> <<"NOTNULL?">> \o Built(ops, op.r)
    [] OTHER -> <<SymOf[op.m]>> \o Built(ops, op.r) \o Built(ops, op.a[1].v)

(* Cypher: comparison < + - < * / % < ^ ; all from the left; IS NULL is a comparison *)
Level == "=" :> 1 @@ "<" :> 1 @@ "<>" :> 1 @@ "<=" :> 1 @@ ">" :> 1 @@ ">=" :> 1 @@ "+" :> 2 @@ "-" :> 2 @@ "*" :> 3 @@ "/" :> 3 @@ "%" :> 3 @@ "^" :> 4
Get(ts, i) == IF i <= Len(ts) THEN ts[i] ELSE "end"
RECURSIVE PBin(_, _, _), MoreBin(_, _, _), PAtom(_, _)
PBin(ts, i, lv) == IF lv > 4 THEN PAtom(ts, i) ELSE MoreBin(ts, PBin(ts, i, lv + 1), lv)
MoreBin(ts, x, lv) ==
  LET t == Get(ts, x.i) IN
  IF t \in DOMAIN Level /\ Level[t] = lv THEN LET y == PBin(ts, x.i + 1, lv + 1) IN MoreBin(ts, [i |-> y.i, t |-> <<t>> \o x.t \o y.t], lv)
  ELSE IF lv = 1 /\ t = "IS" /\ Get(ts, x.i + 1) = "NULL" THEN MoreBin(ts, [i |-> x.i + 2, t |-> <<"NULL?">> \o x.t], lv)
  ELSE IF lv = 1 /\ t = "IS" THEN MoreBin(ts, [i |-> x.i + 3, t |-> <<"NOTNULL?">> \o x.t], lv)
  ELSE x
PAtom(ts, i) == IF ts[i] = "(" THEN LET x == PBin(ts, i + 1, 1) IN [x EXCEPT !.i = @ + 1]
                ELSE IF Get(ts, i + 1) = "." THEN [i |-> i + 3, t |-> <<ts[i], ".", ts[i + 2]>>]
                ELSE [i |-> i + 1, t |-> <<ts[i]>>]

TreeLaw(ops, h, ts) == LET x == PBin(ts, 2, 1) IN x.i = Len(ts) + 1 /\ x.t = Built(ops, h)
=============================================================================
