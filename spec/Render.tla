------------------------------- MODULE Render -------------------------------
(* The text (as tokens) that a statement denotes.                           *)
(*                                                                          *)
(* Every element is a record with a kind k and an identity id; two elements *)
(* are the same element exactly if their ids are equal.  Rendering walks    *)
(* over the statement from left to right with the state                     *)
(*    o   the tokens written so far                                         *)
(*    s   the identities of the named nodes that have been described        *)
(*    a   which identities have an alias by now, and which                  *)
EXTENDS Lexis

Nil == [k |-> "nil", id |-> <<0, 0>>]
Err == [k |-> "err", id |-> <<0, 0>>]

St0 == [o |-> <<>>, s |-> {}, a |-> <<>>]
E(st, ts) == [st EXCEPT !.o = @ \o ts]

(* conditions: as an operand of anything but AND/OR/XOR they are put in parentheses *)
CondKinds == {"cmp", "cc", "hasl", "rpc", "excl", "const", "bfc", "exsub", "case"}
IsCond(v) == v.k \in CondKinds
IsPow(v) == v.k = "op" /\ v.o = "^"

SymbolLeft(d) == IF d = "rtl" THEN <<"<", "-">> ELSE <<"-">>
SymbolRight(d) == IF d = "ltr" THEN <<"-", ">">> ELSE <<"-">>

RECURSIVE LabelToks(_, _)
LabelToks(ls, i) == IF i > Len(ls) THEN <<>> ELSE <<":", NameTok(ls[i])>> \o LabelToks(ls, i + 1)

Types(ts) == LET nonEmpty == SelectSeq(ts, LAMBDA t : t # "")
                 RECURSIVE Go(_)
                 Go(i) == IF i > Len(nonEmpty) THEN <<>>
                          ELSE <<IF i = 1 THEN ":" ELSE "|", NameTok(nonEmpty[i])>> \o Go(i + 1)
             IN Go(1)

Length(l) == IF l.k = "nil" THEN <<>>
             ELSE IF l.min = "" /\ l.max = "" THEN <<"*">>
             ELSE <<"*">> \o (IF l.min = "" THEN <<>> ELSE <<l.min>>) \o <<"..">>
                          \o (IF l.max = "" THEN <<>> ELSE <<l.max>>)

RECURSIVE R(_, _)
RECURSIVE RSeq(_, _, _)
RECURSIVE RAll(_, _, _)

(* children that are separated by commas *)
RSeq(xs, i, st) == IF i > Len(xs) THEN st
                   ELSE RSeq(xs, i + 1, R(xs[i], IF i > 1 THEN E(st, <<",">>) ELSE st))
(* children one after the other *)
RAll(xs, i, st) == IF i > Len(xs) THEN st ELSE RAll(xs, i + 1, R(xs[i], st))

Opt(v, st, pre) == IF v.k = "nil" THEN st ELSE R(v, E(st, pre))
Par(v, st) == E(R(v, E(st, <<"(">>)), <<")">>)
Nest(v, st) == IF IsCond(v) THEN Par(v, st) ELSE R(v, st)
NestPow(v, st) == IF IsCond(v) \/ IsPow(v) THEN Par(v, st) ELSE R(v, st)

Where(w, st) == Opt(w, st, <<"WHERE">>)

RProps(p, st) == IF p.k = "nil" THEN st ELSE R(p, st)

RNode(n, st) ==
  IF n.sym.k # "nil" /\ n.id \in st.s THEN E(st, <<"(", NameTok(n.sym.s), ")">>)
  ELSE LET st1 == IF n.sym.k = "nil" THEN E(st, <<"(">>)
                  ELSE R(n.sym, [E(st, <<"(">>) EXCEPT !.s = @ \cup {n.id}])
       IN E(RProps(n.props, E(st1, LabelToks(n.labels, 1))), <<")">>)

RDetail(r, st) ==
  LET st1 == E(st, SymbolLeft(r.dir))
      content == r.sym.k # "nil" \/ Types(r.types) # <<>> \/ r.len.k # "nil" \/ r.props.k # "nil"
      st2 == IF ~content THEN st1
             ELSE LET a == E(st1, <<"[">>)
                      b == IF r.sym.k = "nil" THEN a ELSE R(r.sym, a)
                  IN E(RProps(r.props, E(b, Types(r.types) \o Length(r.len))), <<"]">>)
  IN E(st2, SymbolRight(r.dir))

RECURSIVE RChain(_, _, _)
RChain(rs, i, st) == IF i > Len(rs) THEN st
                     ELSE RChain(rs, i + 1, RDetail(rs[i], RNode(rs[i].l, st)))

RECURSIVE REntries(_, _, _)
REntries(es, i, st) ==
  IF i > Len(es) THEN st
  ELSE LET e == es[i]
           st0 == IF i > 1 THEN E(st, <<",">>) ELSE st
       IN REntries(es, i + 1,
            CASE e.t = "kv"  -> R(e.v, E(st0, <<NameTok(e.n), ":">>))
              [] e.t = "dot" -> E(st0, <<".", NameTok(e.n)>>)
              [] e.t = "all" -> E(st0, <<".", "*">>)
              [] e.t = "e"   -> R(e.v, st0))

RECURSIVE RWhens(_, _, _)
RWhens(ws, i, st) == IF i > Len(ws) THEN st
  ELSE RWhens(ws, i + 1, R(ws[i].t, E(R(ws[i].w, E(st, <<"WHEN">>)), <<"THEN">>)))

(* a compound: the conditions with the operator in front of all but the first; a compound inside brings its own *)
RECURSIVE RConds(_, _, _)
RConds(c, i, st) ==
  IF i > Len(c.cs) THEN st
  ELSE LET d == c.cs[i]
           op == IF d.k = "cc" THEN d.op ELSE c.op
       IN RConds(c, i + 1, R(d, IF i > 1 THEN E(st, <<op>>) ELSE st))

RBody(v, st) ==
  CASE v.k = "raw"  -> E(st, <<v.s>>)
    [] v.k = "sym"  -> E(st, <<NameTok(v.s)>>)
    [] v.k = "str"  -> E(st, <<StrTok(v.s)>>)
    [] v.k = "num"  -> E(st, NumToks(v.s))
    [] v.k = "bool" -> E(st, <<v.s>>)
    [] v.k = "null" -> E(st, <<"NULL">>)
    [] v.k = "ast"  -> E(st, <<"*">>)
    [] v.k = "param" -> E(st, ParamToks(v.s))
    [] v.k = "prop" -> E(NestPow(v.c, st), <<".", NameTok(v.n)>>)
    [] v.k = "aliased" ->
         IF v.d.id \in DOMAIN st.a THEN [E(st, <<NameTok(v.s)>>) EXCEPT !.a = (v.d.id :> v.s) @@ @]
         ELSE [E(R(v.d, st), <<"AS", NameTok(v.s)>>) EXCEPT !.a = (v.d.id :> v.s) @@ @]
    [] v.k = "fn"   -> E(RSeq(v.xs, 1, E(st, v.n \o <<"(">> \o (IF v.dist THEN <<"DISTINCT">> ELSE <<>>))), <<")">>)
    [] v.k = "op"   ->
         IF v.o = "^" THEN NestPow(v.r, E(NestPow(v.l, st), <<"^">>))
         ELSE E(Nest(v.r, E(Nest(v.l, E(st, <<"(">>)), <<v.o>>)), <<")">>)
    [] v.k = "set"  -> R(v.r, E(R(v.l, st), <<v.o>>))
    [] v.k = "lop"  -> E(R(v.n, st), LabelToks(v.ls, 1))
    [] v.k = "cmp"  ->
         LET st1 == IF v.l.k = "nil" THEN st ELSE Nest(v.l, st)
             st2 == E(st1, v.o)
         IN IF v.r.k = "nil" THEN st2 ELSE Nest(v.r, st2)
    [] v.k = "cc"   ->
         IF Len(v.cs) > 1 THEN E(RConds(v, 1, E(st, <<"(">>)), <<")">>) ELSE RConds(v, 1, st)
    [] v.k = "hasl" -> E(R(v.n, st), LabelToks(v.ls, 1))
    [] v.k = "rpc"  -> R(v.p, st)
    [] v.k = "excl" -> R(v.p, E(st, <<"NOT">>))
    [] v.k = "const" -> R(v.b, st)
    [] v.k = "bfc"  -> R(v.f, st)
    [] v.k = "exsub" -> E(R(v.m, E(st, <<"EXISTS", "{">>)), <<"}">>)
    [] v.k = "case" ->
         LET st1 == E(st, <<"CASE">>)
             st2 == IF v.e.k = "nil" THEN st1 ELSE R(v.e, st1)
         IN E(Opt(v.el, RWhens(v.ws, 1, st2), <<"ELSE">>), <<"END">>)
    [] v.k = "list" -> E(RSeq(v.xs, 1, E(st, <<"[">>)), <<"]">>)
    [] v.k = "map"  -> E(REntries(v.es, 1, E(st, <<"{">>)), <<"}">>)
    [] v.k = "kv"   -> R(v.v, E(st, <<NameTok(v.n), ":">>))
    [] v.k = "mproj" -> E(REntries(v.es, 1, E(R(v.n, st), <<"{">>)), <<"}">>)
    [] v.k = "listop" ->
         LET st1 == E(NestPow(v.t, st), <<"[">>)
             st2 == IF v.a.k = "nil" THEN st1 ELSE R(v.a, st1)
             st3 == IF v.dots THEN E(st2, <<"..">>) ELSE st2
             st4 == IF v.b.k = "nil" THEN st3 ELSE R(v.b, st3)
         IN E(st4, <<"]">>)
    [] v.k = "lcomp" ->
         LET st1 == Where(v.w, R(v.l, E(R(v.v, E(st, <<"[">>)), <<"IN">>)))
         IN E(Opt(v.d, st1, <<"|">>), <<"]">>)
    [] v.k = "pcomp" -> E(R(v.d, E(Where(v.w, R(v.p, E(st, <<"[">>))), <<"|">>)), <<"]">>)
    [] v.k = "lpred" -> E(Where(v.w, R(v.l, E(R(v.v, E(st, <<v.n, "(">>)), <<"IN">>))), <<")">>)
    [] v.k = "pat"  -> RSeq(v.xs, 1, st)
    [] v.k = "node" -> RNode(v, st)
    [] v.k = "rel"  -> RNode(v.r, RDetail(v, RNode(v.l, st)))
    [] v.k = "chain" -> RNode(v.rs[Len(v.rs)].r, RChain(v.rs, 1, st))
    [] v.k = "path" -> R(v.p, E(R(v.sym, st), <<"=">>))
    [] v.k = "sort" -> E(R(v.e, st), IF v.dir = "" THEN <<>> ELSE <<v.dir>>)
    \* clauses
    [] v.k = "match" ->
         Where(v.w, RSeq(v.xs, 1, E(st, (IF v.opt THEN <<"OPTIONAL">> ELSE <<>>) \o <<"MATCH">>)))
    [] v.k = "create" -> RSeq(v.xs, 1, E(st, <<"CREATE">>))
    [] v.k = "merge" -> RAll(v.acts, 1, RSeq(v.xs, 1, E(st, <<"MERGE">>)))
    [] v.k = "on"   -> RSeq(v.xs, 1, E(st, <<"ON", v.w, "SET">>))
    [] v.k = "delete" -> RSeq(v.xs, 1, E(st, (IF v.detach THEN <<"DETACH">> ELSE <<>>) \o <<"DELETE">>))
    [] v.k = "setc" -> RSeq(v.xs, 1, E(st, <<"SET">>))
    [] v.k = "remove" -> RSeq(v.xs, 1, E(st, <<"REMOVE">>))
    [] v.k = "unwind" -> E(R(v.e, E(st, <<"UNWIND">>)), <<"AS", NameTok(v.s)>>)
    [] v.k \in {"with", "ret"} ->
         LET st1 == E(st, (IF v.k = "with" THEN <<"WITH">> ELSE <<"RETURN">>) \o (IF v.dist THEN <<"DISTINCT">> ELSE <<>>))
             st2 == RSeq(v.xs, 1, st1)
             st3 == IF v.ord = <<>> THEN st2 ELSE RSeq(v.ord, 1, E(st2, <<"ORDER", "BY">>))
             st4 == IF v.skip = "" THEN st3 ELSE E(st3, <<"SKIP", v.skip>>)
             st5 == IF v.lim = "" THEN st4 ELSE E(st4, <<"LIMIT", v.lim>>)
         IN Where(v.w, st5)
    [] v.k = "pcall" ->
         LET st1 == E(RSeq(v.args, 1, E(st, <<"CALL">> \o v.n \o <<"(">>)), <<")">>)
             st2 == IF v.ys = <<>> THEN st1 ELSE RSeq(v.ys, 1, E(st1, <<"YIELD">>))
         IN Where(v.w, st2)
    [] v.k = "subq" -> E(R(v.q, E(st, <<"CALL", "{">>)), <<"}">>)
    \* statements
    [] v.k = "stmt" -> RAll(v.cl, 1, st)
    [] v.k = "union" ->
         LET sep == <<"UNION">> \o (IF v.all THEN <<"ALL">> ELSE <<>>)
             RECURSIVE Go(_, _)
             Go(i, s) == IF i > Len(v.qs) THEN s ELSE Go(i + 1, R(v.qs[i], IF i > 1 THEN E(s, sep) ELSE s))
         IN Go(1, st)
    [] OTHER -> E(st, <<"?" \o v.k>>)

R(v, st) == IF v.id \in DOMAIN st.a THEN E(st, <<NameTok(st.a[v.id])>>) ELSE RBody(v, st)

Tokens(stmt) == R(stmt, St0).o
=============================================================================
