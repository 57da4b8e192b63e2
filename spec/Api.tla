-------------------------------- MODULE Api --------------------------------
(* What every call of the public interface gives.  A program is a sequence  *)
(* of operations op = [m, r, a]: method m of the value number r (r = 0: a   *)
(* function of the package) with the arguments a.  Apply(i, op, env) is the *)
(* value of operation number i, env the values of the operations before it. *)
(*                                                                          *)
(* Values are immutable: an operation only ever makes a new value.  A value *)
(* that was made from something invalid is Err, and whatever is made from   *)
(* Err is Err, up to the statement.                                         *)
EXTENDS Render

------------------------------------------------------------------------------
(* Arguments                                                                  *)

RECURSIVE ArgErr(_, _)
ArgErr(a, env) == CASE a.t = "h" -> env[a.v].k = "err"
                    [] a.t = "l" -> \E j \in DOMAIN a.v : ArgErr(a.v[j], env)
                    [] OTHER -> FALSE

HV(a, env) == IF a.t = "h" THEN env[a.v] ELSE Nil
HList(a, env) == [j \in 1..Len(a.v) |-> HV(a.v[j], env)]
SList(a) == [j \in 1..Len(a.v) |-> a.v[j].v]

AllSet(xs) == \A j \in DOMAIN xs : xs[j].k # "nil"
NoneEmpty(ss) == \A j \in DOMAIN ss : ss[j] # ""
Check(ok, v) == IF ok THEN v ELSE Err
IsNeg(s) == Len(s) > 0 /\ Ch(s, 1) = "-"

------------------------------------------------------------------------------
(* Constructors                                                               *)

SymV(id, s) == IF s = "" THEN Err ELSE [k |-> "sym", id |-> id, s |-> s]
StrV(id, s) == [k |-> "str", id |-> id, s |-> s]
NumV(id, s) == IF s \in {"NaN", "Inf", "-Inf"} THEN Err ELSE [k |-> "num", id |-> id, s |-> s]
BoolV(id, b) == [k |-> "bool", id |-> id, s |-> IF b THEN "true" ELSE "false"]
NullV(id) == [k |-> "null", id |-> id]
ListV(id, xs) == [k |-> "list", id |-> id, xs |-> xs]
FnV(id, n, xs, d) == [k |-> "fn", id |-> id, n |-> n, xs |-> xs, dist |-> d]
F(id, n, xs) == FnV(id, <<n>>, xs, FALSE)
CmpV(id, l, o, r) == [k |-> "cmp", id |-> id, l |-> l, o |-> o, r |-> r]
OpV(id, l, o, r) == [k |-> "op", id |-> id, l |-> l, o |-> o, r |-> r]
SetV(id, l, r) == [k |-> "set", id |-> id, l |-> l, o |-> "=", r |-> r]
MapV(id, es) == [k |-> "map", id |-> id, es |-> es]
PropV(id, c, n) == IF n = "" THEN Err ELSE [k |-> "prop", id |-> id, c |-> c, n |-> n]
AliasV(id, d, s) == IF s = "" THEN Err ELSE [k |-> "aliased", id |-> id, d |-> d, s |-> s]
RpcV(id, p) == [k |-> "rpc", id |-> id, p |-> p]
BfcV(id, f) == [k |-> "bfc", id |-> id, f |-> f]
PatV(id, xs) == [k |-> "pat", id |-> id, xs |-> xs]

(* the values of the package *)
Global == [TRUE |-> BoolV(<<0, 1>>, TRUE), FALSE |-> BoolV(<<0, 2>>, FALSE),
           TRUE_CONDITION |-> [k |-> "const", id |-> <<0, 3>>, b |-> BoolV(<<0, 1>>, TRUE)],
           FALSE_CONDITION |-> [k |-> "const", id |-> <<0, 4>>, b |-> BoolV(<<0, 2>>, FALSE)],
           EMPTY_CONDITION |-> [k |-> "cc", id |-> <<0, 5>>, op |-> "", cs |-> <<>>],
           ASTERISK |-> [k |-> "ast", id |-> <<0, 6>>],
           NIL_INSTANCE |-> NullV(<<0, 7>>)]

(* a Go value as a literal; values that are expressions already are taken as they are where that is allowed *)
LitV(id, a, env) ==
  CASE a.t = "n" -> NullV(id)
    [] a.t = "s" -> StrV(id, a.v)
    [] a.t \in {"i", "f"} -> NumV(id, a.v)
    [] a.t = "b" -> BoolV(id, a.v)
    [] a.t = "l" -> LET xs == HList(a, env) IN Check(AllSet(xs), ListV(id, xs))
    [] OTHER -> Err
LitOrExpr(id, a, env) == IF a.t = "h" THEN env[a.v] ELSE LitV(id, a, env)

(* a, b, ... as a map: alternating keys and values *)
MapFrom(id, as, env) ==
  LET n == Len(as) \div 2
      es == [j \in 1..n |-> [t |-> "kv", n |-> as[2*j-1].v, v |-> LitOrExpr(<<id[1], 1000 + j>>, as[2*j], env)]]
  IN Check(/\ Len(as) % 2 = 0
           /\ \A j \in 1..n : as[2*j-1].t = "s" /\ as[2*j-1].v # "" /\ es[j].v.k \notin {"err", "nil"}
           /\ \A x, y \in 1..n : es[x].n = es[y].n => x = y,
           MapV(id, es))

Sym(v) == v.sym                        \* of a node, relationship or path; Nil if there is no name
HasName(v) == v.k \in {"node", "rel", "path"} /\ v.sym.k # "nil"

(* the entries of a map projection *)
RECURSIVE Entries(_, _, _)
Entries(as, i, env) ==
  IF i > Len(as) THEN <<>>
  ELSE LET a == as[i]
           v == IF a.t = "h" THEN (IF env[a.v].k \in {"node", "rel", "path"} THEN Sym(env[a.v]) ELSE env[a.v]) ELSE Nil
           nx == IF i < Len(as) /\ as[i+1].t = "h"
                 THEN (IF env[as[i+1].v].k \in {"node", "rel", "path"} THEN Sym(env[as[i+1].v]) ELSE env[as[i+1].v])
                 ELSE Nil
           bad == [t |-> "bad", n |-> "", v |-> Nil]
       IN IF a.t = "s"
          THEN IF a.v = "" THEN <<bad>>
               ELSE IF i < Len(as) /\ as[i+1].t = "h"
               THEN <<IF nx.k = "nil" THEN bad ELSE [t |-> "kv", n |-> a.v, v |-> nx, key |-> TRUE]>> \o Entries(as, i + 2, env)
               ELSE <<[t |-> "dot", n |-> a.v, v |-> Nil]>> \o Entries(as, i + 1, env)
          ELSE <<CASE v.k = "ast" -> [t |-> "all", n |-> "", v |-> Nil]
                   [] v.k = "sym" -> [t |-> "e", n |-> "", v |-> v]
                   [] v.k = "prop" -> [t |-> "dot", n |-> v.n, v |-> Nil]
                   [] v.k = "aliased" -> [t |-> "kv", n |-> v.s, v |-> v.d]
                   [] OTHER -> bad>> \o Entries(as, i + 1, env)

Explicit(es) == { j \in DOMAIN es : "key" \in DOMAIN es[j] }   \* the keys that were given as strings
ProjV(id, n, old, as, env) ==
  LET es == Entries(as, 1, env)
  IN Check(/\ n.k = "sym"
           /\ \A j \in DOMAIN es : es[j].t # "bad"
           /\ \A x, y \in Explicit(es) : es[x].n = es[y].n => x = y,
           [k |-> "mproj", id |-> id, n |-> n, es |-> old \o es])

------------------------------------------------------------------------------
(* Conditions.  EMPTY_CONDITION and the compounds without conditions are absent. *)

Absent(c) == c.k = "nil" \/ (c.k = "cc" /\ c.cs = <<>>)
CC0(id, op) == [k |-> "cc", id |-> id, op |-> op, cs |-> <<>>]
Prec(op) == CASE op = "AND" -> 3 [] op = "XOR" -> 2 [] OTHER -> 1
JoinedBy(c, i) == IF c.cs[i].k = "cc" THEN c.cs[i].op ELSE c.op
Looser(c, op) == \E i \in 2..Len(c.cs) : Prec(JoinedBy(c, i)) < Prec(op)
Flat(d, op) == \A i \in DOMAIN d.cs : d.cs[i].k = "cc" => d.cs[i].op = op
More(c, id, ds) == [c EXCEPT !.cs = @ \o ds, !.id = id]

RECURSIVE AddC(_, _, _, _)
Both(l, op, r, id) == AddC(AddC(CC0(id, op), op, l, id), op, r, id)
AddC(c0, op, d, id) ==
  IF c0.op = "" THEN AddC(CC0(id, op), op, d, id)
  ELSE IF d.k = "cc" /\ d.cs = <<>> THEN c0
  ELSE LET c == IF Len(c0.cs) = 1 THEN [c0 EXCEPT !.op = op] ELSE c0
           compound == d.k = "cc"
       IN IF Looser(c, op) /\ (compound \/ c.op # op) THEN Both(c, op, d, id)
          ELSE IF compound
          THEN IF c.op = op /\ d.op = op
               THEN More(c, id, IF Flat(d, op) THEN d.cs ELSE <<d>>)
               ELSE More(c, id, << [CC0(id, op) EXCEPT !.cs = <<d>>, !.id = <<id[1], 9>>] >>)
          ELSE IF c.op = op THEN More(c, id, <<d>>)
          ELSE Both(c, op, d, id)

Join(c, op, d, id) == IF c.k = "cc" THEN AddC(c, op, d, id) ELSE Both(c, op, d, id)

(* the condition w of a WHERE and one more *)
JoinW(w, op, c, id) == IF c.k = "nil" THEN w ELSE IF w.k = "nil" THEN c ELSE Join(w, op, c, id)
Present(w) == IF Absent(w) THEN Nil ELSE w

------------------------------------------------------------------------------
(* Patterns                                                                   *)

NodeV(id, sym, labels, props) == [k |-> "node", id |-> id, sym |-> sym, labels |-> labels, props |-> props]
RelV(id, l, r, dir, sym, types, len, props) ==
  [k |-> "rel", id |-> id, l |-> l, r |-> r, dir |-> dir, sym |-> sym, types |-> types, len |-> len, props |-> props]
LenV(mn, mx) == [k |-> "len", min |-> mn, max |-> mx]
Dir == [RelationshipTo |-> "ltr", RelationshipFrom |-> "rtl", RelationshipBetween |-> "uni"]
MinOf(l) == IF l.k = "nil" THEN "" ELSE l.min
MaxOf(l) == IF l.k = "nil" THEN "" ELSE l.max

(* changes of the details of one relationship *)
RelChange(id, m, r, as, env) ==
  CASE m \in {"Named", "NamedByString", "NamedC"} ->
         LET s == SymV(<<id[1], 1>>, as[1].v) IN Check(s.k # "err", [r EXCEPT !.id = id, !.sym = s])
    [] m = "Min" -> Check(~IsNeg(as[1].v), [r EXCEPT !.id = id, !.len = LenV(as[1].v, MaxOf(r.len))])
    [] m = "Max" -> Check(~IsNeg(as[1].v), [r EXCEPT !.id = id, !.len = LenV(MinOf(r.len), as[1].v)])
    [] m = "Length" -> Check(~IsNeg(as[1].v) /\ ~IsNeg(as[2].v), [r EXCEPT !.id = id, !.len = LenV(as[1].v, as[2].v)])
    [] m = "Unbounded" -> [r EXCEPT !.id = id, !.len = LenV("", "")]
    [] m \in {"WithProperties", "Properties"} -> [r EXCEPT !.id = id, !.props = HV(as[1], env)]
    [] m \in {"WithRawProperties", "PropertiesRaw"} ->
         IF as[1].v = <<>> THEN (IF r.props.k = "nil" THEN r ELSE [r EXCEPT !.id = id, !.props = Nil])
         ELSE LET p == MapFrom(<<id[1], 2>>, as[1].v, env) IN Check(p.k # "err", [r EXCEPT !.id = id, !.props = p])

RelOps == {"Min", "Max", "Length", "Unbounded"}

------------------------------------------------------------------------------
(* Statements.  A db is a statement under construction: the clauses that are  *)
(* complete and the one that is still open.                                   *)

Db(id, cl, open) == [k |-> "db", id |-> id, cl |-> cl, open |-> open]
Closed(d) == IF d.open.k = "nil" THEN d.cl ELSE Append(d.cl, d.open)
WhereOf(c) == [c EXCEPT !.w = Present(@)]
WithOf(b) == [k |-> "with", id |-> b.id, dist |-> b.dist, xs |-> b.xs, skip |-> b.skip, lim |-> b.lim, w |-> Present(b.w),
              ord |-> IF b.pend.k = "nil" THEN b.ord ELSE Append(b.ord, b.pend)]
(* the clauses of any builder, all of them complete *)
Clauses(b) == CASE b.k = "db" -> (IF b.open.k \in {"match", "pcall"} THEN Append(b.cl, WhereOf(b.open)) ELSE Closed(b))
                [] b.k = "wb" -> Append(b.cl, WithOf(b))
                [] b.k = "cb" -> Append(b.cl, WhereOf(b.call))

StmtV(id, cl, ret) == [k |-> "stmt", id |-> id, cl |-> cl, ret |-> ret]
Build(b, id) ==
  CASE b.k = "db" -> LET cl == Clauses(b) IN Check(cl # <<>> /\ cl[Len(cl)].k \notin {"match", "with"}, StmtV(id, cl, FALSE))
    [] b.k = "rb" -> StmtV(id, Append(b.cl, [k |-> "ret", id |-> id, dist |-> b.dist, xs |-> b.xs, skip |-> b.skip,
                                             lim |-> b.lim, w |-> Nil,
                                             ord |-> IF b.pend.k = "nil" THEN b.ord ELSE Append(b.ord, b.pend)]), TRUE)
    [] b.k = "cb" -> WhereOf([b.call EXCEPT !.id = id])

ReturnsElements(q) == CASE q.k = "stmt" -> q.ret [] q.k = "pcall" -> q.ys # <<>> [] OTHER -> TRUE

Items(k, id, cl, dist, xs) ==
  Check(xs # <<>> /\ \A j \in DOMAIN xs : xs[j].k \notin {"nil", "err"},
        [k |-> k, id |-> id, cl |-> cl, dist |-> dist, xs |-> xs, ord |-> <<>>, pend |-> Nil, skip |-> "", lim |-> "", w |-> Nil])
SortV(id, e, dir) == Check(e.k # "nil", [k |-> "sort", id |-> id, e |-> e, dir |-> dir])

(* the names of things, as expressions *)
SymsByString(i, ss) == [j \in 1..Len(ss) |-> SymV(<<i, 10 + j>>, ss[j])]
SymsByNamed(vs) == [j \in 1..Len(vs) |-> IF vs[j].k = "nil" \/ ~HasName(vs[j]) THEN Err ELSE Sym(vs[j])]

(* items of SET: an assignment or label operation is one, two other expressions are target and value of one *)
RECURSIVE SetItems(_, _, _, _, _)
SetItems(xs, j, target, done, i) ==
  IF j > Len(xs) THEN (IF target.k = "nil" THEN done ELSE <<Err>>)
  ELSE IF xs[j].k = "nil" THEN <<Err>>
  ELSE IF xs[j].k \in {"set", "lop"} THEN SetItems(xs, j + 1, target, Append(done, xs[j]), i)
  ELSE IF target.k = "nil" THEN SetItems(xs, j + 1, xs[j], done, i)
  ELSE SetItems(xs, j + 1, Nil, Append(done, SetV(<<i, 20 + j>>, target, xs[j])), i)

Updating(k, id, cl, xs, extra) ==
  Check(xs # <<>> /\ \A j \in DOMAIN xs : xs[j].k \notin {"nil", "err"},
        Db(id, cl, [k |-> k, id |-> id, xs |-> xs] @@ extra))
None == [w |-> Nil]

LabelOp(id, n, ls) == Check(HasName(n) /\ ls # <<>> /\ NoneEmpty(ls), [k |-> "lop", id |-> id, n |-> Sym(n), ls |-> ls])

ReturnNames == {"Returning", "ReturningByString", "ReturningByNamed",
                "ReturningDistinct", "ReturningDistinctByString", "ReturningDistinctByNamed"}
WithNames == {"With", "WithByString", "WithByNamed", "WithDistinct", "WithDistinctByString", "WithDistinctByNamed"}
DeleteNames == {"Delete", "DeleteByString", "DeleteByNamed", "DetachDelete", "DetachDeleteByString", "DetachDeleteByNamed"}
DistinctNames == {"ReturningDistinct", "ReturningDistinctByString", "ReturningDistinctByNamed",
                  "WithDistinct", "WithDistinctByString", "WithDistinctByNamed"}
ByString == {"ReturningByString", "ReturningDistinctByString", "WithByString", "WithDistinctByString",
             "DeleteByString", "DetachDeleteByString"}
ByNamed == {"ReturningByNamed", "ReturningDistinctByNamed", "WithByNamed", "WithDistinctByNamed",
            "DeleteByNamed", "DetachDeleteByNamed"}
Detach == {"DetachDelete", "DetachDeleteByString", "DetachDeleteByNamed"}
MatchNames == {"Match", "OptionalMatch", "MatchDefault"}

ExprArgs(i, m, a, env) == IF m \in ByString THEN SymsByString(i, SList(a))
                          ELSE IF m \in ByNamed THEN SymsByNamed(HList(a, env)) ELSE HList(a, env)

ProcName(ss) == JoinDots(IF Len(ss) = 1 THEN SplitDots(ss[1]) ELSE ss, 1)
CallV(id, n) == [k |-> "pcall", id |-> id, n |-> n, args |-> <<>>, ys |-> <<>>, w |-> Nil]
Cb(id, cl, call) == [k |-> "cb", id |-> id, cl |-> cl, call |-> call]

MatchClause(id, cl, opt, xs) ==
  Check(xs # <<>> /\ AllSet(xs), Db(id, cl, [k |-> "match", id |-> id, opt |-> opt, xs |-> xs, w |-> Nil]))

(* the calls that start the next clause, after the clauses cl *)
Continue(i, m, as, env, cl) ==
  LET id == <<i, 0>> IN
  CASE m \in ReturnNames -> Items("rb", id, cl, m \in DistinctNames, ExprArgs(i, m, as[1], env))
    [] m \in WithNames -> Items("wb", id, cl, m \in DistinctNames, ExprArgs(i, m, as[1], env))
    [] m \in DeleteNames -> Updating("delete", id, cl, ExprArgs(i, m, as[1], env), None @@ [detach |-> m \in Detach])
    [] m = "Match" -> MatchClause(id, cl, FALSE, HList(as[1], env))
    [] m = "OptionalMatch" -> MatchClause(id, cl, TRUE, HList(as[1], env))
    [] m = "MatchDefault" -> MatchClause(id, cl, as[1].v, HList(as[2], env))
    [] m = "Create" -> Updating("create", id, cl, HList(as[1], env), None)
    [] m = "Merge" -> Updating("merge", id, cl, HList(as[1], env), None @@ [acts |-> <<>>])
    [] m = "Set" -> Updating("setc", id, cl, SetItems(HList(as[1], env), 1, Nil, <<>>, i), None)
    [] m = "SetWithNamed" ->
         LET n == HV(as[1], env) IN
         IF ~HasName(n) THEN Err
         ELSE Updating("setc", id, cl, SetItems(<<Sym(n), HV(as[2], env)>>, 1, Nil, <<>>, i), None)
    [] m = "SetByNode" -> Updating("setc", id, cl, <<LabelOp(id, HV(as[1], env), SList(as[2]))>>, None)
    [] m = "RemoveByNode" -> Updating("remove", id, cl, <<LabelOp(id, HV(as[1], env), SList(as[2]))>>, None)
    [] m = "Remove" -> Updating("remove", id, cl, HList(as[1], env), None)
    [] m = "Unwind" -> LET e == HV(as[1], env) IN
         Check(e.k # "nil", [k |-> "unw", id |-> id, cl |-> cl,
                             e |-> IF e.k = "aliased" THEN SymV(<<i, 1>>, e.s) ELSE e])
    [] m = "Unwinds" -> LET xs == HList(as[1], env) IN
         Check(AllSet(xs), [k |-> "unw", id |-> id, cl |-> cl, e |-> ListV(<<i, 1>>, xs)])
    [] m = "UnwindByString" -> LET e == SymV(<<i, 1>>, as[1].v) IN
         Check(e.k # "err", [k |-> "unw", id |-> id, cl |-> cl, e |-> e])
    [] m = "Call" -> LET q == HV(as[1], env) IN
         Check(q.k # "nil" /\ ReturnsElements(q), Db(id, Append(cl, [k |-> "subq", id |-> id, q |-> q]), Nil))
    [] m = "Call1" -> LET ss == SList(as[1]) IN
         Check(ss # <<>> /\ NoneEmpty(ss), Cb(id, cl, CallV(id, ProcName(ss))))

ContinueNames == ReturnNames \cup WithNames \cup DeleteNames \cup MatchNames \cup
  {"Create", "Merge", "Set", "SetWithNamed", "SetByNode", "RemoveByNode", "Remove", "Unwind", "Unwinds", "UnwindByString",
   "Call", "Call1"}

CondOf(i, m, as, env) ==   \* the condition a Where/And/Or was given
  LET v == HV(as[1], env) IN
  IF m \in {"WherePattern", "AndPattern", "OrPattern", "XorPattern"}
  THEN Check(v.k # "nil", RpcV(<<i, 1>>, v)) ELSE v
WhereNames == {"Where", "WhereConditionContainer", "WherePattern"}
AndNames == {"And", "AndPattern"}
OrNames == {"Or", "OrPattern"}
XorNames == {"Xor", "XorPattern"}
JoinNames == WhereNames \cup AndNames \cup OrNames
NewW(i, m, as, env, w) ==
  LET c == CondOf(i, m, as, env) IN
  IF c.k = "err" THEN Err
  ELSE IF m \in WhereNames THEN c ELSE JoinW(w, IF m \in AndNames THEN "AND" ELSE "OR", c, <<i, 2>>)

(* order, skip and limit of WITH and RETURN *)
OrderNames == {"OrderBy", "OrderByExpression", "And1", "OrderBySortItem", "Ascending", "Descending", "Skip", "Limit"}
FlushPend(b) == IF b.pend.k = "nil" THEN b ELSE [b EXCEPT !.ord = Append(@, b.pend), !.pend = Nil]
OrderOp(i, m, as, env, b) ==
  LET id == <<i, 0>> IN
  CASE m \in {"OrderBy", "OrderByExpression", "And1", "And"} ->
         LET e == HV(as[1], env) IN Check(e.k # "nil", [FlushPend(b) EXCEPT !.pend = SortV(<<i, 1>>, e, ""), !.id = id])
    [] m = "OrderBySortItem" -> LET xs == HList(as[1], env) f == FlushPend(b) IN [f EXCEPT !.ord = @ \o xs, !.id = id]
    [] m = "Ascending" -> [b EXCEPT !.ord = Append(@, [b.pend EXCEPT !.dir = "ASC"]), !.pend = Nil, !.id = id]
    [] m = "Descending" -> [b EXCEPT !.ord = Append(@, [b.pend EXCEPT !.dir = "DESC"]), !.pend = Nil, !.id = id]
    [] m = "Skip" -> Check(~IsNeg(as[1].v), [b EXCEPT !.skip = as[1].v, !.id = id])
    [] m = "Limit" -> Check(~IsNeg(as[1].v) /\ as[1].v # "0", [b EXCEPT !.lim = as[1].v, !.id = id])

------------------------------------------------------------------------------
(* Functions                                                                  *)

(* name of the helper |-> name of the Cypher function *)
FnExpr == [Avg |-> "avg", Collect |-> "collect", Max |-> "max", Min |-> "min", StDev |-> "stDev", StDevP |-> "stDevP",
           Sum |-> "sum", CountByExpression |-> "count", ToLower |-> "toLower", Size |-> "size", Exists |-> "exists",
           Head |-> "head", Last |-> "last", Point |-> "point", PointByParameter |-> "point",
           PropertiesByMapExpression |-> "properties",
           DateWithComponents |-> "date", DateTimeWithComponents |-> "datetime",
           LocalDateTimeWithComponents |-> "localdatetime", LocalTimeWithComponents |-> "localtime",
           TimeWithComponents |-> "time", DurationWithComponents |-> "duration",
           DateWithExpression |-> "date", DateTimeWithExpression |-> "datetime",
           LocalDateTimeWithExpression |-> "localdatetime", LocalTimeWithExpression |-> "localtime",
           TimeWithExpression |-> "time", DurationWithExpression |-> "duration"]
FnDistinct == [AvgDistinct |-> "avg", CollectDistinct |-> "collect", MaxDistinct |-> "max", MinDistinct |-> "min",
               StDevDistinct |-> "stDev", StDevPDistinct |-> "stDevP", SumDistinct |-> "sum",
               CountDistinctByExpression |-> "count"]
FnNode == [IdByNode |-> "id", Labels |-> "labels", Count |-> "count", FunctionProperties |-> "properties"]
FnRel == [IdByRelationship |-> "id", FunctionType |-> "type", FunctionPropertiesByRelationship |-> "properties",
          StartNode |-> "startNode", EndNode |-> "endNode"]
FnNone == [Date |-> "date", Datetime |-> "datetime", LocalDatetime |-> "localdatetime", Localtime |-> "localtime", Time |-> "time"]
FnString == [DateWithTemporal |-> "date", DateTimeWithTemporal |-> "datetime", LocalDateTimeWithTemporal |-> "localdatetime",
             LocalTimeWithTemporal |-> "localtime", TimeWithTemporal |-> "time", DurationWithTemporal |-> "duration"]
FnZone == [LocalDateTimeWithTimezone |-> "localdatetime", LocalTimeWithTimezone |-> "localtime", TimeWithTimeZone |-> "time"]
FnPercentile == [PercentileCont |-> "percentileCont", PercentileDisc |-> "percentileDisc",
                 PercentileContDistinct |-> "percentileCont", PercentileDiscDistinct |-> "percentileDisc"]
FnParts == [CalendarDate |-> <<"year", "month", "day">>, WeekDate |-> <<"year", "week", "dayOfWeek">>,
            QuarterDate |-> <<"year", "quarter", "dayOfQuarter">>, OrdinalDate |-> <<"year", "ordinalDay">>]
FnPred == [PredicateAll |-> "all", PredicateAny |-> "any", PredicateNone |-> "none", PredicateSingle |-> "single"]
FnPredSym == [PredicateAllBySymbolicName |-> "all", PredicateAnyBySymbolicName |-> "any",
              PredicateNoneBySymbolicName |-> "none", PredicateSingleBySymbolicName |-> "single"]

IsFraction(s) == s \in {"0", "1"} \/ (Len(s) > 2 /\ SubSeq(s, 1, 2) = "0.")

Reject == [k |-> "unsupported", id |-> <<0, 0>>]      \* not part of the specification: the harness must not do this

Function(i, m, as, env) ==
  LET id == <<i, 0>>
      H(j) == HV(as[j], env)
      Set1(j, v) == Check(H(j).k # "nil", v)
      Named1(j, v) == Check(HasName(H(j)), v)
  IN
  CASE m \in DOMAIN FnExpr -> Set1(1, F(id, FnExpr[m], <<H(1)>>))
    [] m \in DOMAIN FnDistinct -> Set1(1, FnV(id, <<FnDistinct[m]>>, <<H(1)>>, TRUE))
    [] m \in DOMAIN FnNode -> Named1(1, F(id, FnNode[m], <<Sym(H(1))>>))
    [] m = "CountDistinct" -> Named1(1, FnV(id, <<"count">>, <<Sym(H(1))>>, TRUE))
    [] m = "CollectByNamed" -> Named1(1, F(id, "collect", <<Sym(H(1))>>))
    [] m = "CollectDistinctByNamed" -> Named1(1, FnV(id, <<"collect">>, <<Sym(H(1))>>, TRUE))
    [] m \in DOMAIN FnRel -> Named1(1, F(id, FnRel[m], <<Sym(H(1))>>))
    [] m \in {"Nodes", "Relationships"} -> Named1(1, F(id, IF m = "Nodes" THEN "nodes" ELSE "relationships", <<Sym(H(1))>>))
    [] m \in DOMAIN FnNone -> F(id, FnNone[m], <<>>)
    [] m \in DOMAIN FnString -> Check(as[1].v # "", F(id, FnString[m], <<StrV(<<i, 1>>, as[1].v)>>))
    [] m \in DOMAIN FnZone ->
         F(id, FnZone[m], <<MapV(<<i, 1>>, <<[t |-> "kv", n |-> "timezone", v |-> StrV(<<i, 2>>, as[1].v)]>>)>>)
    [] m \in DOMAIN FnPercentile ->
         Check(H(1).k # "nil" /\ IsFraction(as[2].v),
               FnV(id, <<FnPercentile[m]>>, <<H(1), NumV(<<i, 1>>, as[2].v)>>,
                   m \in {"PercentileContDistinct", "PercentileDiscDistinct"}))
    [] m \in DOMAIN FnParts ->
         F(id, "date", <<MapV(<<i, 1>>, [j \in 1..Len(FnParts[m]) |->
             [t |-> "kv", n |-> FnParts[m][j], v |-> NumV(<<i, 10 + j>>, as[j].v)]])>>)
    [] m = "Coalesce" -> LET xs == HList(as[1], env) IN Check(xs # <<>> /\ AllSet(xs), F(id, "coalesce", xs))
    [] m = "Distance" -> Check(H(1).k # "nil" /\ H(2).k # "nil", F(id, "distance", <<H(1), H(2)>>))
    [] m = "Range" -> Check(H(1).k # "nil" /\ H(2).k # "nil", F(id, "range", <<H(1), H(2)>>))
    [] m = "RangeWithStep" -> Check(H(1).k # "nil" /\ H(2).k # "nil",
                                    F(id, "range", IF H(3).k = "nil" THEN <<H(1), H(2)>> ELSE <<H(1), H(2), H(3)>>))
    [] m \in {"RangeRaw", "RangeWithStepRaw"} -> F(id, "range", [j \in 1..Len(as) |-> NumV(<<i, j>>, as[j].v)])
    [] m = "SizeByPattern" -> Set1(1, F(id, "size", <<PatV(<<i, 1>>, <<H(1)>>)>>))
    [] m = "ShortestPath" -> F(id, "shortestPath", <<PatV(<<i, 1>>, <<H(1)>>)>>)
    [] m = "FunctionInvocationCreateWithFunctionName" ->
         LET xs == HList(as[2], env) IN Check(as[1].v # "" /\ AllSet(xs), FnV(id, QualToks(as[1].v), xs, FALSE))
    \* predicates
    [] m = "PredicateExists" -> BfcV(id, F(<<i, 1>>, "exists", <<H(1)>>))
    [] m = "PredicateExistsByPattern" -> Set1(1, BfcV(id, F(<<i, 1>>, "exists", <<PatV(<<i, 2>>, <<H(1)>>)>>)))
    [] m \in DOMAIN FnPred -> LET s == SymV(<<i, 1>>, as[1].v) IN
         Check(s.k # "err", [k |-> "predb", id |-> id, n |-> FnPred[m], v |-> s])
    [] m \in DOMAIN FnPredSym -> [k |-> "predb", id |-> id, n |-> FnPredSym[m], v |-> H(1)]
    [] m = "ConditionsNot" -> Set1(1, Check(~Absent(H(1)), CmpV(id, Nil, <<"NOT">>, H(1))))
    [] m = "ConditionsNotByPattern" -> Set1(1, [k |-> "excl", id |-> id, p |-> H(1)])
    [] m = "ConditionsNoCondition" -> Global.EMPTY_CONDITION
    [] m = "ConditionsIsTrue" -> Global.TRUE_CONDITION
    [] m = "ConditionsIsFalse" -> Global.FALSE_CONDITION
    \* names, literals, parameters
    [] m = "ASymbolic" \/ m = "SymbolicNameCreate" -> SymV(id, as[1].v)
    [] m = "AParam" \/ m = "ParameterCreate" -> Check(StripDollar(as[1].v) # "", [k |-> "param", id |-> id, s |-> StripDollar(as[1].v)])
    [] m = "AProperty" -> LET s == SymV(<<i, 1>>, as[1].v) IN Check(s.k # "err", PropV(id, s, as[2].v))
    [] m = "APropertyByExpression" -> Set1(1, PropV(id, H(1), as[2].v))
    [] m = "LiteralOf" -> LitV(id, as[1], env)
    [] m = "LiteralTrue" -> Global.TRUE
    [] m = "LiteralFalse" -> Global.FALSE
    [] m = "AnAsterisk" -> Global.ASTERISK
    [] m = "BooleanLiteralCreate" -> BoolV(id, as[1].v)
    [] m = "NullLiteralCreate" -> NullV(id)
    [] m = "StringLiteralCreate" -> StrV(id, as[1].v)
    [] m \in {"NumberLiteralCreate", "NumberLiteralCreate1", "NumberLiteralCreate2"} -> NumV(id, as[1].v)
    [] m = "ListLiteralCreate" -> LET xs == HList(as[1], env) IN Check(AllSet(xs), ListV(id, xs))
    [] m = "ListOf" -> LET xs == HList(as[1], env) IN Check(AllSet(xs), ListV(id, xs))
    [] m = "ListOfRaw" ->
         LET xs == [j \in 1..Len(as[1].v) |-> LitV(<<i, 100 + j>>, as[1].v[j], env)]
         IN Check(\A j \in DOMAIN xs : xs[j].k # "err", ListV(id, xs))
    [] m \in {"MapOf", "NewMapExpression"} -> MapFrom(id, as[1].v, env)
    [] m = "KeyValueMapEntryCreate" ->
         Check(as[1].v # "" /\ H(2).k # "nil", [k |-> "kv", id |-> id, t |-> "kv", n |-> as[1].v, v |-> H(2)])
    [] m = "MapProjectionCreate" -> ProjV(id, H(1), <<>>, as[2].v, env)
    [] m = "AliasedExpressionCreate" -> Set1(1, AliasV(id, H(1), as[2].v))
    \* nodes
    [] m = "ANode" -> Check(as[1].v # "", NodeV(id, Nil, <<as[1].v>>, Nil))
    [] m = "AnyNode" -> NodeV(id, Nil, <<>>, Nil)
    [] m = "AnyNodeNamed" -> LET s == SymV(<<i, 1>>, as[1].v) IN Check(s.k # "err", NodeV(id, s, <<>>, Nil))
    [] m = "NewNodeWithLabels" -> LET ls == <<as[1].v>> \o SList(as[2]) IN Check(NoneEmpty(ls), NodeV(id, Nil, ls, Nil))
    [] m = "NewNodeWithProperties" ->
         LET ls == <<as[1].v>> \o SList(as[3]) IN Check(NoneEmpty(ls), NodeV(id, Nil, ls, H(2)))
    \* paths and comprehensions
    [] m \in {"APath", "AShortestPath"} -> LET s == SymV(<<i, 1>>, as[1].v) IN
         Check(s.k # "err", [k |-> "pathb", id |-> id, sym |-> s, short |-> m = "AShortestPath"])
    [] m \in {"APathBySymbolic", "AShortestPathBySymbolic"} ->
         [k |-> "pathb", id |-> id, sym |-> H(1), short |-> m = "AShortestPathBySymbolic"]
    [] m \in {"ListComprehensionWith", "CypherListWith"} -> [k |-> "lcb", id |-> id, v |-> H(1), l |-> Nil, w |-> Nil]
    [] m \in {"ListBasedOn", "PatternComprehensionBasedOn", "ListBasedOnNamed", "PatternComprehensionBasedOnNamePath"} ->
         Set1(1, [k |-> "pcb", id |-> id, p |-> H(1), w |-> Nil])
    [] m = "GenericCaseExpression" -> [k |-> "case", id |-> id, e |-> Nil, ws |-> <<>>, el |-> Nil]
    [] m = "CaseExpression" -> Set1(1, [k |-> "case", id |-> id, e |-> H(1), ws |-> <<>>, el |-> Nil])
    \* list access
    [] m \in {"SubList", "ASubList"} ->
         LET b(j) == IF m = "SubList" THEN H(j) ELSE NumV(<<i, j>>, as[j].v) IN
         Check(H(1).k # "nil" /\ b(2).k # "nil" /\ b(3).k # "nil",
               [k |-> "listop", id |-> id, t |-> H(1), a |-> b(2), dots |-> TRUE, b |-> b(3)])
    [] m \in {"SubListFrom", "ASubListFromByExpression", "CypherSubListFrom"} ->
         LET b == IF m = "CypherSubListFrom" THEN NumV(<<i, 2>>, as[2].v) ELSE H(2) IN
         Check(H(1).k # "nil" /\ b.k # "nil", [k |-> "listop", id |-> id, t |-> H(1), a |-> b, dots |-> TRUE, b |-> Nil])
    [] m \in {"SubListUntil", "CypherSubListUntilByExpression", "ASubListUntil"} ->
         LET b == IF m = "ASubListUntil" THEN NumV(<<i, 2>>, as[2].v) ELSE H(2) IN
         Check(H(1).k # "nil" /\ b.k # "nil", [k |-> "listop", id |-> id, t |-> H(1), a |-> Nil, dots |-> TRUE, b |-> b])
    [] m \in {"ValueAt", "CypherValueAtByExpression", "CypherValueAt"} ->
         LET b == IF m = "CypherValueAt" THEN NumV(<<i, 2>>, as[2].v) ELSE H(2) IN
         Check(H(1).k # "nil" /\ b.k # "nil", [k |-> "listop", id |-> id, t |-> H(1), a |-> b, dots |-> FALSE, b |-> Nil])
    \* operations
    [] m = "OperationSet" -> Check(H(1).k # "nil" /\ H(2).k # "nil", SetV(id, H(1), H(2)))
    [] m \in {"OperationSetLabel", "OperationRemove"} -> LabelOp(id, H(1), SList(as[2]))
    [] m \in {"OperationAdd", "OperationConcat", "OperationSubtract", "OperationMultiply", "OperationDivide",
              "OperationRemainder", "OperationPow"} ->
         Check(H(1).k # "nil" /\ H(2).k # "nil",
               OpV(id, H(1), CASE m \in {"OperationAdd", "OperationConcat"} -> "+" [] m = "OperationSubtract" -> "-"
                               [] m = "OperationMultiply" -> "*" [] m = "OperationDivide" -> "/"
                               [] m = "OperationRemainder" -> "%" [] OTHER -> "^", H(2)))
    [] m = "Sort" -> SortV(id, H(1), "")
    [] m = "CreateAscendingSortItem" -> SortV(id, H(1), "ASC")
    [] m = "CreateDescendingSortItem" -> SortV(id, H(1), "DESC")
    \* statements
    [] m = "CypherReturning" -> Continue(i, "Returning", as, env, <<>>)
    [] m = "AnOptionalMatch" -> Continue(i, "OptionalMatch", as, env, <<>>)
    [] m = "MatchWithOption" -> Continue(i, "MatchDefault", as, env, <<>>)
    [] m = "UnwindMulti" -> Continue(i, "Unwinds", as, env, <<>>)
    [] m = "ACallByStatement" -> Continue(i, "Call", as, env, <<>>)
    [] m \in {"ACall", "StatementCall"} -> Continue(i, "Call1", as, env, <<>>)
    [] m = "ACallSimple" -> Check(as[1].v # "", Cb(id, <<>>, CallV(id, ProcName(<<as[1].v>>))))
    [] m \in {"Match", "Create", "Merge", "With", "WithByString", "WithByNamed", "Unwind"} -> Continue(i, m, as, env, <<>>)
    [] m \in {"Union", "UnionAll"} ->
         LET qs == HList(as[1], env)
             all == m = "UnionAll"
         IN IF Len(qs) < 2 \/ ~AllSet(qs) THEN Err
            ELSE IF \E j \in 1..Len(qs) : qs[j].k \notin {"stmt", "pcall", "union"} \/ (qs[j].k = "union" /\ qs[j].all # all) THEN Err
            ELSE IF qs[1].k = "union"
            THEN [k |-> "union", id |-> id, all |-> all, qs |-> qs[1].qs \o SubSeq(qs, 2, Len(qs))]
            ELSE [k |-> "union", id |-> id, all |-> all, qs |-> qs]
    [] m \in DOMAIN Global -> Global[m]
    [] OTHER -> Reject

------------------------------------------------------------------------------
(* Methods                                                                    *)

CmpNames == [IsEqualTo |-> <<"=">>, IsNotEqualTo |-> <<"<>">>, Lt |-> <<"<">>, Lte |-> <<"<=">>, Gt |-> <<">">>, Gte |-> <<">=">>,
             Matches |-> <<"=~">>, StartWiths |-> <<"STARTS", "WITH">>, Contains |-> <<"CONTAINS">>,
             EndsWith |-> <<"ENDS", "WITH">>, In |-> <<"IN">>]
ArithNames == [Add |-> "+", Concat |-> "+", Subtract |-> "-", Multiply |-> "*", Divide |-> "/", Remainder |-> "%", Pow |-> "^"]

Expression(i, m, e, as, env) ==     \* of an expression e
  LET id == <<i, 0>> IN
  CASE m \in DOMAIN CmpNames -> LET r == HV(as[1], env) IN Check(r.k # "nil", CmpV(id, e, CmpNames[m], r))
    [] m \in DOMAIN ArithNames -> LET r == HV(as[1], env) IN Check(r.k # "nil", OpV(id, e, ArithNames[m], r))
    [] m = "MatchesPattern" -> CmpV(id, e, <<"=~">>, StrV(<<i, 1>>, as[1].v))
    [] m = "IsTrue" -> CmpV(id, e, <<"=">>, BoolV(<<i, 1>>, TRUE))
    [] m = "IsFalse" -> CmpV(id, e, <<"=">>, BoolV(<<i, 1>>, FALSE))
    [] m = "IsNull" -> CmpV(id, e, <<"IS", "NULL">>, Nil)
    [] m = "IsNotNull" -> CmpV(id, e, <<"IS", "NOT", "NULL">>, Nil)
    [] m = "IsEmpty" -> CmpV(id, F(<<i, 1>>, "size", <<e>>), <<"=">>, NumV(<<i, 2>>, "0"))
    [] m = "As" -> AliasV(id, e, as[1].v)
    [] m = "Ascending" -> SortV(id, e, "ASC")
    [] m = "Descending" -> SortV(id, e, "DESC")
    [] m = "Not" -> Check(~Absent(e), CmpV(id, Nil, <<"NOT">>, e))
    [] m \in AndNames \cup OrNames \cup XorNames ->
         LET c == CondOf(i, m, as, env) IN
         Check(c.k \notin {"nil", "err"},
               Join(e, IF m \in AndNames THEN "AND" ELSE IF m \in OrNames THEN "OR" ELSE "XOR", c, id))
    \* of particular expressions
    [] m = "To" -> Check(HV(as[1], env).k # "nil", SetV(id, e, HV(as[1], env)))
    [] m = "Aliased" -> AliasV(id, e.d, as[1].v)
    [] m = "AsName" -> SymV(id, e.s)
    [] m = "When" -> Check(HV(as[1], env).k # "nil", [k |-> "whenb", id |-> id, c |-> e, w |-> HV(as[1], env)])
    [] m = "ElseDefault" -> Check(HV(as[1], env).k # "nil", [e EXCEPT !.id = id, !.el = HV(as[1], env)])
    [] m = "AddEntries" -> LET xs == HList(as[1], env) IN
         Check(AllSet(xs), MapV(id, e.es \o [j \in DOMAIN xs |-> [t |-> "kv", n |-> xs[j].n, v |-> xs[j].v]]))
    [] m = "And" /\ e.k = "mproj" -> Reject
    [] OTHER -> Reject

NodeOp(i, m, n, as, env) ==
  LET id == <<i, 0>> IN
  CASE m = "NamedByString" -> LET s == SymV(<<i, 1>>, as[1].v) IN Check(s.k # "err", [n EXCEPT !.id = id, !.sym = s])
    [] m = "Named" -> [n EXCEPT !.id = id, !.sym = HV(as[1], env)]
    [] m = "WithProperties" -> [n EXCEPT !.id = id, !.props = HV(as[1], env)]
    [] m = "WithRawProperties" -> LET p == MapFrom(<<i, 2>>, as[1].v, env) IN
         Check(p.k # "err", [n EXCEPT !.id = id, !.props = p])
    [] m \in DOMAIN Dir -> LET o == HV(as[1], env) IN RelV(id, n, o, Dir[m], Nil, SList(as[2]), Nil, Nil)
    [] m = "Property" -> Check(HasName(n), PropV(id, Sym(n), as[1].v))
    [] m = "HasLabels" -> LET ls == SList(as[1]) IN
         Check(HasName(n) /\ ls # <<>> /\ NoneEmpty(ls), [k |-> "hasl", id |-> id, n |-> Sym(n), ls |-> ls])
    [] m = "InternalId" -> Check(HasName(n), F(id, "id", <<Sym(n)>>))
    [] m = "Labels" -> Check(HasName(n), F(id, "labels", <<Sym(n)>>))
    [] m = "As" -> Check(HasName(n), AliasV(id, Sym(n), as[1].v))
    [] m = "Project" -> IF ~HasName(n) THEN Err ELSE ProjV(id, Sym(n), <<>>, as[1].v, env)
    [] m \in {"GetRequiredSymbolicName", "GetSymbolicName"} -> IF HasName(n) THEN Sym(n) ELSE Err
    [] OTHER -> Reject

RelOp(i, m, r, as, env) ==
  LET id == <<i, 0>> IN
  CASE m \in DOMAIN Dir ->
         [k |-> "chain", id |-> id,
          rs |-> <<r, RelV(<<i, 3>>, r.r, HV(as[1], env), Dir[m], Nil, SList(as[2]), Nil, Nil)>>]
    [] m = "NamedC" -> Err
    [] m \in {"Named", "NamedByString", "WithProperties", "WithRawProperties"} \cup RelOps -> RelChange(id, m, r, as, env)
    [] m = "Property" -> Check(HasName(r), PropV(id, Sym(r), as[1].v))
    [] m = "Project" -> IF ~HasName(r) THEN Err ELSE ProjV(id, Sym(r), <<>>, as[1].v, env)
    [] m \in {"GetRequiredSymbolicName", "GetSymbolicName"} -> IF HasName(r) THEN Sym(r) ELSE Err
    [] OTHER -> Reject

ChainOp(i, m, c, as, env) ==
  LET id == <<i, 0>>
      last == c.rs[Len(c.rs)]
  IN
  CASE m \in DOMAIN Dir ->
         [c EXCEPT !.id = id, !.rs = Append(@, RelV(<<i, 3>>, last.r, HV(as[1], env), Dir[m], Nil, SList(as[2]), Nil, Nil))]
    [] m = "Named" -> Err
    [] m \in {"NamedC", "Properties", "PropertiesRaw"} \cup RelOps ->
         LET x == RelChange(<<i, 3>>, m, last, as, env) IN
         Check(x.k # "err", [c EXCEPT !.id = id, !.rs[Len(c.rs)] = x])
    [] OTHER -> Reject

PathOp(i, m, p, as, env) ==
  CASE m \in {"GetRequiredSymbolicName", "GetSymbolicName"} -> Sym(p)
    [] OTHER -> Reject

DbOp(i, m, d, as, env) ==
  LET id == <<i, 0>> IN
  CASE m \in JoinNames ->
         IF d.open.k \notin {"match", "pcall"} THEN Err
         ELSE LET w == NewW(i, m, as, env, d.open.w) IN
              Check(w.k # "err", [d EXCEPT !.id = id, !.open.w = w])
    [] m \in {"OnCreate", "OnMatch"} ->
         Check(d.open.k = "merge", [k |-> "oma", id |-> id, d |-> d, w |-> IF m = "OnCreate" THEN "CREATE" ELSE "MATCH"])
    [] m = "AsCondition" ->
         Check(d.open.k = "match" /\ d.cl = <<>>, [k |-> "exsub", id |-> id, m |-> WhereOf(d.open)])
    [] m = "Build" -> Build(d, id)
    [] m \in ContinueNames -> Continue(i, m, as, env, Clauses(d))
    [] OTHER -> Reject

WithOp(i, m, b, as, env) ==
  CASE m \in JoinNames ->
         LET w == NewW(i, m, as, env, b.w) IN Check(w.k # "err", [b EXCEPT !.id = <<i, 0>>, !.w = w])
    [] m \in OrderNames -> OrderOp(i, m, as, env, b)
    [] m \in ContinueNames -> Continue(i, m, as, env, Clauses(b))
    [] OTHER -> Reject

ReturnOp(i, m, b, as, env) ==
  CASE m \in OrderNames \cup {"And"} -> OrderOp(i, m, as, env, b)
    [] m = "Build" -> Build(b, <<i, 0>>)
    [] OTHER -> Reject

CallOp(i, m, b, as, env) ==
  LET id == <<i, 0>> IN
  CASE m = "WithArgs" -> LET xs == HList(as[1], env) IN Check(AllSet(xs), [b EXCEPT !.id = id, !.call.args = xs])
    [] m \in {"Yield", "YieldSymbolic", "YieldString"} ->
         LET xs == IF m = "YieldString" THEN SymsByString(i, SList(as[1])) ELSE HList(as[1], env) IN
         Check(xs # <<>> /\ \A j \in DOMAIN xs : xs[j].k # "err", [b EXCEPT !.id = id, !.call.ys = xs])
    [] m \in WhereNames ->
         LET w == NewW(i, m, as, env, Nil) IN Check(w.k # "err", Db(id, b.cl, [b.call EXCEPT !.w = w]))
    [] m = "AsFunction" -> FnV(id, b.call.n, b.call.args, FALSE)
    [] m = "Build" -> Build(b, id)
    [] m \in ContinueNames -> Continue(i, m, as, env, Clauses(b))
    [] OTHER -> Reject

DefV(i, xs) == IF Len(xs) = 1 THEN xs[1] ELSE ListV(<<i, 1>>, xs)
Small(i, m, b, as, env) ==          \* the builders of single elements
  LET id == <<i, 0>> IN
  CASE b.k = "oma" ->
         LET xs == IF m = "Set" THEN HList(as[1], env)
                   ELSE IF HasName(HV(as[1], env)) THEN <<Sym(HV(as[1], env)), HV(as[2], env)>> ELSE <<Nil>>
             items == SetItems(xs, 1, Nil, <<>>, i)
         IN Check(items # <<>> /\ \A j \in DOMAIN items : items[j].k # "err",
                  [b.d EXCEPT !.id = id, !.open.acts = Append(@, [k |-> "on", id |-> id, w |-> b.w, xs |-> items])])
    [] b.k = "unw" -> Check(as[1].v # "", Db(id, Append(b.cl, [k |-> "unwind", id |-> id, e |-> b.e, s |-> as[1].v]), Nil))
    [] b.k = "pathb" ->
         LET p == HV(as[1], env) IN
         Check(p.k # "nil", [k |-> "path", id |-> id, sym |-> b.sym,
                             p |-> IF b.short THEN F(<<i, 1>>, "shortestPath", <<PatV(<<i, 2>>, <<p>>)>>) ELSE p])
    [] b.k = "whenb" -> LET t == HV(as[1], env) IN
         Check(t.k # "nil", [b.c EXCEPT !.id = id, !.ws = Append(@, [w |-> b.w, t |-> t])])
    [] b.k = "predb" /\ m = "In" -> Check(HV(as[1], env).k # "nil", b @@ [l |-> HV(as[1], env)])
    [] b.k = "predb" /\ m = "Where" ->
         LET c == HV(as[1], env) IN
         Check(~Absent(c), BfcV(id, [k |-> "lpred", id |-> <<i, 1>>, n |-> b.n, v |-> b.v, l |-> b.l, w |-> c]))
    [] b.k = "lcb" /\ m = "In" -> Check(HV(as[1], env).k # "nil", [b EXCEPT !.id = id, !.l = HV(as[1], env)])
    [] b.k = "lcb" /\ m = "Where" -> [b EXCEPT !.id = id, !.w = HV(as[1], env)]
    [] b.k = "lcb" /\ m \in {"Returning", "ReturningByNamed", "ReturningDefault"} ->
         LET xs == IF m = "ReturningDefault" THEN <<>> ELSE IF m = "Returning" THEN HList(as[1], env) ELSE SymsByNamed(HList(as[1], env))
         IN Check((m = "ReturningDefault" \/ xs # <<>>) /\ \A j \in DOMAIN xs : xs[j].k \notin {"nil", "err"},
                  [k |-> "lcomp", id |-> id, v |-> b.v, l |-> b.l, w |-> Present(b.w), d |-> IF xs = <<>> THEN Nil ELSE DefV(i, xs)])
    [] b.k = "pcb" /\ m \in JoinNames -> LET w == NewW(i, m, as, env, b.w) IN Check(w.k # "err", [b EXCEPT !.id = id, !.w = w])
    [] b.k = "pcb" /\ m \in {"Returning", "ReturningByNamed"} ->
         LET xs == IF m = "Returning" THEN HList(as[1], env) ELSE SymsByNamed(HList(as[1], env))
         IN Check(xs # <<>> /\ \A j \in DOMAIN xs : xs[j].k \notin {"nil", "err"},
                  [k |-> "pcomp", id |-> id, p |-> b.p, w |-> Present(b.w), d |-> DefV(i, xs)])
    [] OTHER -> Reject

SortOp(i, m, s, as, env) ==
  CASE m = "Ascending" -> [s EXCEPT !.id = <<i, 0>>, !.dir = "ASC"]
    [] m = "Descending" -> [s EXCEPT !.id = <<i, 0>>, !.dir = "DESC"]
    [] OTHER -> Reject

Apply(i, op, env) ==
  LET as == op.a
      argErr == \E j \in DOMAIN as : ArgErr(as[j], env)
  IN IF argErr \/ (op.r > 0 /\ env[op.r].k = "err") THEN Err
     ELSE IF op.r = 0 THEN Function(i, op.m, as, env)
     ELSE IF op.m = "Get" THEN env[op.r]             \* what is in a container
     ELSE LET v == env[op.r] IN
       CASE v.k = "node" -> NodeOp(i, op.m, v, as, env)
         [] v.k = "rel" -> RelOp(i, op.m, v, as, env)
         [] v.k = "chain" -> ChainOp(i, op.m, v, as, env)
         [] v.k = "path" -> PathOp(i, op.m, v, as, env)
         [] v.k = "db" -> DbOp(i, op.m, v, as, env)
         [] v.k = "wb" -> WithOp(i, op.m, v, as, env)
         [] v.k = "rb" -> ReturnOp(i, op.m, v, as, env)
         [] v.k = "cb" -> CallOp(i, op.m, v, as, env)
         [] v.k = "sort" -> SortOp(i, op.m, v, as, env)
         [] v.k = "mproj" /\ op.m = "And" -> ProjV(<<i, 0>>, v.n, v.es, as[1].v, env)
         [] v.k \in {"oma", "unw", "pathb", "whenb", "predb", "lcb", "pcb"} -> Small(i, op.m, v, as, env)
         [] OTHER -> Expression(i, op.m, v, as, env)

(* what may be observed of a value *)
StatementKinds == {"stmt", "union", "pcall"}
Expected(v) == IF v.k = "err" THEN [x |-> "err", o |-> <<>>]
               ELSE IF v.k \in StatementKinds THEN [x |-> "", o |-> Tokens(v)]
               ELSE [x |-> "none", o |-> <<>>]     \* no statement: a panic, or a call that did not return
=============================================================================
