---------------------------- MODULE CypherWalk ----------------------------
(* All programs of a bounded length: the state machine of a program that     *)
(* uses the fluent interface.  The interface itself (which methods a value   *)
(* of a type has, what they return) comes from the real code, by reflection; *)
(* what a call means is the specification (Api, Render).                     *)
(*                                                                           *)
(* The state is the calls that were made and the values they gave.  For each *)
(* state the program and what the specification expects of its statements is *)
(* printed; the harness executes it against the real code.  The properties   *)
(* that can be stated without the real code are invariants (Laws).           *)
EXTENDS Api, Laws, Plans, Json, IOUtils

Grammar == JsonDeserialize("grammar.json")     \* tools/mkgrammar.sh
PlanName == IOEnv.PLAN
Plan == Plans[PlanName]
Depth == atoi(IOEnv.DEPTH)

Fits == Grammar.fits
RangeOf(s) == { s[j] : j \in DOMAIN s }
FitSet(T) == CASE T = "Pattern" -> RangeOf(Fits["Relationship"]) \cup RangeOf(Fits["RelationshipChain"])
                                    \cup RangeOf(Fits["Node"])
               [] T = "MapProjection" -> {"cypher.MapProjection"}
               [] T = "ListBuilder" -> { t \in DOMAIN Grammar.types : {"Returning"} \subseteq DOMAIN Grammar.types[t] /\ "Build" \notin DOMAIN Grammar.types[t]
                                           /\ Grammar.types[t]["Returning"] \in {"cypher.ListComprehension", "cypher.PatternComprehension"} }
               [] T = "OngoingUnwind" -> {"cypher.OngoingUnwind"}
               [] T = "Call" -> {"cypher.OngoingStandaloneCallWithoutArguments"}
               [] T = "Cond" -> RangeOf(Fits["Condition"])
               [] T = "Ex" -> RangeOf(Fits["Expression"])
               [] OTHER -> RangeOf(Fits[T])

VARIABLE ops       \* the calls so far; their values are a function of them (Now)

TypeOf(op, ts) == IF op.r = 0 THEN Grammar.funcs[op.m] ELSE Grammar.types[ts[op.r]][op.m]

RECURSIVE Exec(_, _, _)
Exec(os, e, ts) == IF os = <<>> THEN [env |-> e, typ |-> ts]
                   ELSE Exec(Tail(os), Append(e, Apply(Len(e) + 1, Head(os), e)), Append(ts, TypeOf(Head(os), ts)))
First == Exec(Plan.prefix, <<>>, <<>>)
N0 == Len(Plan.prefix)

Now == Exec(ops, First.env, First.typ)      \* the values and their types

Init == ops = <<>>

(* the elements that can be used as a T; for conditions and expressions only those that are meant as operands *)
Operand(c, j, T) == CASE T = "Cond" /\ PlanName \in {"conds", "condwhere"} -> j > N0 \/ (j > BaseLen /\ c.env[j].k # "sym")
                      [] T = "Ex" -> j > BaseLen \/ (j \in {3, 4} /\ PlanName \notin {"exprs", "operators"})
                      [] OTHER -> TRUE
Usable(c, T) == { j \in 1..Len(c.env) : c.env[j].k # "err" /\ c.typ[j] \in FitSet(T) /\ Operand(c, j, T) }

RECURSIVE Fill(_, _), FillAll(_, _)
Fill(c, a) == CASE a.t = "any" -> { H(j) : j \in Usable(c, a.v) }
                [] a.t = "str" -> { S(x) : x \in HotStrings }
                [] a.t = "val" -> RangeOf(Values)
                [] a.t = "l" -> { L(s) : s \in FillAll(c, a.v) }
                [] OTHER -> {a}
FillAll(c, as) == IF as = <<>> THEN {<<>>} ELSE { <<x>> \o s : x \in Fill(c, Head(as)), s \in FillAll(c, Tail(as)) }

Receivers(c, mv) ==
  LET n == Len(c.env) IN
  IF mv.f THEN {0}
  ELSE { j \in (CASE Plan.recv = "last" -> {n} [] Plan.recv = "builder" -> IF ops = <<>> THEN {N0 - 1, N0} ELSE {n}
                  [] Plan.recv = "base" -> {2, 4, 8, 9, 10} [] OTHER -> 1..n) :
           /\ c.env[j].k # "err"
           /\ mv.m \in DOMAIN Grammar.types[c.typ[j]]
           /\ mv.on = "" \/ (c.typ[j] \in FitSet(mv.on) /\ Operand(c, j, mv.on)) }

RECURSIVE Mentions(_, _)
Mentions(as, j) == \E k \in DOMAIN as : (as[k].t = "h" /\ as[k].v = j) \/ (as[k].t = "l" /\ Mentions(as[k].v, j))

Moves == IF ops = <<>> THEN Plan.start ELSE Plan.moves

(* "each": the arguments by what the parameters are *)
Strings(role) == CASE role \in {"name", "alias"} -> {"x", "a b"}
                   [] role = "str" -> {"", "it's"}
                   [] role = "iso" -> {"2020-01-01"}
                   [] role = "par" -> {"p", "$q"}
                   [] role \in {"proc1", "func"} -> {"f", "a.b"}
                   [] OTHER -> {"k"}
Ints(role) == CASE role \in {"nat", "skip"} -> {"0", "3"} [] role = "pos" -> {"2"} [] OTHER -> {"1", "-2"}
Fitting(c, T) ==
  CASE T = "cypher.Expression" -> EachExprs
    [] T = "cypher.Condition" -> {5, 32, 33, 35, 36, 37, 53}
    [] T = "cypher.Statement" -> {69, 95, 96}
    [] T = "cypher.Named" -> {2, 10, 13}
    [] T = "cypher.Literal" -> {15, 16, 19}
    [] T = "cypher.Visitable" -> {2, 3}
    [] OTHER -> { j \in 1..N0 : c.env[j].k # "err" /\ c.typ[j] \in FitSet(T) /\ ~(T = "cypher.Node" /\ j > 9) }
Least(S0) == CHOOSE x \in S0 : \A y \in S0 : x <= y
Interfaces == {"cypher.Expression", "cypher.Condition", "cypher.PatternElement", "cypher.RelationshipPattern", "cypher.Named"}
Good(c, p) ==
  CASE p.k = "s" -> { S(x) : x \in Strings(p.role) }
    [] p.k = "i" -> { I(x) : x \in Ints(p.role) }
    [] p.k = "f" -> { Fl("0.5") }
    [] p.k = "b" -> { B(TRUE), B(FALSE) }
    [] p.k = "any" -> { I("3"), S("s"), N, B(TRUE), Fl("1.5"), LH(<<15, 19>>) }
    [] p.k = "h" -> (IF p.role = "opt" /\ p.t \in Interfaces THEN {N} ELSE {}) \cup
                    (IF p.role = "node" THEN {H(2)} ELSE { H(j) : j \in Fitting(c, p.t) })
    [] p.k = "ls" -> { LS(x) : x \in CASE p.role = "proc" -> {<<"f">>, <<"a", "b">>}
                                        [] p.role \in {"types", "labels"} -> {<<>>, <<"T">>, <<"T", "U U">>}
                                        [] OTHER -> {<<"y">>, <<"y", "z z">>} }
    [] p.k = "lh" -> { LH(x) : x \in CASE p.role = "items" -> {<<30>>, <<4, 3>>, <<30, 31>>, <<7, 3, 4, 28>>}
                                        [] p.role = "entries" -> {<<24>>}
                                        [] p.t = "cypher.Statement" -> {<<69, 95>>, <<95, 69, 95>>}
                                        [] Fitting(c, p.t) = {} -> {}
                                        [] OTHER -> LET fs == Fitting(c, p.t) m == Least(fs)
                                                    IN {<<x>> : x \in fs} \cup {<<m, x>> : x \in fs \ {m}} }
    [] p.k = "lany" -> { L(x) : x \in CASE p.role = "pairs" -> {<<S("k"), I("1")>>, <<S("k"), S("v"), S("l"), H(3)>>}
                                          [] p.role = "lits" -> {<<I("1"), S("x")>>}
                                          [] OTHER -> {<<S("a")>>, <<S("a"), S("b"), H(3)>>, <<H(20)>>, <<H(4), S("c")>>} }
BadHs(c, p) == { H(j) : j \in { j \in 1..N0 : c.env[j].k = "err" /\ c.typ[j] \in FitSet(p.t) } } \cup (IF p.t \in Interfaces THEN {N} ELSE {})
Bad(c, p) ==
  CASE p.k = "s" -> IF p.role \in {"zone", "str"} THEN {} ELSE {S("")}
    [] p.k = "i" -> CASE p.role \in {"nat", "skip"} -> {I("-1")} [] p.role = "pos" -> {I("0"), I("-1")} [] OTHER -> {}
    [] p.k = "f" -> {Fl("NaN"), Fl("1.5")}
    [] p.k = "any" -> {H(2)}
    [] p.k = "h" -> IF p.role = "opt" THEN BadHs(c, p) \ {N} ELSE BadHs(c, p)
    [] p.k = "ls" -> {LS(<<"">>), LS(<<"y", "">>)} \cup (IF p.role \in {"types", "labels"} THEN {} ELSE {L(<<>>)})
    [] p.k = "lh" -> {L(<<>>)} \cup {L(<<x>>) : x \in BadHs(c, p)} \cup
                     (IF Fitting(c, p.t) = {} THEN {} ELSE {L(<<H(Least(Fitting(c, p.t))), x>>) : x \in BadHs(c, p)})
    [] p.k = "lany" -> IF p.role = "pairs" THEN {L(<<S("")>>), L(<<S("k")>>), L(<<S("k"), H(100)>>), L(<<S("k"), I("1"), S("k"), I("2")>>), L(<<S(""), I("1")>>)}
                       ELSE {L(<<S("")>>), L(<<H(100)>>), L(<<S("a"), S("")>>)}
    [] OTHER -> {}
RECURSIVE Product(_, _)
Product(c, ps) == IF ps = <<>> THEN {<<>>} ELSE { <<x>> \o s : x \in Good(c, Head(ps)), s \in Product(c, Tail(ps)) }
One(S0) == CHOOSE x \in S0 : TRUE
OneBad(c, ps) == { [j \in 1..Len(ps) |-> IF j = k THEN b ELSE One(Good(c, ps[j]))] : <<k, b>> \in UNION { {k} \X Bad(c, ps[k]) : k \in 1..Len(ps) } }
Fillable(c, ps) == \A j \in DOMAIN ps : Good(c, ps[j]) # {}

Calls1(c, sig) ==
  IF ~Fillable(c, sig.p) THEN {}
  ELSE LET rs == IF sig.on = "" THEN {0} ELSE { j \in 1..N0 : c.typ[j] = sig.on /\ (Absent(c.env[j]) => sig.m \in {"And", "Or", "Xor", "Not", "AndPattern", "OrPattern"}) /\ c.env[j].k # "kv"
                                                                  /\ ~(sig.m = "GetSymbolicName" /\ j \in {1, 9}) }
           good == { j \in rs : j = 0 \/ c.env[j].k # "err" }
       IN IF PlanName = "each" THEN good \X Product(c, sig.p)
          ELSE ((IF good = {} THEN {} ELSE {Least(good)}) \X OneBad(c, sig.p))
               \cup ((rs \ good) \X {[j \in 1..Len(sig.p) |-> One(Good(c, sig.p[j]))]})
EachCall ==
  /\ Len(ops) < Depth
  /\ LET c == Now IN
     \E k \in 1..Len(Grammar.calls) :
       \E x \in Calls1(c, Grammar.calls[k]) :
         LET op == [m |-> Grammar.calls[k].m, r |-> x[1], a |-> x[2]]
         IN /\ Apply(Len(c.env) + 1, op, c.env).k # "unsupported"
            /\ ops' = Append(ops, op)

Call ==
  /\ Len(ops) < Depth
  /\ LET c == Now
         n == Len(c.env) IN
     \E k \in 1..Len(Moves) :
       \E r \in Receivers(c, Moves[k]), as \in FillAll(c, Moves[k].a) :
         LET op == [m |-> Moves[k].m, r |-> r, a |-> as]
         IN /\ Plan.uses /\ ops # <<>> => (r = n \/ Mentions(as, n))
            /\ Apply(n + 1, op, c.env).k # "unsupported"
            /\ ops' = Append(ops, op)

Next == IF PlanName \in {"each", "eachbad"} THEN EachCall ELSE Call
Spec == Init /\ [][Next]_ops

----------------------------------------------------------------------------
(* The calls that make a statement of element j, so that it can be seen; at is the number of the first of them *)
Methods(t) == DOMAIN Grammar.types[t]
Show(j, t, at) ==
  CASE t = "cypher.Statement" -> <<>>
    [] "Build" \in Methods(t) -> <<On(j, "Build", <<>>)>>
    [] "Returning" \in Methods(t) /\ "Build" \in Methods(Grammar.types[t]["Returning"]) -> <<On(j, "Returning", <<LH(<<3>>)>>), On(at, "Build", <<>>)>>
    [] t \in FitSet("Cond") /\ Plan.show = "where" ->
         <<Op("Match", <<LH(<<2>>)>>), On(at, "Where", <<H(j)>>), On(at + 1, "Returning", <<LH(<<3>>)>>), On(at + 2, "Build", <<>>)>>
    [] t \in FitSet("Ex") -> <<Op("CypherReturning", <<LH(<<j>>)>>), On(at, "Build", <<>>)>>
    [] t \in FitSet("PatternElement") -> <<Op("Match", <<LH(<<j>>)>>), On(at, "ReturningByString", <<LS(<<"q">>)>>), On(at + 1, "Build", <<>>)>>
    [] t = "cypher.SortItem" -> <<Op("CypherReturning", <<LH(<<3>>)>>), On(at, "OrderBySortItem", <<LH(<<j>>)>>), On(at + 1, "Build", <<>>)>>
    [] OTHER -> <<>>
Shown(t) == t = "cypher.Statement" \/ Show(1, t, 1) # <<>>

RECURSIVE ShowAll(_, _)     \* of elements js: the calls, the values and which of them are statements
ShowAll(js, acc) ==
  IF js = <<>> THEN acc
  ELSE LET j == Head(js)
           s == Show(j, acc.typ[j], Len(acc.env) + 1)
           x == Exec(s, acc.env, acc.typ)
       IN ShowAll(Tail(js), [env |-> x.env, typ |-> x.typ, ops |-> acc.ops \o s,
                             hs |-> Append(acc.hs, IF s = <<>> THEN j ELSE Len(x.env))])

Look ==
  LET c == Now
      n == Len(c.env)
      show == IF Plan.all THEN SelectSeq([j \in 1..(n - BaseLen) |-> j + BaseLen], LAMBDA j : Shown(c.typ[j]))
              ELSE IF Shown(c.typ[n]) THEN <<n>> ELSE <<>>
      w == ShowAll(show, [env |-> c.env, typ |-> c.typ, ops |-> <<>>, hs |-> <<>>])
  IN [n |-> n, ops |-> w.ops, exp |-> [j \in DOMAIN w.hs |-> [h |-> w.hs[j], e |-> Expected(w.env[w.hs[j]])]]]

(* the laws that the specification itself has to obey *)
Lawful(w) ==
  LET all == Plan.prefix \o ops \o w.ops IN
  \A j \in DOMAIN w.exp :
    LET e == w.exp[j].e IN
    e.x = "" =>
      /\ Balanced(e.o)
      /\ PlanName \in {"clauses", "mods", "updates", "calls"} => ClauseLaw(all, w.exp[j].h, e.o)
      /\ PlanName = "conds" => TruthLaw(Plan.prefix \o ops, w.n, e.o)
      /\ PlanName \in {"exprs", "operators"} => TreeLaw(Plan.prefix \o ops, w.n, e.o)

PrefixOut == (ops = <<>>) => PrintT("@@PREFIX " \o ToJson(Plan.prefix))
Emit ==
  ops # <<>> =>
    LET w == Look
    IN w.exp # <<>> => IF Lawful(w) THEN PrintT("@@W " \o ToJson([ops |-> ops \o w.ops, exp |-> w.exp])) ELSE FALSE
=============================================================================
