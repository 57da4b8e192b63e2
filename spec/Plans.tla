------------------------------- MODULE Plans -------------------------------
(* What CypherWalk explores: for each plan the elements that exist at first  *)
(* (prefix) and the calls that may be made (moves).  A move is the name of a *)
(* method, or of a function (f), and its arguments; an argument is a value,  *)
(* or An("T"): every element there is that can be used as a T.              *)
EXTENDS Integers, Sequences

H(n) == [t |-> "h", v |-> n]
S(s) == [t |-> "s", v |-> s]
I(s) == [t |-> "i", v |-> s]
B(b) == [t |-> "b", v |-> b]
Fl(s) == [t |-> "f", v |-> s]
N == [t |-> "n"]
L(xs) == [t |-> "l", v |-> xs]
LS(ss) == L([j \in 1..Len(ss) |-> S(ss[j])])
LH(hs) == L([j \in 1..Len(hs) |-> H(hs[j])])
An(T) == [t |-> "any", v |-> T]
Op(m, a) == [m |-> m, r |-> 0, a |-> a]
On(h, m, a) == [m |-> m, r |-> h, a |-> a]
M(m, a) == [f |-> FALSE, m |-> m, a |-> a, on |-> ""]        \* a method
MOn(T, m, a) == [f |-> FALSE, m |-> m, a |-> a, on |-> T]    \* a method of a T
Fn(m, a) == [f |-> TRUE, m |-> m, a |-> a, on |-> ""]        \* a function

(* every plan has these: 1, 2: a node n with a label; 3: the name q; 4: n.p; 5, 6: conditions; 7: n.s *)
Base == <<Op("ANode", <<S("A")>>), On(1, "NamedByString", <<S("n")>>), Op("ASymbolic", <<S("q")>>),
          On(2, "Property", <<S("p")>>), On(4, "IsNull", <<>>), On(3, "IsNotNull", <<>>), On(2, "Property", <<S("s")>>)>>
BaseLen == 7

(* recv: the receiver is the last element ("last") or any one that was made ("any").                        *)
(* uses: whether a call has to use the last element somewhere.   all: whether all elements are looked at.   *)
P(prefix, start, moves, recv, uses, all, show) ==
  [prefix |-> Base \o prefix, start |-> start, moves |-> moves, recv |-> recv, uses |-> uses, all |-> all, show |-> show]

----------------------------------------------------------------------------
(* C01: every sequence of clauses *)
ClauseEls == <<Op("AnyNodeNamed", <<S("m")>>),                                               \* 8
               On(2, "RelationshipTo", <<H(8), LS(<<"T">>)>>),                               \* 9
               On(4, "To", <<H(3)>>),                                                        \* 10
               Op("CypherReturning", <<LH(<<4>>)>>), On(11, "Build", <<>>)>>                 \* 11, 12
ClauseMoves == <<M("Match", <<LH(<<2>>)>>), M("Match", <<LH(<<9, 8>>)>>), M("OptionalMatch", <<LH(<<8>>)>>),
                 M("Create", <<LH(<<8>>)>>), M("Merge", <<LH(<<2>>)>>), M("Delete", <<LH(<<3>>)>>),
                 M("DetachDelete", <<LH(<<4, 3>>)>>), M("Set", <<LH(<<10>>)>>), M("Remove", <<LH(<<4>>)>>),
                 M("Unwind", <<H(3)>>), M("With", <<LH(<<3>>)>>), M("WithDistinct", <<LH(<<3, 4>>)>>), M("Call", <<H(12)>>),
                 M("Call1", <<LS(<<"a", "b">>)>>), M("YieldString", <<LS(<<"y">>)>>), M("WithArgs", <<LH(<<3>>)>>), M("As", <<S("u")>>),
                 M("Returning", <<LH(<<3>>)>>), M("ReturningDistinct", <<LH(<<3>>)>>), M("Where", <<H(5)>>)>>
ClauseStart == <<Fn("Match", <<LH(<<2>>)>>), Fn("AnOptionalMatch", <<LH(<<8>>)>>), Fn("Create", <<LH(<<2>>)>>), Fn("Merge", <<LH(<<8>>)>>),
                 Fn("Unwind", <<H(3)>>), Fn("With", <<LH(<<3>>)>>), Fn("ACallByStatement", <<H(12)>>), Fn("ACall", <<LS(<<"a", "b">>)>>),
                 Fn("CypherReturning", <<LH(<<3>>)>>)>>
Clausal == P(ClauseEls, ClauseStart, ClauseMoves, "last", TRUE, FALSE, "return")

(* C14: modifiers of the clauses *)
ModEls == <<On(3, "IsEqualTo", <<H(4)>>),                                \* 8
            Op("CreateDescendingSortItem", <<H(4)>>), Op("Sort", <<H(3)>>), On(2, "RelationshipTo", <<H(1), LS(<<>>)>>)>>   \* 9, 10, 11
ModMoves == <<M("Where", <<H(5)>>), M("And", <<H(6)>>), M("Or", <<H(8)>>), M("WherePattern", <<H(11)>>), M("With", <<LH(<<3>>)>>),
              M("WithDistinct", <<LH(<<4, 3>>)>>), M("OptionalMatch", <<LH(<<2>>)>>), M("OrderByExpression", <<H(4)>>),
              M("OrderBy", <<H(3)>>),
              M("OrderBySortItem", <<LH(<<9, 10>>)>>), M("And1", <<H(3)>>), M("Descending", <<>>), M("Ascending", <<>>),
              M("Skip", <<I("1")>>), M("Limit", <<I("2")>>), M("Returning", <<LH(<<3>>)>>), M("ReturningDistinct", <<LH(<<4>>)>>)>>
ModStart == <<Fn("Match", <<LH(<<2>>)>>), Fn("With", <<LH(<<3>>)>>), Fn("CypherReturning", <<LH(<<3>>)>>), Fn("ACall", <<LS(<<"f">>)>>)>>
Mods == P(ModEls, ModStart, ModMoves, "last", TRUE, FALSE, "return")

(* C17: updates *)
UpdEls == <<On(4, "To", <<H(3)>>), On(7, "To", <<H(4)>>), Op("AnyNodeNamed", <<S("m")>>)>>     \* 8, 9, 10
UpdMoves == <<M("Create", <<LH(<<10>>)>>), M("Merge", <<LH(<<10>>)>>), M("OnCreate", <<>>), M("OnMatch", <<>>), M("Set", <<LH(<<8>>)>>),
              M("Set", <<LH(<<4, 3, 9>>)>>), M("SetWithNamed", <<H(2), H(4)>>), M("SetByNode", <<H(2), LS(<<"X", "Y">>)>>),
              M("RemoveByNode", <<H(2), LS(<<"X">>)>>), M("Remove", <<LH(<<4, 7>>)>>), M("Delete", <<LH(<<3>>)>>),
              M("DetachDelete", <<LH(<<3, 4>>)>>), M("With", <<LH(<<3>>)>>), M("Returning", <<LH(<<3>>)>>)>>
Updates == P(UpdEls, <<Fn("Merge", <<LH(<<2>>)>>), Fn("Create", <<LH(<<2, 10>>)>>), Fn("Match", <<LH(<<2>>)>>)>>, UpdMoves, "last", TRUE, FALSE, "return")

(* C12: procedure calls *)
CallEls == <<On(3, "As", <<S("z")>>), Op("ASymbolic", <<S("y")>>), Op("CypherReturning", <<LH(<<4>>)>>), On(10, "Build", <<>>)>>   \* 8 .. 11
CallMoves == <<M("WithArgs", <<LH(<<4, 3>>)>>), M("WithArgs", <<LH(<<>>)>>), M("YieldString", <<LS(<<"y", "x">>)>>),
               M("YieldSymbolic", <<LH(<<9>>)>>), M("Where", <<H(5)>>), M("And", <<H(6)>>), M("Or", <<H(6)>>), M("With", <<LH(<<9>>)>>),
               M("Call1", <<LS(<<"a", "b", "c">>)>>), M("Call", <<H(11)>>), M("Match", <<LH(<<2>>)>>), M("Returning", <<LH(<<9>>)>>),
               M("ReturningDistinct", <<LH(<<4>>)>>), M("AsFunction", <<>>)>>
Calls == P(CallEls, <<Fn("ACall", <<LS(<<"a", "b">>)>>), Fn("ACallSimple", <<S("c.d")>>), Fn("StatementCall", <<LS(<<"e">>)>>),
                      Fn("Match", <<LH(<<2>>)>>), Fn("With", <<LH(<<3>>)>>)>>, CallMoves, "last", TRUE, FALSE, "return")

(* C06: conditions *)
CondEls == <<Op("ASymbolic", <<S("A")>>), On(8, "IsTrue", <<>>), Op("ASymbolic", <<S("B")>>), On(10, "IsTrue", <<>>),
             Op("ASymbolic", <<S("C")>>), On(12, "IsTrue", <<>>)>>
Cond == An("Cond")
CondMoves == <<MOn("Cond", "And", <<Cond>>), MOn("Cond", "Or", <<Cond>>), MOn("Cond", "Xor", <<Cond>>), MOn("Cond", "Not", <<>>)>>
Conds == P(CondEls, CondMoves, CondMoves, "any", TRUE, FALSE, "where")
(* and those that a WHERE is given step by step *)
CondWhere == P(CondEls \o <<On(9, "Or", <<H(11)>>), On(9, "Xor", <<H(13)>>), On(11, "And", <<H(13)>>), On(14, "Not", <<>>),
                            Op("Match", <<LH(<<2>>)>>), Op("With", <<LH(<<3>>)>>)>>,
               <<M("Where", <<An("Cond")>>)>>, <<M("And", <<An("Cond")>>), M("Or", <<An("Cond")>>)>>, "builder", FALSE, FALSE, "return")

(* C15: expressions *)
Ex == An("Ex")
Bin(m) == MOn("Ex", m, <<Ex>>)
ExprEls == <<Op("ASymbolic", <<S("a")>>), Op("ASymbolic", <<S("b")>>)>>
ExprMoves == <<Bin("Add"), Bin("Multiply"), Bin("Pow"), Bin("Lt"), MOn("Ex", "IsNull", <<>>)>>
Exprs == P(ExprEls, ExprMoves, ExprMoves, "any", TRUE, FALSE, "return")
AllOps == <<Bin("Add"), Bin("Subtract"), Bin("Multiply"), Bin("Divide"), Bin("Remainder"), Bin("Pow"), Bin("Concat"),
            Bin("IsEqualTo"), Bin("IsNotEqualTo"), Bin("Lt"), Bin("Lte"), Bin("Gt"), Bin("Gte"), MOn("Ex", "IsNull", <<>>), MOn("Ex", "IsNotNull", <<>>)>>
Operators == P(ExprEls, AllOps, AllOps, "any", TRUE, FALSE, "return")

(* C05: aliases *)
AliasEls == <<On(4, "As", <<S("x")>>), On(4, "IsEqualTo", <<H(3)>>), Op("ListOf", <<LH(<<4, 3>>)>>), Op("Sort", <<H(4)>>), Op("Sort", <<H(8)>>),
              On(7, "As", <<S("y")>>), On(8, "IsNotNull", <<>>)>>      \* 8 .. 14
AliasMoves == <<M("With", <<LH(<<8>>)>>), M("With", <<LH(<<8, 13>>)>>), M("With", <<LH(<<3>>)>>), M("WithDistinct", <<LH(<<13>>)>>),
                M("Where", <<H(9)>>), M("Where", <<H(5)>>), M("OrderByExpression", <<H(4)>>),
                M("OrderBySortItem", <<LH(<<11>>)>>), M("Match", <<LH(<<2>>)>>), M("Unwind", <<H(10)>>), M("As", <<S("w")>>),
                M("Returning", <<LH(<<4>>)>>), M("Returning", <<LH(<<8>>)>>), M("Returning", <<LH(<<13, 10>>)>>), M("ReturningDistinct", <<LH(<<8, 7>>)>>),
                M("Returning", <<LH(<<9>>)>>), M("And1", <<H(7)>>)>>
Aliases == P(AliasEls, <<Fn("Match", <<LH(<<2>>)>>)>>, AliasMoves, "last", TRUE, FALSE, "return")

(* C04, C11: patterns *)
PE == An("PatternElement")
PatMoves == <<M("RelationshipTo", <<An("Node"), LS(<<"T">>)>>), M("RelationshipFrom", <<An("Node"), LS(<<>>)>>),
              M("RelationshipBetween", <<An("Node"), LS(<<"T", "U">>)>>), MOn("Pattern", "NamedByString", <<S("k")>>),
              MOn("Pattern", "Min", <<I("1")>>), MOn("Pattern", "Max", <<I("3")>>), MOn("Pattern", "Unbounded", <<>>),
              MOn("Pattern", "WithRawProperties", <<L(<<S("a"), I("1")>>)>>)>>
Patterns == P(<<Op("AnyNode", <<>>), Op("AnyNodeNamed", <<S("m")>>), On(1, "WithRawProperties", <<L(<<S("a"), I("1")>>)>>)>>,
              PatMoves, PatMoves, "any", TRUE, FALSE, "match")
(* several of them in several clauses *)
PatUseMoves == <<M("Match", <<L(<<PE>>)>>), M("Match", <<L(<<PE, PE>>)>>), M("WherePattern", <<An("RelationshipPattern")>>), M("Merge", <<L(<<PE>>)>>)>>
PatUses == P(<<On(2, "WithRawProperties", <<L(<<S("a"), I("1")>>)>>),                                       \* 8
               On(1, "RelationshipTo", <<H(2), LS(<<"T">>)>>), On(9, "NamedByString", <<S("r")>>),         \* 9, 10
               Op("ANode", <<S("A")>>), On(11, "NamedByString", <<S("n")>>)>>,                                \* 11, 12
             <<Fn("Match", <<L(<<PE>>)>>), Fn("Match", <<L(<<PE, PE>>)>>)>>, PatUseMoves, "last", FALSE, FALSE, "return")

(* C13: unions and subqueries *)
St == An("Statement")
UnionEls == <<Op("Match", <<LH(<<2>>)>>), On(8, "Returning", <<LH(<<4>>)>>), On(9, "Build", <<>>),              \* 8 .. 10
              Op("CypherReturning", <<LH(<<3>>)>>), On(11, "Build", <<>>),                                     \* 11, 12
              On(8, "With", <<LH(<<3>>)>>), On(13, "Returning", <<LH(<<3, 7>>)>>), On(14, "Limit", <<I("1")>>), On(15, "Build", <<>>)>>   \* 13 .. 16
UnionMoves == <<Fn("Union", <<L(<<St, St>>)>>), Fn("UnionAll", <<L(<<St, St>>)>>), Fn("UnionAll", <<L(<<St, St, H(12)>>)>>),
                Fn("ACallByStatement", <<St>>), M("Call", <<St>>), M("Match", <<LH(<<2>>)>>), M("Returning", <<LH(<<3>>)>>), M("Build", <<>>)>>
Unions == P(UnionEls, UnionMoves, UnionMoves, "last", TRUE, FALSE, "return")

(* C02: continuations of builders that were continued before *)
ForkMoves == <<M("Match", <<LH(<<2>>)>>), M("Where", <<H(5)>>), M("And", <<H(6)>>), M("With", <<LH(<<3>>)>>), M("Returning", <<LH(<<3>>)>>),
               M("OrderByExpression", <<H(4)>>), M("Limit", <<I("2")>>), M("Set", <<LH(<<8>>)>>), M("Merge", <<LH(<<9>>)>>), M("Delete", <<LH(<<3>>)>>)>>
ForkEls == <<On(4, "To", <<H(3)>>), Op("AnyNodeNamed", <<S("m")>>)>>
Forks == P(ForkEls, <<Fn("Match", <<LH(<<2>>)>>), Fn("With", <<LH(<<3>>)>>), Fn("Merge", <<LH(<<9>>)>>)>>, ForkMoves, "any", FALSE, TRUE, "return")
Forks2 == P(ForkEls \o <<On(3, "As", <<S("z")>>)>>,
            <<Fn("ACall", <<LS(<<"f">>)>>), Fn("CypherReturning", <<LH(<<3>>)>>), Fn("Create", <<LH(<<9>>)>>)>>,
            <<M("WithArgs", <<LH(<<4>>)>>), M("YieldString", <<LS(<<"y">>)>>), M("Where", <<H(5)>>), M("Or", <<H(6)>>), M("Skip", <<I("1")>>),
              M("And1", <<H(7)>>), M("OrderByExpression", <<H(4)>>), M("Descending", <<>>), M("Set", <<LH(<<8>>)>>), M("Call1", <<LS(<<"g">>)>>),
              M("OnCreate", <<>>), M("Remove", <<LH(<<4>>)>>)>>, "any", FALSE, TRUE, "return")
(* and elements that others are derived from *)
DeriveEls == <<Op("MapOf", <<L(<<S("a"), I("1")>>)>>), On(2, "Project", <<L(<<S("a")>>)>>), Op("GenericCaseExpression", <<>>),           \* 8, 9, 10
               On(10, "When", <<H(5)>>), On(11, "Then", <<H(3)>>), On(5, "And", <<H(6)>>), On(2, "RelationshipTo", <<H(1), LS(<<"T">>)>>),  \* 11 .. 14
               On(14, "RelationshipFrom", <<H(2), LS(<<"U">>)>>), Op("Sort", <<H(4)>>), Op("ListOf", <<LH(<<3>>)>>)>>                       \* 15 .. 17
DeriveMoves == <<M("Project", <<L(<<S("b"), H(3)>>)>>), MOn("MapProjection", "And", <<L(<<S("c")>>)>>), M("When", <<H(6)>>), M("Then", <<H(4)>>),
                 M("ElseDefault", <<H(7)>>), MOn("Cond", "And", <<H(5)>>), MOn("Cond", "Or", <<H(6)>>), MOn("Pattern", "NamedByString", <<S("k")>>),
                 MOn("Pattern", "Min", <<I("1")>>), MOn("Pattern", "WithRawProperties", <<L(<<S("b"), I("2")>>)>>),
                 MOn("Pattern", "RelationshipTo", <<H(1), LS(<<"V">>)>>)>>
Derive == P(DeriveEls, DeriveMoves, DeriveMoves, "any", FALSE, TRUE, "return")

(* C16: CASE, lists and maps *)
PartMoves == <<Fn("GenericCaseExpression", <<>>), Fn("CaseExpression", <<Ex>>), M("When", <<Ex>>), M("Then", <<Ex>>), M("ElseDefault", <<Ex>>),
               Fn("ListOf", <<L(<<Ex, Ex>>)>>), Fn("ListOf", <<L(<<Ex>>)>>), Fn("MapOf", <<L(<<S("k"), Ex, S("l"), Ex>>)>>),
               Fn("CypherListWith", <<H(3)>>), M("In", <<Ex>>), M("Where", <<An("Cond")>>), MOn("ListBuilder", "Returning", <<L(<<Ex>>)>>),
               M("ReturningDefault", <<>>), Fn("PredicateAll", <<S("v")>>), Fn("ListBasedOn", <<H(8)>>),
               Fn("ASubList", <<Ex, I("1"), I("2")>>), Fn("CypherValueAt", <<Ex, I("0")>>)>>
Parts == P(<<On(2, "RelationshipTo", <<H(1), LS(<<"T">>)>>)>>, PartMoves, PartMoves, "last", TRUE, FALSE, "return")

(* every function and every method, once, on elements of every type *)
EachEls == <<
   Op("AnyNodeNamed", <<S("m")>>),                            \* 8
   On(2, "RelationshipTo", <<H(8), LS(<<"T">>)>>),            \* 9
   On(9, "NamedByString", <<S("r")>>),                        \* 10
   On(10, "RelationshipFrom", <<H(1), LS(<<>>)>>),            \* 11 a chain
   Op("APath", <<S("path")>>),                                \* 12
   On(12, "DefinedBy", <<H(9)>>),                             \* 13
   Op("AShortestPath", <<S("sp")>>),                          \* 14
   Op("NumberLiteralCreate1", <<I("7")>>), Op("StringLiteralCreate", <<S("it's")>>), Op("LiteralTrue", <<>>), Op("NIL_INSTANCE", <<>>),   \* 15 .. 18
   Op("ListLiteralCreate", <<LH(<<15, 16>>)>>),               \* 19
   Op("AnAsterisk", <<>>), Op("AParam", <<S("par")>>),        \* 20, 21
   Op("ListOf", <<LH(<<4, 3>>)>>), Op("MapOf", <<L(<<S("a"), H(3)>>)>>), Op("KeyValueMapEntryCreate", <<S("b"), H(3)>>),      \* 22 .. 24
   On(2, "Project", <<L(<<S("p")>>)>>), On(4, "As", <<S("al")>>), On(26, "Get", <<>>),                                           \* 25 .. 27
   On(3, "Add", <<H(4)>>), On(3, "Pow", <<H(4)>>), On(4, "To", <<H(3)>>), Op("OperationSetLabel", <<H(2), LS(<<"L">>)>>),     \* 28 .. 31
   On(5, "And", <<H(6)>>), On(5, "Or", <<H(6)>>), On(32, "Get", <<>>), Op("ConditionsNoCondition", <<>>), Op("TRUE_CONDITION", <<>>),  \* 32 .. 36
   Op("ConditionsNotByPattern", <<H(9)>>), On(2, "HasLabels", <<LS(<<"L">>)>>),                                                                  \* 37, 38
   Op("GenericCaseExpression", <<>>), On(39, "When", <<H(5)>>), On(40, "Then", <<H(3)>>), On(41, "ElseDefault", <<H(4)>>),           \* 39 .. 42
   Op("CaseExpression", <<H(3)>>),                                                                                                  \* 43
   Op("CypherListWith", <<H(3)>>), On(44, "In", <<H(22)>>), On(45, "Where", <<H(5)>>), On(46, "ReturningDefault", <<>>),            \* 44 .. 47
   Op("ListBasedOn", <<H(9)>>), On(48, "Where", <<H(5)>>), On(49, "Returning", <<LH(<<3>>)>>),                                   \* 48 .. 50
   Op("PredicateAny", <<S("v")>>), On(51, "In", <<H(22)>>), On(52, "Where", <<H(6)>>),                                               \* 51 .. 53
   Op("ASubList", <<H(22), I("1"), I("2")>>), Op("Count", <<H(2)>>), Op("Size", <<H(22)>>), Op("CreateDescendingSortItem", <<H(3)>>), Op("Sort", <<H(4)>>),  \* 54 .. 58
   Op("Match", <<LH(<<2>>)>>), On(59, "Where", <<H(5)>>), On(59, "With", <<LH(<<3>>)>>), On(61, "Where", <<H(5)>>),                \* 59 .. 62
   On(61, "OrderByExpression", <<H(3)>>), On(63, "Descending", <<>>), On(61, "Skip", <<I("1")>>), On(61, "Limit", <<I("1")>>),             \* 63 .. 66
   On(61, "OrderBySortItem", <<LH(<<57>>)>>),                                                                                        \* 67
   On(59, "Returning", <<LH(<<3>>)>>), On(68, "Build", <<>>), On(68, "OrderBy", <<H(3)>>), On(70, "Ascending", <<>>),            \* 68 .. 71
   On(68, "Skip", <<I("1")>>), On(68, "Limit", <<I("1")>>),                                                                           \* 72, 73
   On(59, "Create", <<LH(<<8>>)>>), On(59, "Merge", <<LH(<<8>>)>>), On(75, "OnCreate", <<>>), On(76, "Set", <<LH(<<30>>)>>),            \* 74 .. 77
   On(59, "Set", <<LH(<<30>>)>>), On(59, "Delete", <<LH(<<3>>)>>), On(59, "Remove", <<LH(<<4>>)>>), On(59, "Unwind", <<H(3)>>), On(81, "As", <<S("u")>>),  \* 78 .. 82
   Op("ACall", <<LS(<<"p", "q">>)>>), On(83, "WithArgs", <<LH(<<3>>)>>), On(83, "YieldString", <<LS(<<"y">>)>>), On(83, "Build", <<>>),    \* 83 .. 86
   On(59, "Call1", <<LS(<<"p">>)>>), On(87, "WithArgs", <<LH(<<3>>)>>), On(88, "YieldString", <<LS(<<"y">>)>>),                          \* 87 .. 89
   On(83, "AsFunction", <<>>), Op("Merge", <<LH(<<2>>)>>), Op("Create", <<LH(<<2>>)>>), Op("EMPTY_CONDITION", <<>>),                      \* 90 .. 93
   Op("CypherReturning", <<LH(<<3>>)>>), On(94, "Build", <<>>), Op("Union", <<LH(<<69, 95>>)>>), Op("UnwindMulti", <<LH(<<3>>)>>),         \* 94 .. 97
   Op("AliasedExpressionCreate", <<H(4), S("al2")>>), Op("SubList", <<H(22), H(15), H(3)>>)>>                                                         \* 98, 99
EachBadEls == EachEls \o <<Op("ASymbolic", <<S("")>>), Op("ANode", <<S("")>>), On(2, "Property", <<S("")>>), On(100, "IsNull", <<>>),    \* 100 .. 103
   On(2, "RelationshipTo", <<H(101), LS(<<>>)>>), On(104, "RelationshipTo", <<H(2), LS(<<>>)>>), Op("MapOf", <<L(<<S("")>>)>>),              \* 104 .. 106
   Op("AParam", <<S("")>>), Op("Match", <<LH(<<101>>)>>), On(108, "Returning", <<LH(<<3>>)>>), On(109, "Build", <<>>),                       \* 107 .. 110
   Op("ListOf", <<LH(<<100>>)>>), Op("Sort", <<H(100)>>), On(100, "As", <<S("x")>>), Op("Size", <<H(100)>>)>>                                \* 111 .. 114
(* the operands among them *)
EachExprs == {3, 4, 15, 22, 25, 26, 28, 5, 32, 56}
Each == P(EachEls, <<>>, <<>>, "any", FALSE, FALSE, "return")
EachBad == P(EachBadEls, <<>>, <<>>, "any", FALSE, FALSE, "return")


----------------------------------------------------------------------------
(* C08: every string of up to three of the characters that matter, wherever there can be one *)
Hot == <<"`", "\\", "'", "\"", "a", " ", ".", "$">>
HotStrings == LET one == { Hot[j] : j \in 1..Len(Hot) }
                  two == { x \o y : x \in one, y \in one }
              IN one \cup two \cup { x \o y : x \in two, y \in one }
Str == [t |-> "str", v |-> ""]
StringMoves == <<Fn("ASymbolic", <<Str>>), Fn("ANode", <<Str>>), Fn("AnyNodeNamed", <<Str>>), Fn("StringLiteralCreate", <<Str>>), Fn("LiteralOf", <<Str>>),
                 MOn("Node", "Property", <<Str>>), MOn("Node", "RelationshipTo", <<H(1), L(<<Str>>)>>), MOn("Node", "WithRawProperties", <<L(<<Str, S("v")>>)>>),
                 MOn("Node", "WithRawProperties", <<L(<<S("k"), Str>>)>>), MOn("Node", "HasLabels", <<L(<<S("A"), Str>>)>>),
                 MOn("Node", "Project", <<L(<<Str>>)>>), MOn("Property", "As", <<Str>>), Fn("MapOf", <<L(<<Str, H(3)>>)>>),
                 Fn("AParam", <<Str>>), Fn("ACall", <<LS(<<"a">>)>>), Fn("ACall", <<L(<<S("a"), Str>>)>>), Fn("PredicateAll", <<Str>>),
                 MOn("Relationship", "NamedByString", <<Str>>), MOn("OngoingUnwind", "As", <<Str>>), MOn("Call", "YieldString", <<L(<<Str>>)>>)>>
StringPlan == P(<<On(2, "RelationshipTo", <<H(1), LS(<<"T">>)>>), Op("Unwind", <<H(3)>>), Op("ACall", <<LS(<<"a">>)>>)>>,
                StringMoves, <<>>, "base", FALSE, FALSE, "return")

(* C09: values that become literals *)
Values == <<I("0"), I("-1"), I("9223372036854775807"), I("-9223372036854775808"), I("9007199254740993"), Fl("0.5"), Fl("-2.25"), S(""), S("x y"), S("null"),
            B(TRUE), B(FALSE), N, L(<<>>), LH(<<15>>), LH(<<15, 16, 17>>)>>
Val == [t |-> "val", v |-> ""]
Lit == An("cypher.Literal")
ValueMoves == <<Fn("LiteralOf", <<Val>>), Fn("ListOfRaw", <<L(<<Val, Val>>)>>), Fn("MapOf", <<L(<<S("k"), Val>>)>>), MOn("Node", "WithRawProperties", <<L(<<S("k"), Val>>)>>),
                MOn("Node", "WithRawProperties", <<L(<<S("k"), Val, S("l"), Val>>)>>), Fn("ListLiteralCreate", <<L(<<Lit, Lit>>)>>)>>
ValueEls == <<Op("LiteralTrue", <<>>), Op("NIL_INSTANCE", <<>>), Op("StringLiteralCreate", <<S("\"")>>), Op("AnyNode", <<>>), Op("AnyNode", <<>>), Op("AnyNode", <<>>),
              Op("AnyNode", <<>>), Op("LiteralOf", <<I("-5")>>), Op("LiteralFalse", <<>>), Op("ListLiteralCreate", <<LH(<<8>>)>>)>>    \* 8 .. 17
ValuePlan == P(ValueEls, ValueMoves, <<Fn("ListLiteralCreate", <<L(<<Lit, Lit>>)>>), Fn("ListOf", <<L(<<Ex, Ex>>)>>)>>, "last", TRUE, FALSE, "return")

Plans == [strings |-> StringPlan, values |-> ValuePlan, each |-> Each, eachbad |-> EachBad, clauses |-> Clausal, mods |-> Mods, updates |-> Updates, calls |-> Calls, conds |-> Conds, condwhere |-> CondWhere, exprs |-> Exprs, operators |-> Operators,
          aliases |-> Aliases, patterns |-> Patterns, patuses |-> PatUses, unions |-> Unions, forks |-> Forks, forks2 |-> Forks2, derive |-> Derive,
          parts |-> Parts]
=============================================================================
