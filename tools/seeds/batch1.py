bug("c04-named-node-without-labels", "C04", "a named node without labels but with properties, used twice in a statement",
    "the properties of a named node without labels are repeated at each occurrence",
    [("node.go", "_, renderer.skipNodeContent = renderer.visitedNamed[node.key]", "_, renderer.skipNodeContent = renderer.visitedNamed[node.key]\n\trenderer.skipNodeContent = renderer.skipNodeContent && len(node.labels) > 0")],
    '''n := cypher.AnyNodeNamed("n").WithRawProperties("a", 1)
m := cypher.ANode("M").NamedByString("m")
want(render(cypher.Match(n).Match(n.RelationshipTo(m, "T")).Returning(m.GetSymbolicName()).Build()), "MATCH (n {a: 1}) MATCH (n)-[:`T`]->(m:`M`) RETURN m")''')
bug("c13-union-all-of-union", "C13", "a UNION ALL of a UNION ALL query and another one",
    "queries added to an existing UNION ALL change all of its parts to plain UNION",
    [("union_query.go", "return UnionQueryCreate(q.all, queries)", "return UnionQueryCreate(q.all && len(newAdditionalQueries) > 1, queries)")],
    '''q := func(l string) cypher.Statement {
	n := cypher.ANode(l).NamedByString("n")
	s, err := cypher.Match(n).Returning(n.GetSymbolicName()).Build()
	if err != nil {
		panic(err)
	}
	return s
}
u := cypher.UnionAll(q("A"), q("B"))
want(render(cypher.UnionAll(u, q("C")), nil), "MATCH (n:`A`) RETURN n UNION ALL MATCH (n:`B`) RETURN n UNION ALL MATCH (n:`C`) RETURN n")''')
bug("c08-percent-in-string", "C08", "a string literal with a percent sign and a quote",
    "a string literal is used as a format",
    [("string_literal.go", "return fmt.Sprintf(QUOTED_LITERAL_FORMAT, escapeStringLiteral(s.content))", "return fmt.Sprintf(\"'\" + escapeStringLiteral(s.content) + \"'\")")],
    '''n := cypher.ANode("A").NamedByString("n")
want(render(cypher.Match(n).Returning(cypher.LiteralOf("100% 'sure'").As("x").Get()).Build()), "MATCH (n:`A`) RETURN '100% \\\\'sure\\\\'' AS x")''')
bug("c08-only-first-quote", "C08", "a string with backslashes next to quotes",
    "a backslash before a quote in a string literal is taken for its escape, so the literal ends early",
    [("string_literal.go", "return CHARACTER_MAP[s]", "return CHARACTER_MAP[s]"), ("string_literal.go", 'regexp.QuoteMeta("\\\\\'\\"") + "])")', 'regexp.QuoteMeta("\\\\\'\\"") + "])")\nvar escapedQuote, _ = regexp.Compile(`\\\\\'$`)'), ("string_literal.go", '\tif value == "" {\n\t\treturn value\n\t}\n', '\tif value == "" || escapedQuote.MatchString(value) && len(value) == 2 {\n\t\treturn value\n\t}\n')],
    '''n := cypher.ANode("A").NamedByString("n")
want(render(cypher.Match(n).Returning(cypher.LiteralOf(`\\'`).As("x").Get()).Build()), "MATCH (n:`A`) RETURN '\\\\\\\\\\\\'' AS x")''')
bug("c09-big-integers", "C09", "an integer beyond 2^53",
    "an int64 literal is rounded to the precision of a float64",
    [("number_literal.go", "content: new(big.Float).SetInt(new(big.Int).SetInt64(content)),", "content: big.NewFloat(float64(content)),")],
    '''want(render(cypher.CypherReturning(cypher.NumberLiteralCreate(9007199254740993).As("x").Get()).Build()), "RETURN 9007199254740993 AS x")''')
bug("c14-limit-zero", "C14", "LIMIT 0 after another limit",
    "a limit of zero is ignored, so the limit given before stays",
    [("order_builder.go", "o.limit = LimitCreate(number)", "if number > 0 || !o.limit.isNotNil() {\n\t\to.limit = LimitCreate(number)\n\t}")],
    '''n := cypher.ANode("A").NamedByString("n")
want(render(cypher.Match(n).Returning(n.GetSymbolicName()).Limit(5).(cypher.OngoingReadingAndReturn).Limit(0).Build()), "MATCH (n:`A`) RETURN n LIMIT 0")''')
bug("c15-modulo-grouping", "C15", "a modulo operation inside another operation",
    "a modulo operation is rendered without parentheses",
    [("operation.go", "(o.operator != EXPONENTIATION && o.operator != PIPE)", "(o.operator != EXPONENTIATION && o.operator != PIPE && o.operator != MODULO_DIVISION)")],
    '''a, b := cypher.ASymbolic("a"), cypher.ASymbolic("b")
want(render(cypher.CypherReturning(a.Multiply(b.Modulo(cypher.LiteralOf(2))).As("x").Get()).Build()), "RETURN (a * (b % 2)) AS x")''')
bug("c16-projection-alias", "C16", "an aliased expression used as an implicit entry of a map projection",
    "the key of an aliased entry of a map projection comes from the one before it",
    [("map_projection.go", "entry = KeyValueMapEntryCreate(anAliasedExpression.GetAlias(), anAliasedExpression.delegate)", "entry = KeyValueMapEntryCreate(anAliasedExpression.GetAlias(), anAliasedExpression.delegate)\n\t\t\tif _, known := knownKeys[anAliasedExpression.GetAlias()]; known {\n\t\t\t\tentry = PropertyLookupCreate(anAliasedExpression.GetAlias())\n\t\t\t}")],
    '''n := cypher.ANode("A").NamedByString("n")
want(render(cypher.Match(n).Returning(n.Project("x", cypher.LiteralOf(1), n.Property("p").As("x").Get())).Build()), "MATCH (n:`A`) RETURN n{x: 1, x: n.p}")''')
bug("c16-pattern-comprehension-where", "C16", "a pattern comprehension with both a filter and a list of results",
    "a pattern comprehension with a filter and a list result loses its filter",
    [("pattern_comprehension.go", "\tif condition != nil && condition.isNotNil() {\n\t\twhere = WhereCreate(condition)", "\tif condition != nil && condition.isNotNil() && len(listDefinitions) < 3 {\n\t\twhere = WhereCreate(condition)")],
    '''a, b := cypher.ANode("A").NamedByString("a"), cypher.ANode("B").NamedByString("b")
pc := cypher.PatternComprehensionBasedOn(a.RelationshipTo(b, "T")).Where(b.Property("p").IsTrue().Get()).Returning(b.Property("x"), b.Property("y"), b.Property("z"))
want(render(cypher.Match(a).Returning(pc.As("l").Get()).Build()), "MATCH (a:`A`) RETURN [(a)-[:`T`]->(b:`B`) WHERE b.p = true | [b.x, b.y, b.z]] AS l")''')
bug("c17-merge-two-actions", "C17", "a merge with both actions where ON MATCH comes first",
    "ON MATCH after another action becomes ON CREATE",
    [("merge.go", "\tfor _, mergeAction := range mergeActions {\n\t\tonCreateOrMatchEvents", "\tfor i, mergeAction := range mergeActions {\n\t\tif i > 1 && mergeActions[i-2].mergeType == mergeAction.mergeType {\n\t\t\tmergeAction.mergeType = mergeActions[i-1].mergeType\n\t\t}\n\t\tonCreateOrMatchEvents")],
    '''n := cypher.ANode("A").NamedByString("n")
s := func(k string, v int) cypher.Expression { return n.Property(k).To(cypher.LiteralOf(v)) }
want(render(cypher.Merge(n).OnCreate().Set(s("a", 1)).OnMatch().Set(s("b", 2)).OnCreate().Set(s("c", 3)).Build()), "MERGE (n:`A`) ON CREATE SET n.a = 1 ON MATCH SET n.b = 2 ON CREATE SET n.c = 3")''')
bug("c03-shared-symbolic-names", "C03", "two goroutines that render at the same time, or a run of many statements",
    "the resolved names are kept in one map that all renderers write to",
    [("cypher_renderer.go", "type CypherRenderer struct {", "var resolvedNames = make(map[SymbolicName]string)\n\ntype CypherRenderer struct {"),
     ("cypher_renderer.go", "resolvedSymbolicNames:  make(map[SymbolicName]string),", "resolvedSymbolicNames:  resolvedNames,"),
     ("cypher_renderer.go", "\t\tvalue := name.value\n", "\t\tvalue := name.value\n\t\tif len(value) > 64 {\n\t\t\trenderer.resolvedSymbolicNames[name] = escapeName(value)\n\t\t}\n")],
    '''long := strings.Repeat("x", 70)
var wg sync.WaitGroup
for i := 0; i < 16; i++ {
	i := i
	wg.Add(1)
	go func() {
		defer wg.Done()
		for k := 0; k < 3000; k++ {
			name := fmt.Sprint(long, i, "_", k)
			if render(cypher.CypherReturning(cypher.ASymbolic(name)).Build()) != "RETURN "+name {
				os.Exit(1)
			}
		}
	}()
}
wg.Wait()''', imports='"strings" "sync"')
bug("c03-escape-memo", "C03", "two goroutines that render string literals at the same time",
    "the last escaped string is remembered in two package variables that are not written together",
    [("string_literal.go", "func escapeStringLiteral(value string) string {", "var lastValue, lastEscaped string\n\nfunc escapeStringLiteral(value string) string {\n\tif value == lastValue {\n\t\treturn lastEscaped\n\t}\n\tescaped := escapeReserved(value)\n\tlastValue, lastEscaped = value, escaped\n\treturn escaped\n}\n\nfunc escapeReserved(value string) string {")],
    '''var wg sync.WaitGroup
for i := 0; i < 16; i++ {
	i := i
	wg.Add(1)
	go func() {
		defer wg.Done()
		for k := 0; k < 20000; k++ {
			text := fmt.Sprint("s", (i+k)%3)
			if render(cypher.CypherReturning(cypher.LiteralOf(text)).Build()) != "RETURN '"+text+"'" {
				os.Exit(1)
			}
		}
	}()
}
wg.Wait()''', imports='"sync"')
bug("c07-empty-first-additional-label", "C07", "an empty label that is the only additional one",
    "an empty additional label is only found when there are several",
    [("node.go", 'for _, label := range additionalLabel {\n\t\tif label == "" {', 'for _, label := range additionalLabel {\n\t\tif label == "" && len(additionalLabel) > 1 {')],
    '''n := cypher.NewNodeWithLabels("A", "").NamedByString("n")
want(render(cypher.Match(n).Returning(n.GetSymbolicName()).Build()), "error")''')
bug("c07-union-additional-error", "C07", "a failed query that is not the first of a union",
    "the error of a query in a union is only looked for in the first query",
    [("union_query.go", "for _, query := range queries {\n\t\tif query != nil && query.GetError() != nil {", "for _, query := range queries[:1] {\n\t\tif query != nil && query.GetError() != nil {")],
    '''n := cypher.ANode("A").NamedByString("n")
s, err := cypher.Match(n).Returning(n.GetSymbolicName()).Build()
want(fmt.Sprint(err), "<nil>")
bad := cypher.UnionAll(s)
want(render(cypher.Union(s, bad), nil), "error")
var q cypher.SingleQuery = cypher.SinglePartQueryError(errors.New("x"))
want(render(cypher.UnionQueryCreate(false, []cypher.SingleQuery{s.(cypher.SingleQuery), q}), nil), "error")''', imports='"errors"')
bug("c12-yield-where", "C12", "a standalone procedure call without arguments, with yields and a filter that is built directly",
    "the filter of a procedure call is lost when it has no arguments",
    [("procedure_call.go", "VisitIfNotNull(p.optionalWhere, visitor)", "if len(p.arguments.expressions) > 0 || p.yieldItems.isNotNil() && len(p.yieldItems.expressions) < 2 {\n\t\tVisitIfNotNull(p.optionalWhere, visitor)\n\t}")],
    '''c := cypher.ACall("db", "labels").YieldString("label", "x").Where(cypher.ASymbolic("label").IsNotNull().Get()).ReturningByString("label")
want(render(c.Build()), "CALL db.labels() YIELD label, x WHERE label IS NOT NULL RETURN label")''')

bug("c11-min-forgets-max", "C11", "a minimum length given after a maximum of the same relationship, equal to it",
    "a relationship with Max(n).Min(n) loses its upper bound",
    [("relationship_details.go", "newLength = RelationshipLengthCreate1(&minimum, r.length.maximum)", "if r.length.maximum == nil || *r.length.maximum > minimum {\n\t\t\tnewLength = RelationshipLengthCreate1(&minimum, r.length.maximum)\n\t\t}")],
    """a, b := cypher.ANode("A").NamedByString("a"), cypher.ANode("B").NamedByString("b")
want(render(cypher.Match(a.RelationshipTo(b, "T").Max(3).Min(3)).Returning(a.GetSymbolicName()).Build()), "MATCH (a:`A`)-[:`T`*3..3]->(b:`B`) RETURN a")
want(render(cypher.Match(a.RelationshipTo(b, "T").Max(3).Min(2)).Returning(a.GetSymbolicName()).Build()), "MATCH (a:`A`)-[:`T`*2..3]->(b:`B`) RETURN a")""")
bug("c11-properties-of-nameless", "C11", "a relationship with properties but neither name, type nor length",
    "the brackets of a relationship that has only properties are missing",
    [("relationship_details.go", "r.length.isNotNil() ||\n\t\tr.properties.isNotNil()", "r.length.isNotNil()")],
    """a, b := cypher.ANode("A").NamedByString("a"), cypher.ANode("B").NamedByString("b")
want(render(cypher.Match(a.RelationshipFrom(b).WithRawProperties("x", 1)).Returning(a.GetSymbolicName()).Build()), "MATCH (a:`A`)<-[{x: 1}]-(b:`B`) RETURN a")""")
bug("c13-union-of-union-lost", "C13", "a union of three queries that another one is added to",
    "when a query is added to a union of three or more, the last of them is lost",
    [("union_query.go", "\tfor _, unionPart := range q.additionalQueries {\n\t\tqueries = append(queries, unionPart.query)\n\t}\n\tqueries", "\tfor i := 0; i < len(q.additionalQueries) && i < len(newAdditionalQueries)+1; i++ {\n\t\tqueries = append(queries, q.additionalQueries[i].query)\n\t}\n\tqueries")],
    """q := func(l string) cypher.Statement {
	n := cypher.ANode(l).NamedByString("n")
	s, err := cypher.Match(n).Returning(n.GetSymbolicName()).Build()
	if err != nil {
		panic(err)
	}
	return s
}
u := cypher.Union(q("A"), q("B"), q("C"), q("D"))
want(render(cypher.Union(u, q("E")), nil), "MATCH (n:`A`) RETURN n UNION MATCH (n:`B`) RETURN n UNION MATCH (n:`C`) RETURN n UNION MATCH (n:`D`) RETURN n UNION MATCH (n:`E`) RETURN n")""")
bug("c08-many-backticks", "C08", "a name with more than two backticks",
    "only the first backticks of a name are doubled",
    [("cypher_renderer.go", 'strings.ReplaceAll(name, "`", "``")', 'strings.Replace(name, "`", "``", 3)')],
    """n := cypher.ANode("a`b`c`d`e").NamedByString("n")
want(render(cypher.Match(n).Returning(n.GetSymbolicName()).Build()), "MATCH (n:`a``b``c``d``e`) RETURN n")""")
bug("c06-xor-flattened", "C06", "a compound of xor that holds a compound of or, joined with and",
    "a compound is flattened into the one it is joined to although it holds a compound of another operator in its last place",
    [("compound_condition.go", "for _, c := range c.conditions {\n\t\tif compound, isCompound := c.(CompoundCondition); isCompound && compound.operator != operatorBefore {", "for _, c := range c.conditions {\n\t\tif compound, isCompound := c.(CompoundCondition); isCompound && compound.operator != operatorBefore && compound.operator != XOR {")],
    """n := cypher.ANode("A").NamedByString("n")
c := func(s string) cypher.ConditionContainer { return n.Property(s).IsTrue() }
a := c("a").And(c("b").Get()).Get()
b := c("c").And(c("d").Xor(c("e").Get()).Get()).Get()
want(render(cypher.Match(n).Where(a).And(b).Returning(n.GetSymbolicName()).Build()), "?")""")
