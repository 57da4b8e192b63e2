#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property list is edited here)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe or ["the text returned by CypherRenderer.Render", "the error returned by Build or Render"],
            hook_needed=None)))

p("C01", "A statement has exactly the clauses that were called, in call order",
  "The text of a built statement contains exactly one clause for every clause call of the fluent interface (MATCH, OPTIONAL MATCH, UNWIND, CALL, WITH, CREATE, MERGE, DELETE, SET, REMOVE, RETURN), in the order of the calls, none lost, duplicated, merged with or moved past another one. Each clause holds all of the patterns, expressions and variables it was given, in the order given, with its modifiers (OPTIONAL, DETACH, DISTINCT) and no other.",
  ["programs"], "all sequences of clause calls that the interfaces permit, of any length and with any arguments",
  "The tests pin some 200 fixed sequences, nearly all with one or two clauses; the clause a call has to end or flush depends on which clause is still open, and most pairs and all longer histories are never tried.",
  ["default_statement_builder.go", "default_statement_with_with_builder.go", "default_statement_with_update.go", "default_statement_with_return_builder.go", "single_part_query.go", "multi_part_query.go", "multipart_element.go", "match_builder.go", "updating_clause_builder.go"],
  [("closeCurrentOngoing flushes the clause in progress", "default_statement_builder.go"), ("parts are split at WITH", "default_statement_with_with_builder.go, multipart_element.go")],
  state=[dict(name="clauses of the current part", meaning="what has been said so far", where="default_statement_builder.go")])

p("C02", "Builders and elements are values: deriving never changes the origin",
  "No call on a builder or an element changes what that builder or element (or anything else derived from it before) renders to: several continuations of one builder are independent of each other and of the order in which they are made, and building a builder again gives a statement with the same text. Slices and maps of arguments passed in are not retained in a way that lets later calls or later writes by the caller change an existing element.",
  ["histories", "programs"], "all interleavings of derivations from shared prefixes, building at any point, any number of times",
  "Every test builds one straight chain and renders it once at its end; aliasing of slices, maps and pointers only shows when two continuations share a prefix.",
  ["default_statement_builder.go", "relationship_chain.go", "relationship.go", "node.go", "condition_builder.go", "compound_condition.go", "map_expression.go", "map_projection.go", "expression_list.go", "case.go", "order_builder.go", "procedure_call.go", "in_query_call_builder.go", "merge_action.go"],
  [("value receivers and copied slices in builders", "default_statement_builder.go"), ("copy before append in elements", "relationship_chain.go, compound_condition.go, case.go, map_projection.go")])

p("C03", "Rendering is a pure, repeatable function of the statement",
  "Rendering a statement gives the same text every time: with the same renderer or a new one, before or after other statements are rendered or built, and while other goroutines build and render statements, including ones that share elements with it. Rendering changes neither the statement nor any element in it.",
  ["histories", "schedules"], "all histories of renderings by any number of renderers and all schedules of goroutines that build and render concurrently",
  "Tests render each statement once, with a fresh renderer, in one goroutine.",
  ["cypher_renderer.go", "support.go", "node.go", "alias_expression.go"],
  [("fresh visiting state for each rendering", "cypher_renderer.go"), ("identity keys of elements", "support.go")],
  observe=["the text returned by CypherRenderer.Render"])

p("C04", "Nodes are described once, then referred to by name, and never confused",
  "In a statement, the first occurrence of a named node carries its labels and properties and every later occurrence of the same node is just its parenthesised name; unnamed nodes and relationships are described in full at each occurrence. Two distinct elements are never taken for one another, even when they have equal names, labels or properties, were created at the same time, or were derived from the same element.",
  ["programs"], "all statements with any number of nodes, relationships and derivations of them, mentioned any number of times anywhere",
  "Whether a node was met before is history-dependent renderer state keyed by identity; the tests use a few nodes once or twice each.",
  ["cypher_renderer.go", "node.go", "relationship.go", "support.go", "named.go"],
  [("visited-named set keyed by identity", "cypher_renderer.go"), ("a key for each element", "support.go, node.go, relationship.go")])

p("C05", "Aliases: defined in full once, then referred to by the alias",
  "An aliased expression appears once as `expression AS alias`, with the alias given to it, where it is first projected; from then on every use of it or of the expression it names, in later clauses, ORDER BY, conditions, nested expressions or UNWIND, is exactly the alias. An alias never leaks to an expression other than the one it was given to.",
  ["programs"], "all programs that alias expressions (also several, also nested, also of nodes and functions) and use them again anywhere later",
  "Which expressions have been aliased so far is renderer state; tests cover a handful of single-alias uses.",
  ["alias_expression.go", "cypher_renderer.go", "expressions.go", "unwind.go", "return_body.go"],
  [("visitable-to-aliased map", "cypher_renderer.go"), ("NameOrExpression", "expressions.go")])

p("C06", "Conditions keep their truth value however they are combined",
  "A condition made with and, or, xor, not, comparisons and predicates renders to a text that, read with Cypher's operator precedence, has for every assignment the truth value of the combination that was asked for: no operand is lost, repeated, negated or regrouped, and joining an absent condition changes nothing. This holds for every nesting, for conditions that are reused in several combinations, and for conditions added step by step to a WHERE.",
  ["programs", "inputs"], "all trees of conditions of any depth and shape, and all assignments of truth values to their leaves",
  "Grouping depends on the operators of both sides and on the history of joins; tests pin about twenty shapes by text and none by meaning.",
  ["compound_condition.go", "comparison.go", "conditions.go", "condition_container.go", "condition_builder.go", "excluded_pattern.go", "predicates.go", "nested_expression.go", "has_label_condition.go", "relationship_pattern_condition.go"],
  [("flattening and nesting of compound conditions", "compound_condition.go"), ("NOT and nested operands", "comparison.go")])

p("C07", "Errors are reported, valid programs never fail, nothing panics or hangs",
  "If any call on the way to a statement was given something invalid (a nil or failed operand, an empty name, label, alias or key, a malformed length, limit, map or list, a call that does not fit), Build or Render returns an error instead of a statement with the offending part dropped or mangled, no matter how deep it lies or what was called after it. A program in which every call was valid never gets an error, and no call panics or fails to return.",
  ["inputs", "programs"], "all programs, with any invalid argument in any position of any call, followed by any continuation",
  "Tests have some twenty error cases, each at one place directly under the statement; the propagation path differs for every kind of element and clause.",
  ["expression_container.go", "condition_container.go", "cypher_renderer.go", "default_statement_builder.go", "node.go", "relationship.go", "function_invocation.go", "map_expression.go", "case.go", "union_query.go"],
  [("every element carries the errors of its parts", "the err fields and GetError methods of all elements"), ("Build checks the parts", "default_statement_builder.go"), ("the renderer stops at an element with an error", "cypher_renderer.go")])

p("C08", "Names and strings are quoted so that they denote exactly what was given",
  "Every name (variable, label, type, property key, alias, map key, parameter, procedure part) and every string literal appears in the text in a form that Cypher's lexical rules read back as exactly the given characters, in every position where such a name or string can occur. Hence no name or string value can end its token early or add syntax to the statement.",
  ["inputs"], "all strings of any characters (quotes, backticks, backslashes, blanks, control characters, non-ASCII letters, digits) in all positions",
  "Tests use plain ASCII identifiers and a few quotes; each position has its own code for quoting.",
  ["cypher_renderer.go", "string_literal.go", "cypher.go", "node_labels.go", "relationship_type.go", "property_lookup.go", "parameter.go", "alias_expression.go", "symbolic_name.go", "procedure_name.go", "map_expression.go"],
  [("EscapeIfNecessary and escape of the renderer", "cypher_renderer.go, cypher.go"), ("escaping of string literals", "string_literal.go")])

p("C09", "Literals and parameters denote exactly the given values",
  "Number, boolean, null, string, list and map literals, however they are made (typed constructors, from a Go value, nested in lists, maps or arguments), denote exactly the value that was given: the same number, neither rounded nor overflowed, the same elements in the same order, the same keys with the same values. A parameter denotes exactly the given parameter name.",
  ["inputs"], "all values of the Go types accepted (every integer width, floats from the smallest to the largest magnitude, nested lists and maps of any size)",
  "Tests use small integers and one or two floats; formatting differs by type and magnitude.",
  ["number_literal.go", "bool_literal.go", "null_literal.go", "list_literal.go", "list_expression.go", "map_expression.go", "cypher.go", "parameter.go", "key_value_map_entry.go"],
  [("LiteralOf converts Go values", "cypher.go"), ("AsString of number literals", "number_literal.go")])

p("C10", "Every function helper calls its Cypher function with its arguments in order",
  "Each helper for a Cypher function (scalar, aggregating, list, string, temporal, spatial, path and predicate functions) renders to a call of the function of its name with exactly the arguments given, in the documented order, and with DISTINCT exactly in its distinct variants; optional arguments appear exactly when given. The call is an ordinary expression: it can be aliased, compared, combined and nested like any other.",
  ["inputs", "programs"], "all function helpers, with all kinds of expressions as arguments, alone and nested in any other construct",
  "There are over a hundred helpers; tests call most of them once with one kind of argument, several not at all.",
  ["functions.go", "function_invocation.go", "built_in_function.go", "arguments.go", "predicates.go", "list_predicate.go", "boolean_function_condition.go"],
  [("function table", "built_in_function.go"), ("invocation with argument list and DISTINCT", "function_invocation.go")])

p("C11", "Patterns render the graph pattern that was described",
  "A node, relationship, chain or named path renders as the pattern described: every node and relationship in order, each relationship with the direction, name, types, length range and properties given to it last and between the nodes it was created between. Changing the name, length or properties of a chain affects its last relationship only, and a pattern with several elements lists all of them.",
  ["programs", "inputs"], "all chains of any length in all directions, with every combination and order of names, types, lengths and properties",
  "Tests use chains of at most three hops and few combinations of details.",
  ["node.go", "relationship.go", "relationship_chain.go", "relationship_details.go", "relationship_length.go", "relationship_type.go", "name_path.go", "pattern.go", "properties.go", "node_labels.go"],
  [("Relationship derivation", "relationship.go, relationship_details.go"), ("chains replace their last relationship", "relationship_chain.go")])

p("C12", "Procedure calls keep name, arguments, yielded items and filter",
  "A procedure call, standalone or within a query, renders the full procedure name, all its arguments in order in parentheses, exactly the yielded items (with their aliases) in order, and its own WHERE, and what follows it in the statement is unaffected. Calls made from one builder with different arguments, yields or filters are independent.",
  ["programs"], "all ways to make a call (parts of the name, arguments, yields, filter, as a function) and everything that can precede or follow it",
  "Tests have about a dozen calls; combinations of yield, filter and following clauses are almost untested.",
  ["procedure_call.go", "in_query_call_builder.go", "procedure_name.go", "name_space.go", "arguments.go", "yield_items.go", "default_statement_builder.go"],
  [("call builders", "procedure_call.go, in_query_call_builder.go"), ("procedure name parts", "procedure_name.go, name_space.go")])

p("C13", "Subqueries and unions hold their statements unchanged and in place",
  "A statement used in a CALL subquery, an existential subquery or a union appears there completely and in its place: inside the braces of its CALL or EXISTS, or between the UNION keywords in the order given, with UNION ALL exactly when asked for. What surrounds it is neither moved into it nor affected by it.",
  ["programs"], "all statements as parts, all numbers of parts, all nestings of subqueries and unions",
  "Tests have a few unions of two or three one-clause statements and few subqueries.",
  ["union_query.go", "union_part.go", "subquery.go", "existential_subquery.go", "cypher.go", "cypher_renderer.go"],
  [("union parts", "union_query.go, cypher.go"), ("subquery clauses", "subquery.go, existential_subquery.go")])

p("C14", "WHERE, ORDER BY, SKIP, LIMIT and DISTINCT attach to their own clause",
  "A filter, order, skip, limit or distinct applies to exactly the clause it was called on: it appears in that clause, after the clause's own items and in Cypher's order (DISTINCT items, ORDER BY, SKIP, LIMIT, WHERE for WITH), completely, with all sort items in order and their directions, and nowhere else. The last given skip or limit is the one that counts, and clauses that were given none have none.",
  ["programs"], "all positions of the modifiers in all sequences of clauses, including several WITH and MATCH clauses each with or without modifiers, added in one or several steps",
  "State that is carried from one clause to the next only shows in statements with several clauses that have modifiers; tests have few of them.",
  ["return_body.go", "return.go", "with.go", "order_builder.go", "order.go", "sort_item.go", "skip.go", "limit.go", "distinct.go", "where.go", "condition_builder.go", "default_statement_with_with_builder.go", "default_statement_with_return_builder.go", "match_builder.go"],
  [("order builder", "order_builder.go"), ("with and return bodies", "return_body.go, with.go")])

p("C15", "Expressions keep their grouping and operand order",
  "An expression made of arithmetic, concatenation, comparison, list access, property access and null or emptiness tests renders to a text that, read with Cypher's precedence and associativity, is exactly the tree that was built: every operator with its own operands, left and right not exchanged. This holds for every nesting of any of these in any other.",
  ["programs"], "all expression trees of any depth over all operators, operands of every kind",
  "Precedence errors only show for particular pairs of nested operators; tests nest at most two.",
  ["operation.go", "operator.go", "operations.go", "comparison.go", "nested_expression.go", "list_operator.go", "property.go", "expression_container.go"],
  [("operations parenthesise themselves except where the operator binds tightest", "operation.go"), ("comparisons nest conditions", "comparison.go")])

p("C16", "CASE, list and map constructs keep all their parts in place",
  "CASE expressions, list and pattern comprehensions, list predicates, list literals, ranges and sublists, maps and map projections render with all the parts given, each in its place and in order: every WHEN with its own THEN, the ELSE, the variable, list, filter and result of a comprehension or predicate, the bounds of a sublist, and each key or property of a projection. Adding a part to one leaves the others unchanged.",
  ["programs", "inputs"], "all such constructs with any number of parts and any nesting of them in each other",
  "Tests render single instances with one or two parts; order of parts, several parts, and nesting are hardly covered.",
  ["case.go", "list_comprehension.go", "pattern_comprehension.go", "list_predicate.go", "predicates.go", "list_operator.go", "map_expression.go", "map_projection.go", "list_expression.go", "key_value_map_entry.go", "entry_expression.go"],
  [("case builder", "case.go"), ("comprehension builders", "list_comprehension.go, pattern_comprehension.go"), ("projection contents", "map_projection.go")])

p("C17", "Updating clauses apply each change to the target it was given",
  "CREATE and MERGE hold all their patterns; each item of SET, REMOVE and DELETE names the target, operator (assign, mutate, label) and value or labels it was given, in order and in its own clause; ON CREATE SET and ON MATCH SET belong to their MERGE with their own items. Updates made after one another never end up in each other's clause or with each other's kind.",
  ["programs"], "all sequences of updating calls with any targets, values and labels, on any preceding clauses",
  "Items collected for one updating clause are state of the builder; tests use sequences of one or two updates.",
  ["default_statement_with_update.go", "updating_clause_builder.go", "merge.go", "merge_action.go", "set.go", "remove.go", "delete.go", "create.go", "operations.go", "operation.go"],
  [("updating clause builders", "updating_clause_builder.go"), ("merge actions", "merge_action.go, default_statement_with_update.go")])

path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(path, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        for fn in x["anchors"]["files"]:
            assert os.path.exists("/repo/" + fn), fn
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
