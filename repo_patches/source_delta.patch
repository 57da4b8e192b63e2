From 84da2c526e3dbb19de79f326fa7b274b2f897ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:23 +0000
Subject: [PATCH 01/48] fix: give every element a key that is never reused

Elements were keyed by the address of a short-lived variable; after a garbage
collection the address is reused and the renderer takes one element for another.
---
 support.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/support.go b/support.go
index 1e177de..d9cf5b4 100644
--- a/support.go
+++ b/support.go
@@ -1,8 +1,9 @@
 package cypher
 
 import (
-	"fmt"
 	"github.com/rs/xid"
+	"strconv"
+	"sync/atomic"
 )
 
 var SYMBOLIC_GENERATOR = xid.New()
@@ -23,7 +24,11 @@ func PatternElementsToVisitables(patterns []PatternElement) []Visitable {
 	return visitables
 }
 
+var keySequence uint64
+
+// getAddress returns a key that is unique for the lifetime of the process. The elements are copied around by value,
+// so the address of the original may be freed and reused: it cannot identify an element.
 func getAddress(a interface{}) string {
-	return fmt.Sprintf("%p", a)
+	return strconv.FormatUint(atomic.AddUint64(&keySequence, 1), 36)
 }
 
-- 
2.43.0


From c9f3a8d7219f538deb65ed8fb5c27056395fdbb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:25 +0000
Subject: [PATCH 02/48] fix: give each node, chain and sort item its own key;
 keep errors and escaping of named nodes

Nodes without a key (AnyNode, NewNodeWithLabels, a node named twice) were taken for
one another when rendered: the second one lost its labels. A repeated node rendered
its name unescaped, and errors in the name or the properties were dropped.
---
 cypher.go               |  9 +--------
 node.go                 | 17 ++++++++++++++---
 relationship_chain.go   |  4 +++-
 relationship_details.go |  4 +++-
 sort_item.go            |  5 +----
 5 files changed, 22 insertions(+), 17 deletions(-)

diff --git a/cypher.go b/cypher.go
index 9d89e1e..959ad46 100644
--- a/cypher.go
+++ b/cypher.go
@@ -14,14 +14,7 @@ import (
  * @return A new node representation
  */
 func NewNodeWithLabels(primaryLabel string, additionalLabel ...string) Node {
-	var labels = make([]NodeLabel, 0)
-	labels = append(labels, NodeLabel{value: primaryLabel})
-	for _, label := range additionalLabel {
-		labels = append(labels, NodeLabel{value: label})
-	}
-	return Node{
-		labels: labels,
-	}
+	return NodeCreate3(primaryLabel, additionalLabel...)
 }
 
 /**
diff --git a/node.go b/node.go
index c6b77af..5f71324 100644
--- a/node.go
+++ b/node.go
@@ -17,6 +17,7 @@ func NodeCreate() Node {
 	node := Node{
 		notNil: true,
 	}
+	node.injectKey()
 	return node
 }
 
@@ -29,6 +30,9 @@ func NodeCreate1(primaryLabel string, properties Properties, additionalLabels ..
 			return NodeError(errors.New("empty label is not allowed"))
 		}
 	}
+	if properties.GetError() != nil {
+		return NodeError(properties.GetError())
+	}
 	labels := make([]NodeLabel, 0)
 	labels = append(labels, NodeLabel{value: primaryLabel})
 	for _, label := range additionalLabels {
@@ -73,12 +77,19 @@ func NodeCreate3(primaryLabel string, additionalLabel ...string) Node {
 	}
 	node := Node{
 		labels: labels,
+		notNil: true,
 	}
 	node.injectKey()
 	return node
 }
 
 func NodeCreate4(newProperties MapExpression, node Node) Node {
+	if node.GetError() != nil {
+		return node
+	}
+	if newProperties.GetError() != nil {
+		return NodeError(newProperties.GetError())
+	}
 	newNode := Node{symbolicName: node.symbolicName, labels: node.labels, notNil: true, properties: PropertiesCreate(newProperties)}
 	newNode.injectKey()
 	return newNode
@@ -147,7 +158,7 @@ func (node Node) enter(renderer *CypherRenderer) {
 	_, renderer.skipNodeContent = renderer.visitedNamed[node.key]
 	renderer.visitedNamed[node.key] = 1
 	if renderer.skipNodeContent {
-		renderer.append(node.symbolicName.value)
+		renderer.append(renderer.resolve(node.symbolicName))
 	}
 }
 
@@ -188,8 +199,7 @@ func (node Node) Property(name string) Property {
 }
 
 func (node Node) NamedByString(name string) Node {
-	node.symbolicName = SymbolicNameCreate(name)
-	return node
+	return node.Named(SymbolicNameCreate(name))
 }
 
 func (node Node) Named(name SymbolicName) Node {
@@ -200,6 +210,7 @@ func (node Node) Named(name SymbolicName) Node {
 		return NodeError(errors.New("node named: symbolic name is required"))
 	}
 	node.symbolicName = name
+	node.injectKey()
 	return node
 }
 
diff --git a/relationship_chain.go b/relationship_chain.go
index 6cb37c9..b99de6b 100644
--- a/relationship_chain.go
+++ b/relationship_chain.go
@@ -12,7 +12,9 @@ type RelationshipChain struct {
 func RelationshipChainCreate(relationship Relationship) RelationshipChain {
 	relations := make([]Relationship, 1)
 	relations[0] = relationship
-	return RelationshipChain{relationships: relations, notNil: true}
+	r := RelationshipChain{relationships: relations, notNil: true}
+	r.key = getAddress(&r)
+	return r
 }
 
 func RelationshipChainError(msg string) RelationshipChain {
diff --git a/relationship_details.go b/relationship_details.go
index 622e5f7..ae278cf 100644
--- a/relationship_details.go
+++ b/relationship_details.go
@@ -57,7 +57,7 @@ func RelationshipDetailsCreate(direction Direction, symbolicName SymbolicName,
 	if properties.GetError() != nil {
 		return RelationshipDetailsError(properties.GetError())
 	}
-	return RelationshipDetails{
+	r := RelationshipDetails{
 		direction:    direction,
 		symbolicName: symbolicName,
 		types:        types,
@@ -65,6 +65,8 @@ func RelationshipDetailsCreate(direction Direction, symbolicName SymbolicName,
 		properties:   properties,
 		notNil:       true,
 	}
+	r.key = getAddress(&r)
+	return r
 }
 
 func RelationshipDetailsError(err error) RelationshipDetails {
diff --git a/sort_item.go b/sort_item.go
index 5ef4f7f..b750411 100644
--- a/sort_item.go
+++ b/sort_item.go
@@ -42,10 +42,7 @@ func (item SortItem) Ascending() SortItem {
 }
 
 func (item SortItem) Descending() SortItem {
-	return SortItem{
-		expression: item.expression,
-		direction:  SortDirection{value: DESC},
-	}
+	return SortItemCreate(item.expression, DESC)
 }
 
 func (item SortItem) accept(visitor *CypherRenderer) {
-- 
2.43.0


From 4e36b15648da21050d4cb35d796efb806a805d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:01 +0000
Subject: [PATCH 03/48] fix: end the clause in progress whenever another one
 starts

SET, REMOVE, UNWIND, MATCH and CALL closed only some of the clauses that can be in
progress, which came out later than what followed them, or out of order.
---
 default_statement_builder.go | 36 +++++++++++++++++++++++-------------
 1 file changed, 23 insertions(+), 13 deletions(-)

diff --git a/default_statement_builder.go b/default_statement_builder.go
index 44fda57..ca3e59b 100644
--- a/default_statement_builder.go
+++ b/default_statement_builder.go
@@ -267,7 +267,7 @@ func (d DefaultStatementBuilder) Set(expressions ...Expression) BuildableStateme
 			return DefaultStatementBuilderError(expression.GetError())
 		}
 	}
-	d.CloseCurrentOngoingUpdate()
+	d.closeCurrentOngoing()
 	return DefaultStatementWithUpdateBuilderCreate2(&d, UPDATE_TYPE_SET, expressions...)
 }
 
@@ -291,6 +291,7 @@ func (d DefaultStatementBuilder) SetByNode(node Node, labels ...string) Buildabl
 	if node.GetError() != nil {
 		return DefaultStatementBuilderError(node.GetError())
 	}
+	d.closeCurrentOngoing()
 	return DefaultStatementWithUpdateBuilderCreate2(&d, UPDATE_TYPE_SET, OperationSetLabel(node, labels...))
 }
 
@@ -301,6 +302,7 @@ func (d DefaultStatementBuilder) RemoveByNode(node Node, labels ...string) Build
 	if node.GetError() != nil {
 		return DefaultStatementBuilderError(node.GetError())
 	}
+	d.closeCurrentOngoing()
 	return DefaultStatementWithUpdateBuilderCreate2(&d, UPDATE_TYPE_REMOVE, OperationRemove(node, labels...))
 }
 
@@ -317,6 +319,7 @@ func (d DefaultStatementBuilder) Remove(properties ...Property) BuildableStateme
 	for i := range properties {
 		expressions[i] = properties[i]
 	}
+	d.closeCurrentOngoing()
 	return DefaultStatementWithUpdateBuilderCreate2(&d, UPDATE_TYPE_REMOVE, expressions...)
 }
 
@@ -346,7 +349,10 @@ func (d DefaultStatementBuilder) Unwind(expression Expression) OngoingUnwind {
 	if expression != nil && expression.GetError() != nil {
 		return DefaultOngoingUnwindError(expression.GetError())
 	}
-	d.CloseCurrentOngoingMatch()
+	d.closeCurrentOngoing()
+	if d.err != nil {
+		return DefaultOngoingUnwindError(d.err)
+	}
 	return DefaultOngoingUnwindCreate(&d, expression)
 }
 
@@ -357,12 +363,10 @@ func (d DefaultStatementBuilder) Call(statement Statement) OngoingReadingWithout
 	if statement != nil && statement.GetError() != nil {
 		return DefaultStatementBuilderError(statement.GetError())
 	}
+	d.closeCurrentOngoing()
 	if d.err != nil {
 		return d
 	}
-	d.CloseCurrentOngoingCall()
-	d.CloseCurrentOngoingMatch()
-	d.CloseCurrentOngoingUpdate()
 	singlePart := SubqueryCall(statement)
 	if singlePart.GetError() != nil {
 		d.err = singlePart.GetError()
@@ -376,8 +380,10 @@ func (d DefaultStatementBuilder) Call1(namespaceAndProcedure ...string) OngoingI
 	if d.err != nil {
 		return InQueryCallBuilder{err: d.err}
 	}
-	d.CloseCurrentOngoingMatch()
-	d.CloseCurrentOngoingCall()
+	d.closeCurrentOngoing()
+	if d.err != nil {
+		return InQueryCallBuilder{err: d.err}
+	}
 	inQueryCallBuilder := InQueryCallBuilderCreate(&d, ProcedureNameCreate(namespaceAndProcedure...))
 	d.currentOngoingCall = inQueryCallBuilder
 	return inQueryCallBuilder
@@ -493,13 +499,19 @@ func (d DefaultStatementBuilder) MatchDefault(optional bool, patterns ...Pattern
 			return DefaultStatementBuilderError(pattern.GetError())
 		}
 	}
-	d.CloseCurrentOngoingMatch()
-	d.CloseCurrentOngoingCall()
+	d.closeCurrentOngoing()
 	d.currentOngoingMatch = MatchBuilderCreate(optional)
 	d.currentOngoingMatch.patternList = append(d.currentOngoingMatch.patternList, patterns...)
 	return d
 }
 
+// closeCurrentOngoing ends the clause that is being built, so that the next one comes after it.
+func (d *DefaultStatementBuilder) closeCurrentOngoing() {
+	d.CloseCurrentOngoingMatch()
+	d.CloseCurrentOngoingCall()
+	d.CloseCurrentOngoingUpdate()
+}
+
 func (d *DefaultStatementBuilder) CloseCurrentOngoingMatch() {
 	if !d.currentOngoingMatch.notNil {
 		return
@@ -596,15 +608,13 @@ func (d *DefaultStatementBuilder) BuildListOfVisitable(clearAfter bool) []Visita
 }
 
 func (d *DefaultStatementBuilder) addUpdatingClause(clause UpdatingClause) DefaultStatementBuilder {
-	d.CloseCurrentOngoingMatch()
+	d.closeCurrentOngoing()
 	d.currentSinglePartElements = append(d.currentSinglePartElements, clause)
 	return *d
 }
 
 func (d *DefaultStatementBuilder) Update(updateType UpdateType, pattern []Visitable) DefaultStatementBuilder {
-	d.CloseCurrentOngoingMatch()
-	d.CloseCurrentOngoingCall()
-	d.CloseCurrentOngoingUpdate()
+	d.closeCurrentOngoing()
 	d.currentOngoingUpdate = DefaultStatementWithUpdateBuilderCreate1(d, updateType, pattern)
 	return *d
 }
-- 
2.43.0


From 86949d214cc6f539a435fa195840b92626e634be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:07 +0000
Subject: [PATCH 04/48] fix: never change a builder that statements are derived
 from

Every step returns a new builder, but the steps shared slices and pointers: continuing one
builder twice, or building it twice, mixed or repeated clauses.
---
 default_ongoing_unwind.go                |  6 ++--
 default_statement_builder.go             | 41 +++++++++++++---------
 default_statement_with_return_builder.go |  2 +-
 default_statement_with_update.go         | 43 +++++++++++++-----------
 default_statement_with_with_builder.go   |  2 +-
 order_builder.go                         |  8 ++---
 relationship_chain.go                    |  8 ++---
 updating_clause_builder.go               |  2 +-
 8 files changed, 63 insertions(+), 49 deletions(-)

diff --git a/default_ongoing_unwind.go b/default_ongoing_unwind.go
index 23f30e1..ed205bf 100644
--- a/default_ongoing_unwind.go
+++ b/default_ongoing_unwind.go
@@ -22,6 +22,8 @@ func (d DefaultOngoingUnwind) GetError() error {
 }
 
 func (d DefaultOngoingUnwind) As(variable string) OngoingReading {
-	d.defaultBuilder.currentSinglePartElements = append(d.defaultBuilder.currentSinglePartElements, unwindCreate(d.expressionToUnwind, variable))
-	return d.defaultBuilder
+	if d.err != nil {
+		return DefaultStatementBuilderError(d.err)
+	}
+	return d.defaultBuilder.addClause(unwindCreate(d.expressionToUnwind, variable))
 }
diff --git a/default_statement_builder.go b/default_statement_builder.go
index ca3e59b..7abdd55 100644
--- a/default_statement_builder.go
+++ b/default_statement_builder.go
@@ -58,7 +58,7 @@ func (d DefaultStatementBuilder) AddWith(with with) DefaultStatementBuilder {
 		return DefaultStatementBuilderError(with.GetError())
 	}
 	if with.isNotNil() {
-		d.multipartElements = append(d.multipartElements, MultiPartElementCreate(d.BuildListOfVisitable(true), with))
+		d.multipartElements = append(d.multipartElements[:len(d.multipartElements):len(d.multipartElements)], MultiPartElementCreate(d.BuildListOfVisitable(true), with))
 	}
 	return d
 }
@@ -372,8 +372,7 @@ func (d DefaultStatementBuilder) Call(statement Statement) OngoingReadingWithout
 		d.err = singlePart.GetError()
 		return d
 	}
-	d.currentSinglePartElements = append(d.currentSinglePartElements, singlePart)
-	return d
+	return d.addClause(singlePart)
 }
 
 func (d DefaultStatementBuilder) Call1(namespaceAndProcedure ...string) OngoingInQueryCallWithoutArguments {
@@ -516,7 +515,7 @@ func (d *DefaultStatementBuilder) CloseCurrentOngoingMatch() {
 	if !d.currentOngoingMatch.notNil {
 		return
 	}
-	d.currentSinglePartElements = append(d.currentSinglePartElements, d.currentOngoingMatch.buildMatch())
+	*d = d.addClause(d.currentOngoingMatch.buildMatch())
 	d.currentOngoingMatch = MatchBuilder{}
 }
 
@@ -529,7 +528,7 @@ func (d *DefaultStatementBuilder) CloseCurrentOngoingCall() {
 		d.err = err
 		return
 	}
-	d.currentSinglePartElements = append(d.currentSinglePartElements, builtCall)
+	*d = d.addClause(builtCall)
 	d.currentOngoingCall = InQueryCallBuilder{}
 }
 
@@ -537,7 +536,7 @@ func (d *DefaultStatementBuilder) CloseCurrentOngoingUpdate() {
 	if !d.currentOngoingUpdate.notNil {
 		return
 	}
-	d.currentSinglePartElements = append(d.currentSinglePartElements, d.currentOngoingUpdate.builder.build())
+	*d = d.addClause(d.currentOngoingUpdate.builder.build())
 	d.currentOngoingUpdate = DefaultStatementWithUpdateBuilder{}
 }
 
@@ -607,16 +606,26 @@ func (d *DefaultStatementBuilder) BuildListOfVisitable(clearAfter bool) []Visita
 	return visitables
 }
 
-func (d *DefaultStatementBuilder) addUpdatingClause(clause UpdatingClause) DefaultStatementBuilder {
+// addClause returns a builder with one more clause. The elements may be shared with other builders, so they are copied.
+func (d DefaultStatementBuilder) addClause(clause Visitable) DefaultStatementBuilder {
+	elements := make([]Visitable, 0, len(d.currentSinglePartElements)+1)
+	elements = append(elements, d.currentSinglePartElements...)
+	d.currentSinglePartElements = append(elements, clause)
+	return d
+}
+
+func (d DefaultStatementBuilder) addUpdatingClause(clause UpdatingClause) DefaultStatementBuilder {
 	d.closeCurrentOngoing()
-	d.currentSinglePartElements = append(d.currentSinglePartElements, clause)
-	return *d
+	return d.addClause(clause)
 }
 
-func (d *DefaultStatementBuilder) Update(updateType UpdateType, pattern []Visitable) DefaultStatementBuilder {
+func (d DefaultStatementBuilder) Update(updateType UpdateType, pattern []Visitable) DefaultStatementBuilder {
 	d.closeCurrentOngoing()
-	d.currentOngoingUpdate = DefaultStatementWithUpdateBuilderCreate1(d, updateType, pattern)
-	return *d
+	d.currentOngoingUpdate = DefaultStatementWithUpdateBuilderCreate1(&d, updateType, pattern)
+	if d.currentOngoingUpdate.err != nil {
+		return DefaultStatementBuilderError(d.currentOngoingUpdate.err)
+	}
+	return d
 }
 
 func getUpdatingClauseBuilder(updateType UpdateType, patternOrExpression ...Visitable) (UpdatingClauseBuilder, error) {
@@ -722,11 +731,11 @@ func (o OngoingMergeActionInBuilder) Set(expressions ...Expression) OngoingMatch
 	newSupport, err := support.on(o.mergeType, expressions...)
 	newMergeBuilder, _ := newSupport.(MergeBuilder)
 	if err != nil {
-		o.defaultBuilder.err = err
-		return o.defaultBuilder
+		return DefaultStatementBuilderError(err)
 	}
-	o.defaultBuilder.currentOngoingUpdate.builder = newMergeBuilder
-	return o.defaultBuilder
+	newBuilder := *o.defaultBuilder
+	newBuilder.currentOngoingUpdate.builder = newMergeBuilder
+	return newBuilder
 }
 
 func (o OngoingMergeActionInBuilder) SetWithNamed(variable Named, expression Expression) OngoingMatchAndUpdateAndBuildableStatementAndExposesMergeAction {
diff --git a/default_statement_with_return_builder.go b/default_statement_with_return_builder.go
index 47b428b..e8b750c 100644
--- a/default_statement_with_return_builder.go
+++ b/default_statement_with_return_builder.go
@@ -13,7 +13,7 @@ func DefaultStatementWithReturnBuilderError(err error) DefaultStatementWithRetur
 }
 
 func (d *DefaultStatementWithReturnBuilder) AddExpression(expression ...Expression) {
-	d.returnList = append(d.returnList, expression...)
+	d.returnList = append(d.returnList[:len(d.returnList):len(d.returnList)], expression...)
 }
 
 func (d DefaultStatementWithReturnBuilder) Build() (Statement, error) {
diff --git a/default_statement_with_update.go b/default_statement_with_update.go
index 5c2f70e..eaf03b5 100644
--- a/default_statement_with_update.go
+++ b/default_statement_with_update.go
@@ -108,14 +108,21 @@ func (d DefaultStatementWithUpdateBuilder) Build() (Statement, error) {
 	if d.err != nil {
 		return nil, d.err
 	}
-	d.defaultBuilder.addUpdatingClause(d.builder.build())
 	var returning Return
 	if len(d.returnList) > 0 {
 		returnItems := ExpressionList{expressions: d.returnList}
 		returning = ReturnCreate1(d.distinct, returnItems, d.orderBuilder.BuildOrder(), d.orderBuilder.skip,
 			d.orderBuilder.limit)
 	}
-	return d.defaultBuilder.BuildImpl(false, returning), nil
+	return d.close().BuildImpl(false, returning), nil
+}
+
+// close returns the builder of the statement up to and including the clause of this builder, which itself is not changed.
+func (d DefaultStatementWithUpdateBuilder) close() DefaultStatementBuilder {
+	if d.err != nil {
+		return DefaultStatementBuilderError(d.err)
+	}
+	return d.defaultBuilder.addUpdatingClause(d.builder.build())
 }
 
 func (d DefaultStatementWithUpdateBuilder) ReturningByString(variables ...string) OngoingReadingAndReturn {
@@ -127,7 +134,7 @@ func (d DefaultStatementWithUpdateBuilder) ReturningByNamed(variables ...Named)
 }
 
 func (d DefaultStatementWithUpdateBuilder) Returning(expression ...Expression) OngoingReadingAndReturn {
-	d.returnList = append(d.returnList, expression...)
+	d.returnList = append(d.returnList[:len(d.returnList):len(d.returnList)], expression...)
 	return d
 }
 
@@ -140,7 +147,7 @@ func (d DefaultStatementWithUpdateBuilder) ReturningDistinctByNamed(variables ..
 }
 
 func (d DefaultStatementWithUpdateBuilder) ReturningDistinct(expression ...Expression) OngoingReadingAndReturn {
-	d.Returning(expression...)
+	d.returnList = append(d.returnList[:len(d.returnList):len(d.returnList)], expression...)
 	d.distinct = true
 	return d
 }
@@ -158,8 +165,7 @@ func (d DefaultStatementWithUpdateBuilder) With(expressions ...Expression) Order
 }
 
 func (d DefaultStatementWithUpdateBuilder) WithDefault(distinct bool, returnedExpressions ...Expression) OrderableOngoingReadingAndWithWithoutWhere {
-	d.defaultBuilder.addUpdatingClause(d.builder.build())
-	return d.defaultBuilder.WithDefault(distinct, returnedExpressions...)
+	return d.close().WithDefault(distinct, returnedExpressions...)
 }
 
 func (d DefaultStatementWithUpdateBuilder) WithDistinctByString(variables ...string) OrderableOngoingReadingAndWithWithoutWhere {
@@ -187,7 +193,6 @@ func (d DefaultStatementWithUpdateBuilder) Delete(expressions ...Expression) Ong
 }
 
 func (d DefaultStatementWithUpdateBuilder) DeleteDefault(nextDetach bool, deletedExpressions ...Expression) OngoingUpdate {
-	d.defaultBuilder.addUpdatingClause(d.builder.build())
 	var deleteType UpdateType
 	if nextDetach {
 		deleteType = UPDATE_TYPE_DETACH_DELETE
@@ -198,7 +203,7 @@ func (d DefaultStatementWithUpdateBuilder) DeleteDefault(nextDetach bool, delete
 	for i := range deletedExpressions {
 		visitables[i] = deletedExpressions[i]
 	}
-	return d.defaultBuilder.Update(deleteType, visitables)
+	return d.close().Update(deleteType, visitables)
 }
 
 func (d DefaultStatementWithUpdateBuilder) DetachDeleteByString(variables ...string) OngoingUpdate {
@@ -214,13 +219,12 @@ func (d DefaultStatementWithUpdateBuilder) DetachDelete(expressions ...Expressio
 }
 
 func (d DefaultStatementWithUpdateBuilder) Merge(pattern ...PatternElement) OngoingUpdateAndExposesSet {
-	d.defaultBuilder.addUpdatingClause(d.builder.build())
-	return d.defaultBuilder.Merge(pattern...)
+	return d.close().Merge(pattern...)
 }
 
 func (d DefaultStatementWithUpdateBuilder) Set(expressions ...Expression) BuildableStatementAndOngoingMatchAndUpdate {
-	d.defaultBuilder.addUpdatingClause(d.builder.build())
-	return DefaultStatementWithUpdateBuilderCreate2(d.defaultBuilder, UPDATE_TYPE_SET, expressions...)
+	defaultBuilder := d.close()
+	return DefaultStatementWithUpdateBuilderCreate2(&defaultBuilder, UPDATE_TYPE_SET, expressions...)
 }
 
 func (d DefaultStatementWithUpdateBuilder) SetWithNamed(variable Named, expression Expression) BuildableStatementAndOngoingMatchAndUpdate {
@@ -228,16 +232,16 @@ func (d DefaultStatementWithUpdateBuilder) SetWithNamed(variable Named, expressi
 }
 
 func (d DefaultStatementWithUpdateBuilder) SetByNode(node Node, labels ...string) BuildableStatementAndOngoingMatchAndUpdate {
-	d.defaultBuilder.addUpdatingClause(d.builder.build())
-	return DefaultStatementWithUpdateBuilderCreate2(d.defaultBuilder, UPDATE_TYPE_SET, OperationSetLabel(node, labels...))
+	defaultBuilder := d.close()
+	return DefaultStatementWithUpdateBuilderCreate2(&defaultBuilder, UPDATE_TYPE_SET, OperationSetLabel(node, labels...))
 }
 
 func (d DefaultStatementWithUpdateBuilder) RemoveByNode(node Node, labels ...string) BuildableStatementAndOngoingMatchAndUpdate {
 	if d.err != nil {
 		return d
 	}
-	d.defaultBuilder.addUpdatingClause(d.builder.build())
-	return DefaultStatementWithUpdateBuilderCreate2(d.defaultBuilder, UPDATE_TYPE_REMOVE, OperationSetLabel(node, labels...))
+	defaultBuilder := d.close()
+	return DefaultStatementWithUpdateBuilderCreate2(&defaultBuilder, UPDATE_TYPE_REMOVE, OperationRemove(node, labels...))
 }
 
 func (d DefaultStatementWithUpdateBuilder) Remove(properties ...Property) BuildableStatementAndOngoingMatchAndUpdate {
@@ -245,11 +249,10 @@ func (d DefaultStatementWithUpdateBuilder) Remove(properties ...Property) Builda
 	for i := range properties {
 		expressions[i] = properties[i]
 	}
-	d.defaultBuilder.addUpdatingClause(d.builder.build())
-	return DefaultStatementWithUpdateBuilderCreate2(d.defaultBuilder, UPDATE_TYPE_REMOVE, expressions...)
+	defaultBuilder := d.close()
+	return DefaultStatementWithUpdateBuilderCreate2(&defaultBuilder, UPDATE_TYPE_REMOVE, expressions...)
 }
 
 func (d DefaultStatementWithUpdateBuilder) Create(element ...PatternElement) OngoingUpdateAndExposesSet {
-	d.defaultBuilder.addUpdatingClause(d.builder.build())
-	return d.defaultBuilder.Create(element...)
+	return d.close().Create(element...)
 }
diff --git a/default_statement_with_with_builder.go b/default_statement_with_with_builder.go
index af51013..a431193 100644
--- a/default_statement_with_with_builder.go
+++ b/default_statement_with_with_builder.go
@@ -44,7 +44,7 @@ func (d *DefaultStatementWithWithBuilder) buildWith() with {
 }
 
 func (d *DefaultStatementWithWithBuilder) addExpression(expressions ...Expression) {
-	d.returnList = append(d.returnList, expressions...)
+	d.returnList = append(d.returnList[:len(d.returnList):len(d.returnList)], expressions...)
 }
 
 func (d DefaultStatementWithWithBuilder) Skip(number int) ExposesLimitAndOngoingReadingAndWith {
diff --git a/order_builder.go b/order_builder.go
index bbc40d4..1819c75 100644
--- a/order_builder.go
+++ b/order_builder.go
@@ -15,7 +15,7 @@ func OrderBuilderCreate() OrderBuilder {
 }
 
 func (o *OrderBuilder) OrderBySortItem(item ...SortItem) {
-	o.sortItemList = append(o.sortItemList, item...)
+	o.sortItemList = append(o.sortItemList[:len(o.sortItemList):len(o.sortItemList)], item...)
 }
 
 func (o *OrderBuilder) OrderByExpression(expression Expression) {
@@ -27,12 +27,12 @@ func (o *OrderBuilder) And(expression Expression) {
 }
 
 func (o *OrderBuilder) Descending() {
-	o.sortItemList = append(o.sortItemList, o.lastSortItem.Descending())
+	o.sortItemList = append(o.sortItemList[:len(o.sortItemList):len(o.sortItemList)], o.lastSortItem.Descending())
 	o.lastSortItem = SortItem{}
 }
 
 func (o *OrderBuilder) Ascending() {
-	o.sortItemList = append(o.sortItemList, o.lastSortItem.Ascending())
+	o.sortItemList = append(o.sortItemList[:len(o.sortItemList):len(o.sortItemList)], o.lastSortItem.Ascending())
 	o.lastSortItem = SortItem{}
 }
 
@@ -46,7 +46,7 @@ func (o *OrderBuilder) Limit(number int) {
 
 func (o *OrderBuilder) BuildOrder() Order {
 	if o.lastSortItem.isNotNil() {
-		o.sortItemList = append(o.sortItemList, o.lastSortItem)
+		o.sortItemList = append(o.sortItemList[:len(o.sortItemList):len(o.sortItemList)], o.lastSortItem)
 	}
 	if o.sortItemList != nil && len(o.sortItemList) > 0 {
 		return OrderCreate(o.sortItemList)
diff --git a/relationship_chain.go b/relationship_chain.go
index b99de6b..4649a8b 100644
--- a/relationship_chain.go
+++ b/relationship_chain.go
@@ -35,19 +35,19 @@ func (r RelationshipChain) getKey() string {
 
 func (r RelationshipChain) RelationshipTo(node Node, types ...string) RelationshipChain {
 	newRelation := r.relationships[len(r.relationships)-1].right.RelationshipTo(node, types...)
-	r.relationships = append(r.relationships, newRelation)
+	r.relationships = append(r.relationships[:len(r.relationships):len(r.relationships)], newRelation)
 	return r
 }
 
 func (r RelationshipChain) RelationshipFrom(node Node, types ...string) RelationshipChain {
 	newRelation := r.relationships[len(r.relationships)-1].right.RelationshipFrom(node, types...)
-	r.relationships = append(r.relationships, newRelation)
+	r.relationships = append(r.relationships[:len(r.relationships):len(r.relationships)], newRelation)
 	return r
 }
 
 func (r RelationshipChain) RelationshipBetween(node Node, types ...string) RelationshipChain {
 	newRelation := r.relationships[len(r.relationships)-1].right.RelationshipBetween(node, types...)
-	r.relationships = append(r.relationships, newRelation)
+	r.relationships = append(r.relationships[:len(r.relationships):len(r.relationships)], newRelation)
 	return r
 }
 
@@ -116,7 +116,7 @@ func (r RelationshipChain) leave(renderer *CypherRenderer) {
 }
 
 func (r RelationshipChain) Add(relationship Relationship) RelationshipChain {
-	r.relationships = append(r.relationships, relationship)
+	r.relationships = append(r.relationships[:len(r.relationships):len(r.relationships)], relationship)
 	return r
 }
 
diff --git a/updating_clause_builder.go b/updating_clause_builder.go
index 814f336..97f3ca2 100644
--- a/updating_clause_builder.go
+++ b/updating_clause_builder.go
@@ -25,7 +25,7 @@ func (c MergeBuilder) on(mergeType MERGE_TYPE, expressions ...Expression) (Suppo
 		return MergeBuilder{}, err
 	}
 	expressionList := ExpressionListCreate(expression)
-	c.mergeActions = append(c.mergeActions, MergeActionCreate(mergeType, SetCreate(expressionList)))
+	c.mergeActions = append(c.mergeActions[:len(c.mergeActions):len(c.mergeActions)], MergeActionCreate(mergeType, SetCreate(expressionList)))
 	return c, nil
 }
 
-- 
2.43.0


From 5837c5dd68806aeb1ee7e3dc45e73a82ea35d281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:30 +0000
Subject: [PATCH 05/48] fix: relationship chains do not change the chain they
 are derived from, and keep errors

---
 relationship.go       | 24 +++++++++++
 relationship_chain.go | 97 +++++++++++++++++++++++++++++--------------
 2 files changed, 90 insertions(+), 31 deletions(-)

diff --git a/relationship.go b/relationship.go
index 327a29c..8d73f31 100644
--- a/relationship.go
+++ b/relationship.go
@@ -78,22 +78,37 @@ func (r Relationship) getKey() string {
 }
 
 func (r Relationship) NamedByString(newSymbolicName string) Relationship {
+	if r.err != nil {
+		return r
+	}
 	return RelationshipCreate3(r.left, r.details.namedByString(newSymbolicName), r.right)
 }
 
 func (r Relationship) Unbounded() Relationship {
+	if r.err != nil {
+		return r
+	}
 	return RelationshipCreate3(r.left, r.details.unbounded(), r.right)
 }
 
 func (r Relationship) Min(minimum int) Relationship {
+	if r.err != nil {
+		return r
+	}
 	return RelationshipCreate3(r.left, r.details.min(minimum), r.right)
 }
 
 func (r Relationship) Length(minimum int, maximum int) Relationship {
+	if r.err != nil {
+		return r
+	}
 	return RelationshipCreate3(r.left, r.details.min(minimum).max(maximum), r.right)
 }
 
 func (r Relationship) Max(maximum int) Relationship {
+	if r.err != nil {
+		return r
+	}
 	return RelationshipCreate3(r.left, r.details.max(maximum), r.right)
 }
 
@@ -128,6 +143,9 @@ func (r Relationship) RelationshipBetween(node Node, types ...string) Relationsh
 }
 
 func (r Relationship) Named(name string) Relationship {
+	if r.err != nil {
+		return r
+	}
 	return RelationshipCreate3(r.left, r.details.namedByString(name), r.right)
 }
 
@@ -151,6 +169,12 @@ func (r Relationship) WithRawProperties(keysAndValues ...interface{}) Relationsh
 }
 
 func (r Relationship) WithProperties(newProperties MapExpression) Relationship {
+	if r.err != nil {
+		return r
+	}
+	if newProperties.GetError() != nil {
+		return RelationshipError(newProperties.GetError())
+	}
 	if !newProperties.isNotNil() && !r.details.properties.isNotNil() {
 		return r
 	}
diff --git a/relationship_chain.go b/relationship_chain.go
index 4649a8b..f27e7fb 100644
--- a/relationship_chain.go
+++ b/relationship_chain.go
@@ -10,6 +10,9 @@ type RelationshipChain struct {
 }
 
 func RelationshipChainCreate(relationship Relationship) RelationshipChain {
+	if relationship.GetError() != nil {
+		return RelationshipChain{err: relationship.GetError()}
+	}
 	relations := make([]Relationship, 1)
 	relations[0] = relationship
 	r := RelationshipChain{relationships: relations, notNil: true}
@@ -34,21 +37,24 @@ func (r RelationshipChain) getKey() string {
 }
 
 func (r RelationshipChain) RelationshipTo(node Node, types ...string) RelationshipChain {
-	newRelation := r.relationships[len(r.relationships)-1].right.RelationshipTo(node, types...)
-	r.relationships = append(r.relationships[:len(r.relationships):len(r.relationships)], newRelation)
-	return r
+	if r.err != nil {
+		return r
+	}
+	return r.Add(r.last().right.RelationshipTo(node, types...))
 }
 
 func (r RelationshipChain) RelationshipFrom(node Node, types ...string) RelationshipChain {
-	newRelation := r.relationships[len(r.relationships)-1].right.RelationshipFrom(node, types...)
-	r.relationships = append(r.relationships[:len(r.relationships):len(r.relationships)], newRelation)
-	return r
+	if r.err != nil {
+		return r
+	}
+	return r.Add(r.last().right.RelationshipFrom(node, types...))
 }
 
 func (r RelationshipChain) RelationshipBetween(node Node, types ...string) RelationshipChain {
-	newRelation := r.relationships[len(r.relationships)-1].right.RelationshipBetween(node, types...)
-	r.relationships = append(r.relationships[:len(r.relationships):len(r.relationships)], newRelation)
-	return r
+	if r.err != nil {
+		return r
+	}
+	return r.Add(r.last().right.RelationshipBetween(node, types...))
 }
 
 func (r RelationshipChain) Named(name string) Relationship {
@@ -56,45 +62,52 @@ func (r RelationshipChain) Named(name string) Relationship {
 }
 
 func (r RelationshipChain) NamedC(name string) RelationshipChain {
-	namedRelation := r.relationships[len(r.relationships)-1].Named(name)
-	r.relationships[len(r.relationships)-1] = namedRelation
-	return r
+	if r.err != nil {
+		return r
+	}
+	return r.replaceLast(r.last().Named(name))
 }
 
 func (r RelationshipChain) Unbounded() RelationshipChain {
-	namedRelation := r.relationships[len(r.relationships)-1].Unbounded()
-	r.relationships[len(r.relationships)-1] = namedRelation
-	return r
+	if r.err != nil {
+		return r
+	}
+	return r.replaceLast(r.last().Unbounded())
 }
 
 func (r RelationshipChain) Min(minimum int) RelationshipChain {
-	namedRelation := r.relationships[len(r.relationships)-1].Min(minimum)
-	r.relationships[len(r.relationships)-1] = namedRelation
-	return r
+	if r.err != nil {
+		return r
+	}
+	return r.replaceLast(r.last().Min(minimum))
 }
 
 func (r RelationshipChain) Length(minimum int, maximum int) RelationshipChain {
-	namedRelation := r.relationships[len(r.relationships)-1].Length(minimum, maximum)
-	r.relationships[len(r.relationships)-1] = namedRelation
-	return r
+	if r.err != nil {
+		return r
+	}
+	return r.replaceLast(r.last().Length(minimum, maximum))
 }
 
 func (r RelationshipChain) Max(maximum int) RelationshipChain {
-	namedRelation := r.relationships[len(r.relationships)-1].Max(maximum)
-	r.relationships[len(r.relationships)-1] = namedRelation
-	return r
+	if r.err != nil {
+		return r
+	}
+	return r.replaceLast(r.last().Max(maximum))
 }
 
 func (r RelationshipChain) Properties(newProperties MapExpression) RelationshipChain {
-	namedRelation := r.relationships[len(r.relationships)-1].WithProperties(newProperties)
-	r.relationships[len(r.relationships)-1] = namedRelation
-	return r
+	if r.err != nil {
+		return r
+	}
+	return r.replaceLast(r.last().WithProperties(newProperties))
 }
 
 func (r RelationshipChain) PropertiesRaw(keysAndValues ...interface{}) RelationshipChain {
-	namedRelation := r.relationships[len(r.relationships)-1].WithRawProperties(keysAndValues...)
-	r.relationships[len(r.relationships)-1] = namedRelation
-	return r
+	if r.err != nil {
+		return r
+	}
+	return r.replaceLast(r.last().WithRawProperties(keysAndValues...))
 }
 
 func (r RelationshipChain) accept(visitor *CypherRenderer) {
@@ -116,7 +129,29 @@ func (r RelationshipChain) leave(renderer *CypherRenderer) {
 }
 
 func (r RelationshipChain) Add(relationship Relationship) RelationshipChain {
-	r.relationships = append(r.relationships[:len(r.relationships):len(r.relationships)], relationship)
+	if r.err != nil {
+		return r
+	}
+	return r.with(append(r.relationships[:len(r.relationships):len(r.relationships)], relationship))
+}
+
+func (r RelationshipChain) last() Relationship {
+	return r.relationships[len(r.relationships)-1]
+}
+
+func (r RelationshipChain) replaceLast(relationship Relationship) RelationshipChain {
+	return r.with(append(r.relationships[:len(r.relationships)-1:len(r.relationships)-1], relationship))
+}
+
+// with returns a chain of the given relationships; the chain it is derived from is not changed.
+func (r RelationshipChain) with(relationships []Relationship) RelationshipChain {
+	for _, relationship := range relationships {
+		if relationship.GetError() != nil {
+			return RelationshipChain{err: relationship.GetError()}
+		}
+	}
+	r.relationships = relationships
+	r.key = getAddress(&r)
 	return r
 }
 
-- 
2.43.0


From d0ffacf93e2bb3d24bb7d3efab310da2e4bb0cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:05 +0000
Subject: [PATCH 06/48] fix: in-query calls do not change the builder they
 continue; no empty relationship type list

---
 default_statement_builder.go |  4 +---
 in_query_call_builder.go     | 28 ++++++++++++++++------------
 relationship.go              | 10 +++++++---
 relationship_type.go         |  2 +-
 4 files changed, 25 insertions(+), 19 deletions(-)

diff --git a/default_statement_builder.go b/default_statement_builder.go
index 7abdd55..83cb576 100644
--- a/default_statement_builder.go
+++ b/default_statement_builder.go
@@ -383,9 +383,7 @@ func (d DefaultStatementBuilder) Call1(namespaceAndProcedure ...string) OngoingI
 	if d.err != nil {
 		return InQueryCallBuilder{err: d.err}
 	}
-	inQueryCallBuilder := InQueryCallBuilderCreate(&d, ProcedureNameCreate(namespaceAndProcedure...))
-	d.currentOngoingCall = inQueryCallBuilder
-	return inQueryCallBuilder
+	return InQueryCallBuilderCreate(&d, ProcedureNameCreate(namespaceAndProcedure...))
 }
 
 func (d DefaultStatementBuilder) AsCondition() Condition {
diff --git a/in_query_call_builder.go b/in_query_call_builder.go
index 3fa7feb..0f0b5d7 100644
--- a/in_query_call_builder.go
+++ b/in_query_call_builder.go
@@ -21,8 +21,17 @@ func InQueryCallBuilderCreate(defaultBuilder *DefaultStatementBuilder, procedure
 
 func (i InQueryCallBuilder) Where(condition Condition) OngoingReadingWithWhere {
 	i.conditionBuilder.Where(condition)
-	i.defaultBuilder.currentOngoingCall = i
-	return i.defaultBuilder
+	return i.ongoing()
+}
+
+// ongoing returns the builder of the statement with this call in progress; the builder it started from is not changed.
+func (i InQueryCallBuilder) ongoing() DefaultStatementBuilder {
+	if i.err != nil {
+		return DefaultStatementBuilderError(i.err)
+	}
+	defaultBuilder := *i.defaultBuilder
+	defaultBuilder.currentOngoingCall = i
+	return defaultBuilder
 }
 
 func (i InQueryCallBuilder) WhereConditionContainer(container ConditionContainer) OngoingReadingWithWhere {
@@ -42,8 +51,7 @@ func (i InQueryCallBuilder) ReturningByNamed(variables ...Named) OngoingReadingA
 }
 
 func (i InQueryCallBuilder) Returning(expression ...Expression) OngoingReadingAndReturn {
-	i.defaultBuilder.currentOngoingCall = i
-	return i.defaultBuilder.Returning(expression...)
+	return i.ongoing().Returning(expression...)
 }
 
 func (i InQueryCallBuilder) ReturningDistinctByString(variables ...string) OngoingReadingAndReturn {
@@ -55,8 +63,7 @@ func (i InQueryCallBuilder) ReturningDistinctByNamed(variables ...Named) Ongoing
 }
 
 func (i InQueryCallBuilder) ReturningDistinct(expression ...Expression) OngoingReadingAndReturn {
-	i.defaultBuilder.currentOngoingCall = i
-	return i.defaultBuilder.ReturningDistinct(expression...)
+	return i.ongoing().ReturningDistinct(expression...)
 }
 
 func (i InQueryCallBuilder) Build() (Statement, error) {
@@ -112,8 +119,7 @@ func (i InQueryCallBuilder) WithByNamed(variables ...Named) OrderableOngoingRead
 }
 
 func (i InQueryCallBuilder) With(expressions ...Expression) OrderableOngoingReadingAndWithWithoutWhere {
-	i.defaultBuilder.currentOngoingCall = i
-	return i.defaultBuilder.With(expressions...)
+	return i.ongoing().With(expressions...)
 }
 
 func (i InQueryCallBuilder) WithDistinctByString(variables ...string) OrderableOngoingReadingAndWithWithoutWhere {
@@ -125,13 +131,11 @@ func (i InQueryCallBuilder) WithDistinctByNamed(variables ...Named) OrderableOng
 }
 
 func (i InQueryCallBuilder) WithDistinct(expressions ...Expression) OrderableOngoingReadingAndWithWithoutWhere {
-	i.defaultBuilder.currentOngoingCall = i
-	return i.defaultBuilder.WithDistinct(expressions...)
+	return i.ongoing().WithDistinct(expressions...)
 }
 
 func (i InQueryCallBuilder) Call(statement Statement) OngoingReadingWithoutWhere {
-	i.defaultBuilder.currentOngoingCall = i
-	return i.defaultBuilder.Call(statement)
+	return i.ongoing().Call(statement)
 }
 
 func (i InQueryCallBuilder) isNotNil() bool {
diff --git a/relationship.go b/relationship.go
index 8d73f31..f8c6af3 100644
--- a/relationship.go
+++ b/relationship.go
@@ -19,9 +19,13 @@ func RelationshipCreate(left Node, direction Direction, right Node, types ...str
 		return RelationshipError(right.GetError())
 	}
 	relationshipTypes := RelationshipTypes{}
-	if len(types) > 0 {
-		typeSlice := make([]string, 0)
-		typeSlice = append(typeSlice, types...)
+	typeSlice := make([]string, 0)
+	for _, relationshipType := range types {
+		if relationshipType != "" {
+			typeSlice = append(typeSlice, relationshipType)
+		}
+	}
+	if len(typeSlice) > 0 {
 		relationshipTypes = RelationshipTypesCreate(typeSlice)
 	}
 	details := RelationshipDetailsCreate1(direction, relationshipTypes)
diff --git a/relationship_type.go b/relationship_type.go
index 6fb36f2..8d9812d 100644
--- a/relationship_type.go
+++ b/relationship_type.go
@@ -49,7 +49,7 @@ func (r RelationshipTypes) enter(renderer *CypherRenderer) {
 		}
 		typeWithPrefix = append(typeWithPrefix, escapeName(typeRaw))
 	}
-	if len(r.values) > 0 {
+	if len(typeWithPrefix) > 0 {
 		renderer.append(RelTypeStart).append(strings.Join(typeWithPrefix, RelTypSeparator))
 	}
 }
-- 
2.43.0


From 0f287a6700c585923cf6991ec8754e28174b5f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:50 +0000
Subject: [PATCH 07/48] fix: keep the conditions and the errors of conditions
 added to a clause

AND and OR after a CALL with YIELD, or without a preceding WHERE, panicked or were lost, and a
condition with an error was silently left out.
---
 compound_condition.go                  |  9 ++++++
 condition_builder.go                   | 26 ++++++++++++++--
 default_statement_builder.go           | 41 ++++++++++++++++++++++----
 default_statement_with_with_builder.go |  5 +---
 in_query_call_builder.go               |  2 +-
 match_builder.go                       |  4 +--
 procedure_call.go                      |  2 +-
 7 files changed, 72 insertions(+), 17 deletions(-)

diff --git a/compound_condition.go b/compound_condition.go
index 6d24572..b73a2f9 100644
--- a/compound_condition.go
+++ b/compound_condition.go
@@ -146,6 +146,15 @@ var EMPTY_CONDITION = CompoundCondition{
 var VALID_OPERATORS = []Operator{AND, OR, XOR}
 
 func (c *CompoundCondition) add(chainingOperator Operator, condition Condition) CompoundCondition {
+	if c.err != nil {
+		return *c
+	}
+	if condition == nil {
+		return CompoundConditionError(errors.New("a condition is required"))
+	}
+	if condition.GetError() != nil {
+		return CompoundConditionError(condition.GetError())
+	}
 	if c.GetExpressionType() == EMPTY_CONDITION_EXPRESSION {
 		newCompound := CompoundConditionCreate1(chainingOperator)
 		return newCompound.add(chainingOperator, condition)
diff --git a/condition_builder.go b/condition_builder.go
index 764c75d..3fbd18a 100644
--- a/condition_builder.go
+++ b/condition_builder.go
@@ -13,17 +13,37 @@ func (c *ConditionBuilder) Where(newCondition Condition) {
 }
 
 func (c *ConditionBuilder) And(additionalCondition Condition) {
-	c.condition = c.condition.And(additionalCondition).Get()
+	if c.canJoin(additionalCondition) {
+		c.condition = c.condition.And(additionalCondition).Get()
+	}
 }
 
 func (c *ConditionBuilder) Or(additionalCondition Condition) {
-	c.condition = c.condition.Or(additionalCondition).Get()
+	if c.canJoin(additionalCondition) {
+		c.condition = c.condition.Or(additionalCondition).Get()
+	}
+}
+
+// canJoin tells whether there are two valid conditions to join. If not, the condition is the only one of both there is,
+// or the first one that has an error.
+func (c *ConditionBuilder) canJoin(additionalCondition Condition) bool {
+	if additionalCondition == nil || (c.condition != nil && c.condition.GetError() != nil) {
+		return false
+	}
+	if c.condition == nil || additionalCondition.GetError() != nil {
+		c.condition = additionalCondition
+		return false
+	}
+	return true
 }
 
 func (c *ConditionBuilder) hasCondition() bool {
-	if c.condition == nil || !c.condition.isNotNil() {
+	if c.condition == nil {
 		return false
 	}
+	if c.condition.GetError() != nil {
+		return true
+	}
 	compound, isCompound := c.condition.(CompoundCondition)
 	return c.condition.isNotNil() && (!isCompound || compound.hasCondition())
 }
diff --git a/default_statement_builder.go b/default_statement_builder.go
index 83cb576..00ece08 100644
--- a/default_statement_builder.go
+++ b/default_statement_builder.go
@@ -42,8 +42,32 @@ func (d DefaultStatementBuilder) Where(condition Condition) OngoingReadingWithWh
 	if condition != nil && condition.GetError() != nil {
 		return DefaultStatementBuilderError(condition.GetError())
 	}
-	d.currentOngoingMatch.conditionBuilder.Where(condition)
-	return d
+	return d.changeCondition(func(builder *ConditionBuilder) {
+		builder.Where(condition)
+	})
+}
+
+// changeCondition changes the condition of the clause that is in progress.
+func (d DefaultStatementBuilder) changeCondition(change func(builder *ConditionBuilder)) DefaultStatementBuilder {
+	if d.currentOngoingMatch.notNil {
+		change(&d.currentOngoingMatch.conditionBuilder)
+		return d
+	}
+	switch call := d.currentOngoingCall.(type) {
+	case InQueryCallBuilder:
+		if call.notNil {
+			change(&call.conditionBuilder)
+			d.currentOngoingCall = call
+			return d
+		}
+	case StandaloneCallBuilder:
+		if call.notNil {
+			change(&call.conditionBuilder)
+			d.currentOngoingCall = call
+			return d
+		}
+	}
+	return DefaultStatementBuilderError(errors.New("a condition can only be added to a match or to a procedure call"))
 }
 
 func (d DefaultStatementBuilder) WhereConditionContainer(container ConditionContainer) OngoingReadingWithWhere {
@@ -397,8 +421,12 @@ func (d DefaultStatementBuilder) And(condition Condition) OngoingReadingWithWher
 	if d.err != nil {
 		return DefaultStatementBuilderError(d.err)
 	}
-	d.currentOngoingMatch.conditionBuilder.And(condition)
-	return d
+	if condition != nil && condition.GetError() != nil {
+		return DefaultStatementBuilderError(condition.GetError())
+	}
+	return d.changeCondition(func(builder *ConditionBuilder) {
+		builder.And(condition)
+	})
 }
 
 func (d DefaultStatementBuilder) AndPattern(pattern RelationshipPattern) OngoingReadingWithWhere {
@@ -418,8 +446,9 @@ func (d DefaultStatementBuilder) Or(condition Condition) OngoingReadingWithWhere
 	if condition != nil && condition.GetError() != nil {
 		return DefaultStatementBuilderError(condition.GetError())
 	}
-	d.currentOngoingMatch.conditionBuilder.Or(condition)
-	return d
+	return d.changeCondition(func(builder *ConditionBuilder) {
+		builder.Or(condition)
+	})
 }
 
 func (d DefaultStatementBuilder) OrPattern(pattern RelationshipPattern) OngoingReadingWithWhere {
diff --git a/default_statement_with_with_builder.go b/default_statement_with_with_builder.go
index a431193..6694d81 100644
--- a/default_statement_with_with_builder.go
+++ b/default_statement_with_with_builder.go
@@ -30,10 +30,7 @@ func (d *DefaultStatementWithWithBuilder) buildWith() with {
 	returnItems := ExpressionListCreate(d.returnList)
 	condition := d.conditionBuilder.buildCondition()
 	var where Where
-	if condition == nil || !condition.isNotNil() {
-		where = Where{}
-
-	} else {
+	if condition != nil {
 		where = WhereCreate(condition)
 	}
 	returnedWith := withCreate(d.distinct, returnItems, d.orderBuilder.BuildOrder(), d.orderBuilder.skip,
diff --git a/in_query_call_builder.go b/in_query_call_builder.go
index 0f0b5d7..bc8ea3d 100644
--- a/in_query_call_builder.go
+++ b/in_query_call_builder.go
@@ -72,7 +72,7 @@ func (i InQueryCallBuilder) Build() (Statement, error) {
 		argumentsList = ArgumentsCreate(i.arguments)
 	}
 	condition := i.conditionBuilder.buildCondition()
-	if condition != nil && condition.isNotNil() {
+	if condition != nil {
 		return ProcedureCallCreate(i.procedureName, argumentsList, i.yieldItems,
 			WhereCreate(condition)), nil
 	}
diff --git a/match_builder.go b/match_builder.go
index 889d50e..cde488b 100644
--- a/match_builder.go
+++ b/match_builder.go
@@ -16,10 +16,10 @@ func MatchBuilderCreate(optional bool) MatchBuilder {
 }
 
 func (builder MatchBuilder) buildMatch() MatchPhrase {
-	pattern := Pattern{patternElements: builder.patternList}
+	pattern := PatternCreate(builder.patternList)
 	conditionBuilder := builder.conditionBuilder
 	builtCondition := conditionBuilder.buildCondition()
-	if builtCondition == nil || !builtCondition.isNotNil() {
+	if builtCondition == nil {
 		return MatchPhraseCreate(builder.optional, pattern, Where{})
 	}
 	return MatchPhraseCreate(builder.optional, pattern, WhereCreate(builtCondition))
diff --git a/procedure_call.go b/procedure_call.go
index fe8fa7e..2cefb1b 100644
--- a/procedure_call.go
+++ b/procedure_call.go
@@ -207,7 +207,7 @@ func (s StandaloneCallBuilder) Build() (Statement, error) {
 		return nil, argumentsList.GetError()
 	}
 	condition := s.conditionBuilder.buildCondition()
-	if condition != nil && condition.isNotNil() {
+	if condition != nil {
 		if condition.GetError() != nil {
 			return nil, condition.GetError()
 		}
-- 
2.43.0


From d2dbc99502a9cef0ac46ef3ff68f64d0592f330f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:20 +0000
Subject: [PATCH 08/48] fix: group conditions that are joined by operators of
 different precedence

(a OR b).And(c AND d) rendered as (a OR b AND (c AND d)). Deriving two conditions from one
compound condition also mixed their parts.
---
 compound_condition.go | 60 ++++++++++++++++++++++++++++++++++++-------
 1 file changed, 51 insertions(+), 9 deletions(-)

diff --git a/compound_condition.go b/compound_condition.go
index b73a2f9..8ee3698 100644
--- a/compound_condition.go
+++ b/compound_condition.go
@@ -159,31 +159,73 @@ func (c *CompoundCondition) add(chainingOperator Operator, condition Condition)
 		newCompound := CompoundConditionCreate1(chainingOperator)
 		return newCompound.add(chainingOperator, condition)
 	}
-	if compoundCondition, isCompound := condition.(CompoundCondition); isCompound {
-		if !compoundCondition.hasCondition() {
-			return *c
-		}
+	compoundCondition, isCompound := condition.(CompoundCondition)
+	if isCompound && !compoundCondition.hasCondition() {
+		return *c
+	}
+	if len(c.conditions) == 1 {
+		c.operator = chainingOperator
+	}
+	if c.isLooserThan(chainingOperator) && (isCompound || c.operator != chainingOperator) {
+		return CompoundConditionCreate(*c, chainingOperator, condition)
+	}
+	if isCompound {
 		if c.operator == chainingOperator && chainingOperator == compoundCondition.operator {
 			if compoundCondition.canBeFlattenedWith(chainingOperator) {
-				c.conditions = append(c.conditions, compoundCondition.conditions...)
+				c.append(compoundCondition.conditions...)
 			} else {
-				c.conditions = append(c.conditions, compoundCondition)
+				c.append(compoundCondition)
 			}
 		} else {
 			inner := CompoundConditionCreate1(chainingOperator)
-			inner.conditions = append(inner.conditions, compoundCondition)
-			c.conditions = append(c.conditions, inner)
+			inner.append(compoundCondition)
+			c.append(inner)
 		}
 		return *c
 	}
 
 	if c.operator == chainingOperator {
-		c.conditions = append(c.conditions, condition)
+		c.append(condition)
 		return *c
 	}
 	return CompoundConditionCreate(*c, chainingOperator, condition)
 }
 
+// append adds conditions at the end. The conditions may be shared with other compounds, so they are copied.
+func (c *CompoundCondition) append(conditions ...Condition) {
+	c.conditions = append(c.conditions[:len(c.conditions):len(c.conditions)], conditions...)
+	c.injectKey()
+	c.ConditionContainer = ConditionWrap(*c)
+}
+
+// isLooserThan tells whether the conditions are joined by an operator that binds looser than the given one, so that
+// they have to be nested before they can be joined with it.
+func (c CompoundCondition) isLooserThan(operator Operator) bool {
+	for i, condition := range c.conditions {
+		if i == 0 {
+			continue
+		}
+		joinedBy := c.operator
+		if compound, isCompound := condition.(CompoundCondition); isCompound {
+			joinedBy = compound.operator
+		}
+		if precedenceOf(joinedBy) < precedenceOf(operator) {
+			return true
+		}
+	}
+	return false
+}
+
+func precedenceOf(operator Operator) int {
+	switch operator {
+	case AND:
+		return 3
+	case XOR:
+		return 2
+	}
+	return 1
+}
+
 func (c CompoundCondition) hasCondition() bool {
 	return !(c.GetExpressionType() == EMPTY_CONDITION_EXPRESSION ||
 		len(c.conditions) == 0)
-- 
2.43.0


From 57c123ff1110e8a970d7e2ec7df3ce3fbd9df885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:24 +0000
Subject: [PATCH 09/48] fix: CREATE and MERGE keep all of their patterns

Only the first pattern was kept.
---
 default_statement_builder.go | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/default_statement_builder.go b/default_statement_builder.go
index 00ece08..9b24eea 100644
--- a/default_statement_builder.go
+++ b/default_statement_builder.go
@@ -660,16 +660,24 @@ func getUpdatingClauseBuilder(updateType UpdateType, patternOrExpression ...Visi
 	if mergeOrCreate {
 		patternElements := make([]PatternElement, 0)
 		for _, visitable := range patternOrExpression {
-			patternElements := append(patternElements, visitable.(PatternElement))
-			if updateType == UPDATE_TYPE_CREATE {
-				return CreateBuilderCreate(patternElements), nil
-			} else {
-				return MergeBuilderCreate(patternElements), nil
+			if visitable == nil {
+				return RemoveBuilder{}, xerrors.New("a pattern element is required")
 			}
+			patternElements = append(patternElements, visitable.(PatternElement))
 		}
+		if len(patternElements) == 0 {
+			return RemoveBuilder{}, xerrors.New("at least one pattern element is required")
+		}
+		if updateType == UPDATE_TYPE_CREATE {
+			return CreateBuilderCreate(patternElements), nil
+		}
+		return MergeBuilderCreate(patternElements), nil
 	} else {
 		expressions := make([]Expression, 0)
 		for _, visitable := range patternOrExpression {
+			if visitable == nil {
+				return RemoveBuilder{}, xerrors.New("an expression is required")
+			}
 			expressions = append(expressions, visitable.(Expression))
 		}
 		var expressionList ExpressionList
@@ -695,8 +703,6 @@ func getUpdatingClauseBuilder(updateType UpdateType, patternOrExpression ...Visi
 			return RemoveBuilder{}, xerrors.Errorf("unsupported update type %s", updateType)
 		}
 	}
-	//Just return to make compiler happy
-	return RemoveBuilder{}, xerrors.Errorf("unexpected behavior")
 }
 
 func prepareSetExpression(possibleSetOperations []Expression) ([]Expression, error) {
-- 
2.43.0


From 70b58f32a81325e7374941ee1b6da3301a6d31b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:21 +0000
Subject: [PATCH 10/48] fix: report the errors of clauses instead of dropping
 them

Errors in skip, limit, order, yield, with, merge actions, unnamed elements and calls were lost
or ended in a nil dereference or an endless recursion.
---
 default_statement_builder.go             | 20 ++++++++---
 default_statement_with_return_builder.go |  4 +--
 default_statement_with_update.go         | 12 +++----
 default_statement_with_with_builder.go   | 42 ++++++++++++++----------
 expression_list.go                       |  5 +++
 expressions.go                           | 17 ++++++++--
 in_query_call_builder.go                 |  9 +++--
 merge_action.go                          |  3 ++
 multi_part_query.go                      |  3 +-
 procedure_call.go                        | 12 ++++---
 raw_string_literal.go                    |  4 ++-
 return_body.go                           |  8 ++---
 string_literal.go                        |  4 ++-
 with.go                                  | 16 +++++----
 yield_items.go                           |  2 +-
 15 files changed, 106 insertions(+), 55 deletions(-)

diff --git a/default_statement_builder.go b/default_statement_builder.go
index 9b24eea..9fede4f 100644
--- a/default_statement_builder.go
+++ b/default_statement_builder.go
@@ -305,7 +305,7 @@ func (d DefaultStatementBuilder) SetWithNamed(variable Named, expression Express
 	if expression != nil && expression.GetError() != nil {
 		return DefaultStatementBuilderError(expression.GetError())
 	}
-	return d.Set(variable.GetSymbolicName(), expression)
+	return d.Set(requiredSymbolicName(variable), expression)
 }
 
 func (d DefaultStatementBuilder) SetByNode(node Node, labels ...string) BuildableStatementAndOngoingMatchAndUpdate {
@@ -596,11 +596,23 @@ func (d DefaultStatementBuilder) Build() (Statement, error) {
 	if d.err != nil {
 		return nil, d.err
 	}
-	return d.BuildImpl(false, Return{}), nil
+	return buildResult(d.BuildImpl(false, Return{}))
+}
+
+// buildResult returns the error of a statement that could not be built.
+func buildResult(statement Statement) (Statement, error) {
+	if statement.GetError() != nil {
+		return nil, statement.GetError()
+	}
+	return statement, nil
 }
 
 func (d DefaultStatementBuilder) BuildImpl(clearCurrentBuildSteps bool, returning Return) Statement {
-	singlePartQuery := SinglePartQueryCreate(d.BuildListOfVisitable(clearCurrentBuildSteps), returning)
+	clauses := d.BuildListOfVisitable(clearCurrentBuildSteps)
+	if d.err != nil {
+		return SinglePartQueryError(d.err)
+	}
+	singlePartQuery := SinglePartQueryCreate(clauses, returning)
 	if len(d.multipartElements) == 0 {
 		return singlePartQuery
 	}
@@ -781,5 +793,5 @@ func (o OngoingMergeActionInBuilder) SetWithNamed(variable Named, expression Exp
 	if expression != nil && expression.GetError() != nil {
 		return DefaultStatementBuilderError(expression.GetError())
 	}
-	return o.Set(variable.GetSymbolicName(), expression)
+	return o.Set(requiredSymbolicName(variable), expression)
 }
diff --git a/default_statement_with_return_builder.go b/default_statement_with_return_builder.go
index e8b750c..4638ba5 100644
--- a/default_statement_with_return_builder.go
+++ b/default_statement_with_return_builder.go
@@ -22,11 +22,11 @@ func (d DefaultStatementWithReturnBuilder) Build() (Statement, error) {
 	}
 	var returning Return
 	if len(d.returnList) > 0 {
-		returnItems := ExpressionList{expressions: d.returnList}
+		returnItems := ExpressionListCreate(d.returnList)
 		returning = ReturnCreate1(d.distinct, returnItems, d.orderBuilder.BuildOrder(), d.orderBuilder.skip,
 			d.orderBuilder.limit)
 	}
-	return d.defaultBuilder.BuildImpl(false, returning), nil
+	return buildResult(d.defaultBuilder.BuildImpl(false, returning))
 }
 
 func (d DefaultStatementWithReturnBuilder) And(expression Expression) TerminalOngoingOrderDefinition {
diff --git a/default_statement_with_update.go b/default_statement_with_update.go
index eaf03b5..d209c04 100644
--- a/default_statement_with_update.go
+++ b/default_statement_with_update.go
@@ -110,11 +110,11 @@ func (d DefaultStatementWithUpdateBuilder) Build() (Statement, error) {
 	}
 	var returning Return
 	if len(d.returnList) > 0 {
-		returnItems := ExpressionList{expressions: d.returnList}
+		returnItems := ExpressionListCreate(d.returnList)
 		returning = ReturnCreate1(d.distinct, returnItems, d.orderBuilder.BuildOrder(), d.orderBuilder.skip,
 			d.orderBuilder.limit)
 	}
-	return d.close().BuildImpl(false, returning), nil
+	return buildResult(d.close().BuildImpl(false, returning))
 }
 
 // close returns the builder of the statement up to and including the clause of this builder, which itself is not changed.
@@ -199,11 +199,7 @@ func (d DefaultStatementWithUpdateBuilder) DeleteDefault(nextDetach bool, delete
 	} else {
 		deleteType = UPDATE_TYPE_DELETE
 	}
-	visitables := make([]Visitable, len(deletedExpressions))
-	for i := range deletedExpressions {
-		visitables[i] = deletedExpressions[i]
-	}
-	return d.close().Update(deleteType, visitables)
+	return d.close().Update(deleteType, ExpressionsToVisitables(deletedExpressions))
 }
 
 func (d DefaultStatementWithUpdateBuilder) DetachDeleteByString(variables ...string) OngoingUpdate {
@@ -228,7 +224,7 @@ func (d DefaultStatementWithUpdateBuilder) Set(expressions ...Expression) Builda
 }
 
 func (d DefaultStatementWithUpdateBuilder) SetWithNamed(variable Named, expression Expression) BuildableStatementAndOngoingMatchAndUpdate {
-	return d.Set(variable.GetSymbolicName(), expression)
+	return d.Set(requiredSymbolicName(variable), expression)
 }
 
 func (d DefaultStatementWithUpdateBuilder) SetByNode(node Node, labels ...string) BuildableStatementAndOngoingMatchAndUpdate {
diff --git a/default_statement_with_with_builder.go b/default_statement_with_with_builder.go
index 6694d81..6a6b565 100644
--- a/default_statement_with_with_builder.go
+++ b/default_statement_with_with_builder.go
@@ -40,6 +40,14 @@ func (d *DefaultStatementWithWithBuilder) buildWith() with {
 	return returnedWith
 }
 
+// close returns the builder of the statement up to and including this WITH.
+func (d DefaultStatementWithWithBuilder) close() DefaultStatementBuilder {
+	if d.err != nil {
+		return DefaultStatementBuilderError(d.err)
+	}
+	return d.defaultBuilder.AddWith(d.buildWith())
+}
+
 func (d *DefaultStatementWithWithBuilder) addExpression(expressions ...Expression) {
 	d.returnList = append(d.returnList[:len(d.returnList):len(d.returnList)], expressions...)
 }
@@ -83,7 +91,7 @@ func (d DefaultStatementWithWithBuilder) ReturningByNamed(variables ...Named) On
 }
 
 func (d DefaultStatementWithWithBuilder) Returning(expression ...Expression) OngoingReadingAndReturn {
-	return d.defaultBuilder.AddWith(d.buildWith()).
+	return d.close().
 		Returning(expression...)
 }
 
@@ -96,7 +104,7 @@ func (d DefaultStatementWithWithBuilder) ReturningDistinctByNamed(variables ...N
 }
 
 func (d DefaultStatementWithWithBuilder) ReturningDistinct(expression ...Expression) OngoingReadingAndReturn {
-	return d.defaultBuilder.AddWith(d.buildWith()).
+	return d.close().
 		ReturningDistinct(expression...)
 }
 
@@ -109,7 +117,7 @@ func (d DefaultStatementWithWithBuilder) WithByNamed(variables ...Named) Orderab
 }
 
 func (d DefaultStatementWithWithBuilder) With(expressions ...Expression) OrderableOngoingReadingAndWithWithoutWhere {
-	return d.defaultBuilder.AddWith(d.buildWith()).
+	return d.close().
 		With(expressions...)
 }
 
@@ -122,7 +130,7 @@ func (d DefaultStatementWithWithBuilder) WithDistinctByNamed(variables ...Named)
 }
 
 func (d DefaultStatementWithWithBuilder) WithDistinct(expressions ...Expression) OrderableOngoingReadingAndWithWithoutWhere {
-	return d.defaultBuilder.AddWith(d.buildWith()).
+	return d.close().
 		WithDistinct(expressions...)
 }
 
@@ -135,7 +143,7 @@ func (d DefaultStatementWithWithBuilder) DeleteByNamed(variables ...Named) Ongoi
 }
 
 func (d DefaultStatementWithWithBuilder) Delete(expressions ...Expression) OngoingUpdate {
-	return d.defaultBuilder.AddWith(d.buildWith()).
+	return d.close().
 		Delete(expressions...)
 }
 
@@ -148,36 +156,36 @@ func (d DefaultStatementWithWithBuilder) DetachDeleteByNamed(variables ...Named)
 }
 
 func (d DefaultStatementWithWithBuilder) DetachDelete(expressions ...Expression) OngoingUpdate {
-	return d.defaultBuilder.AddWith(d.buildWith()).
+	return d.close().
 		DetachDelete(expressions...)
 }
 
 func (d DefaultStatementWithWithBuilder) Merge(pattern ...PatternElement) OngoingUpdateAndExposesSet {
-	return d.defaultBuilder.AddWith(d.buildWith()).
+	return d.close().
 		Merge(pattern...)
 }
 
 func (d DefaultStatementWithWithBuilder) Set(expressions ...Expression) BuildableStatementAndOngoingMatchAndUpdate {
-	return d.defaultBuilder.AddWith(d.buildWith()).
+	return d.close().
 		Set(expressions...)
 }
 
 func (d DefaultStatementWithWithBuilder) SetWithNamed(variable Named, expression Expression) BuildableStatementAndOngoingMatchAndUpdate {
-	return d.Set(variable.GetRequiredSymbolicName(), expression)
+	return d.Set(requiredSymbolicName(variable), expression)
 }
 
 func (d DefaultStatementWithWithBuilder) SetByNode(node Node, labels ...string) BuildableStatementAndOngoingMatchAndUpdate {
-	return d.defaultBuilder.AddWith(d.buildWith()).
+	return d.close().
 		SetByNode(node, labels...)
 }
 
 func (d DefaultStatementWithWithBuilder) RemoveByNode(node Node, labels ...string) BuildableStatementAndOngoingMatchAndUpdate {
-	return d.defaultBuilder.AddWith(d.buildWith()).
+	return d.close().
 		RemoveByNode(node, labels...)
 }
 
 func (d DefaultStatementWithWithBuilder) Remove(properties ...Property) BuildableStatementAndOngoingMatchAndUpdate {
-	return d.defaultBuilder.AddWith(d.buildWith()).
+	return d.close().
 		Remove(properties...)
 }
 
@@ -190,22 +198,22 @@ func (d DefaultStatementWithWithBuilder) UnwindByString(variable string) Ongoing
 }
 
 func (d DefaultStatementWithWithBuilder) Unwind(expression Expression) OngoingUnwind {
-	return d.defaultBuilder.AddWith(d.buildWith()).
+	return d.close().
 		Unwind(expression)
 }
 
 func (d DefaultStatementWithWithBuilder) Create(element ...PatternElement) OngoingUpdateAndExposesSet {
-	return d.defaultBuilder.AddWith(d.buildWith()).
+	return d.close().
 		Create(element...)
 }
 
 func (d DefaultStatementWithWithBuilder) Call(statement Statement) OngoingReadingWithoutWhere {
-	return d.defaultBuilder.AddWith(d.buildWith()).
+	return d.close().
 		Call(statement)
 }
 
 func (d DefaultStatementWithWithBuilder) Call1(namespaceAndProcedure ...string) OngoingInQueryCallWithoutArguments {
-	return d.defaultBuilder.AddWith(d.buildWith()).
+	return d.close().
 		Call1(namespaceAndProcedure...)
 }
 
@@ -218,7 +226,7 @@ func (d DefaultStatementWithWithBuilder) OptionalMatch(pattern ...PatternElement
 }
 
 func (d DefaultStatementWithWithBuilder) MatchDefault(optional bool, pattern ...PatternElement) OngoingReadingWithoutWhere {
-	return d.defaultBuilder.AddWith(d.buildWith()).
+	return d.close().
 		MatchDefault(optional, pattern...)
 }
 
diff --git a/expression_list.go b/expression_list.go
index c9a7596..0d142fe 100644
--- a/expression_list.go
+++ b/expression_list.go
@@ -1,5 +1,7 @@
 package cypher
 
+import "errors"
+
 type ExpressionList struct {
 	ExpressionContainer
 	expressions []Expression
@@ -10,6 +12,9 @@ type ExpressionList struct {
 
 func ExpressionListCreate(expressions []Expression) ExpressionList {
 	for _, expression := range expressions {
+		if expression == nil {
+			return ExpressionListError(errors.New("an expression is required"))
+		}
 		if expression.GetError() != nil {
 			return ExpressionListError(expression.GetError())
 		}
diff --git a/expressions.go b/expressions.go
index d5fd352..f3f232d 100644
--- a/expressions.go
+++ b/expressions.go
@@ -1,5 +1,7 @@
 package cypher
 
+import "errors"
+
 func NameOrExpression(expression Expression) Expression {
 	named, isNamed := (expression).(Named)
 	if isNamed && named.GetSymbolicName().isNotNil() {
@@ -8,12 +10,21 @@ func NameOrExpression(expression Expression) Expression {
 	return expression
 }
 
+// requiredSymbolicName returns the name of something that has to have one.
+func requiredSymbolicName(named Named) SymbolicName {
+	if named == nil {
+		return SymbolicNameError(errors.New("a named element is required"))
+	}
+	if named.GetError() != nil {
+		return SymbolicNameError(named.GetError())
+	}
+	return named.GetRequiredSymbolicName()
+}
+
 func CreateSymbolicNameByNamed(nameds ...Named) []Expression {
 	expressions := make([]Expression, 0)
 	for _, named := range nameds {
-		if named != nil {
-			expressions = append(expressions, named.GetSymbolicName())
-		}
+		expressions = append(expressions, requiredSymbolicName(named))
 	}
 	return expressions
 }
diff --git a/in_query_call_builder.go b/in_query_call_builder.go
index bc8ea3d..63a0016 100644
--- a/in_query_call_builder.go
+++ b/in_query_call_builder.go
@@ -67,16 +67,19 @@ func (i InQueryCallBuilder) ReturningDistinct(expression ...Expression) OngoingR
 }
 
 func (i InQueryCallBuilder) Build() (Statement, error) {
+	if i.err != nil {
+		return nil, i.err
+	}
 	argumentsList := Arguments{}
 	if i.arguments == nil || len(i.arguments) > 0 {
 		argumentsList = ArgumentsCreate(i.arguments)
 	}
 	condition := i.conditionBuilder.buildCondition()
 	if condition != nil {
-		return ProcedureCallCreate(i.procedureName, argumentsList, i.yieldItems,
-			WhereCreate(condition)), nil
+		return buildResult(ProcedureCallCreate(i.procedureName, argumentsList, i.yieldItems,
+			WhereCreate(condition)))
 	}
-	return ProcedureCallCreate(i.procedureName, argumentsList, i.yieldItems, Where{}), nil
+	return buildResult(ProcedureCallCreate(i.procedureName, argumentsList, i.yieldItems, Where{}))
 }
 
 func (i InQueryCallBuilder) WithArgs(arguments ...Expression) OngoingInQueryCallWithArguments {
diff --git a/merge_action.go b/merge_action.go
index 0ad34d9..a24a0ab 100644
--- a/merge_action.go
+++ b/merge_action.go
@@ -9,6 +9,9 @@ type MergeAction struct {
 }
 
 func MergeActionCreate(mergeType MERGE_TYPE, set Set) MergeAction {
+	if set.GetError() != nil {
+		return MergeAction{err: set.GetError()}
+	}
 	m := MergeAction{
 		mergeType: mergeType,
 		set:       set,
diff --git a/multi_part_query.go b/multi_part_query.go
index c04645d..532fa22 100644
--- a/multi_part_query.go
+++ b/multi_part_query.go
@@ -20,13 +20,14 @@ func MultiPartQueryCreate(parts []MultiPartElement, remainder SinglePartQuery) M
 	m := MultiPartQuery{
 		parts:     parts,
 		remainder: remainder,
+		notNil:    true,
 	}
 	m.key = getAddress(&m)
 	return m
 }
 
 func MultiPartQueryError(err error) MultiPartQuery {
-	return MultiPartQueryError(err)
+	return MultiPartQuery{err: err}
 }
 
 func (m MultiPartQuery) GetError() error {
diff --git a/procedure_call.go b/procedure_call.go
index 2cefb1b..6095eda 100644
--- a/procedure_call.go
+++ b/procedure_call.go
@@ -151,7 +151,8 @@ func StandaloneCallBuilderCreate(procedureName ProcedureName) StandaloneCallBuil
 
 func StandaloneCallBuilderError(err error) StandaloneCallBuilder {
 	return StandaloneCallBuilder{
-		err: err,
+		notNil: true,
+		err:    err,
 	}
 }
 
@@ -193,6 +194,9 @@ func (s StandaloneCallBuilder) ReturningDistinct(expression ...Expression) Ongoi
 }
 
 func (s StandaloneCallBuilder) Build() (Statement, error) {
+	if s.err != nil {
+		return nil, s.err
+	}
 	if s.procedureName.GetError() != nil {
 		return nil, s.procedureName.GetError()
 	}
@@ -211,10 +215,10 @@ func (s StandaloneCallBuilder) Build() (Statement, error) {
 		if condition.GetError() != nil {
 			return nil, condition.GetError()
 		}
-		return ProcedureCallCreate(s.procedureName, argumentsList, s.yieldItems,
-			WhereCreate(condition)), nil
+		return buildResult(ProcedureCallCreate(s.procedureName, argumentsList, s.yieldItems,
+			WhereCreate(condition)))
 	}
-	return ProcedureCallCreate(s.procedureName, argumentsList, s.yieldItems, Where{}), nil
+	return buildResult(ProcedureCallCreate(s.procedureName, argumentsList, s.yieldItems, Where{}))
 }
 
 func (s StandaloneCallBuilder) isNotNil() bool {
diff --git a/raw_string_literal.go b/raw_string_literal.go
index 682fad6..90f43c0 100644
--- a/raw_string_literal.go
+++ b/raw_string_literal.go
@@ -19,7 +19,9 @@ func RawStringLiteralCreate(content string) RawStringLiteral {
 }
 
 func RawStringLiteralError(err error) RawStringLiteral {
-	return RawStringLiteralError(err)
+	literal := RawStringLiteral{err: err}
+	literal.ExpressionContainer = ExpressionWrap(literal)
+	return literal
 }
 
 func (s RawStringLiteral) GetError() error {
diff --git a/return_body.go b/return_body.go
index 0cd30ff..e8d89fa 100644
--- a/return_body.go
+++ b/return_body.go
@@ -12,16 +12,16 @@ type ReturnBody struct {
 
 func ReturnBodyCreate(returnItems ExpressionList, order Order, skip Skip, limit Limit) ReturnBody {
 	if returnItems.GetError() != nil {
-		ReturnBodyError(returnItems.GetError())
+		return ReturnBodyError(returnItems.GetError())
 	}
 	if order.GetError() != nil {
-		ReturnBodyError(order.GetError())
+		return ReturnBodyError(order.GetError())
 	}
 	if skip.GetError() != nil {
-		ReturnBodyError(skip.GetError())
+		return ReturnBodyError(skip.GetError())
 	}
 	if limit.GetError() != nil {
-		ReturnBodyError(limit.GetError())
+		return ReturnBodyError(limit.GetError())
 	}
 	r := ReturnBody{
 		returnItems: returnItems,
diff --git a/string_literal.go b/string_literal.go
index 1322ef6..32fc6c3 100644
--- a/string_literal.go
+++ b/string_literal.go
@@ -32,7 +32,9 @@ func StringLiteralCreate(content string) StringLiteral {
 }
 
 func StringLiteralError(err error) StringLiteral {
-	return StringLiteralError(err)
+	literal := StringLiteral{err: err}
+	literal.ExpressionContainer = ExpressionWrap(literal)
+	return literal
 }
 
 func (s StringLiteral) GetError() error {
diff --git a/with.go b/with.go
index e321cf8..5fcc5db 100644
--- a/with.go
+++ b/with.go
@@ -11,27 +11,31 @@ type with struct {
 
 func withCreate(distinct bool, returnItems ExpressionList, order Order, skip Skip, limit Limit, where Where) with {
 	if returnItems.GetError() != nil {
-		withError(returnItems.GetError())
+		return withError(returnItems.GetError())
 	}
 	if order.GetError() != nil {
-		withError(order.GetError())
+		return withError(order.GetError())
 	}
 	if skip.GetError() != nil {
-		withError(skip.GetError())
+		return withError(skip.GetError())
 	}
 	if limit.GetError() != nil {
-		withError(limit.GetError())
+		return withError(limit.GetError())
 	}
 	if where.GetError() != nil {
-		withError(where.GetError())
+		return withError(where.GetError())
 	}
 	distinctInstance := Distinct{}
 	if distinct {
 		distinctInstance = DISTINCT_INSTANCE
 	}
+	body := ReturnBodyCreate(returnItems, order, skip, limit)
+	if body.GetError() != nil {
+		return withError(body.GetError())
+	}
 	with := with{
 		distinct: distinctInstance,
-		body:     ReturnBodyCreate(returnItems, order, skip, limit),
+		body:     body,
 		where:    where,
 		notNil:   true,
 	}
diff --git a/yield_items.go b/yield_items.go
index 026a586..7164ae7 100644
--- a/yield_items.go
+++ b/yield_items.go
@@ -28,7 +28,7 @@ func YieldItemsCreate(expressions []Expression) YieldItems {
 
 func YieldItemsError(err error) YieldItems {
 	return YieldItems{
-		err: nil,
+		err: err,
 	}
 }
 
-- 
2.43.0


From 7f017c4c29e8d7d104a75659903b6eafb84100a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:27 +0000
Subject: [PATCH 11/48] fix: elements with an error keep it, whatever they are
 used for

Calling And, Or, Get ... on a condition with an error panicked, and a CASE dropped
errors, nil expressions and the default of a CASE it continued.
---
 alias_expression.go               |  6 +--
 boolean_function_condition.go     | 10 +++--
 case.go                           | 75 ++++++++++++++++++++++++++-----
 comparison.go                     |  6 +--
 compound_condition.go             |  6 +--
 condition_container.go            | 27 ++++++-----
 constant_condition.go             |  4 +-
 default_statement_builder.go      |  5 ++-
 distinct_expression.go            |  4 +-
 excluded_pattern.go               | 15 ++++---
 existential_subquery.go           |  8 ++--
 expression_list.go                |  6 +--
 function_invocation.go            |  6 +--
 has_label_condition.go            |  6 +--
 key_value_map_entry.go            |  6 +--
 list_comprehension.go             |  6 +--
 list_expression.go                |  6 +--
 list_literal.go                   |  6 +--
 list_operator.go                  |  4 +-
 list_predicate.go                 |  4 +-
 map_expression.go                 |  6 +--
 map_projection.go                 |  4 +-
 merge.go                          |  2 +-
 nested_expression.go              |  6 +--
 operation.go                      |  4 +-
 parameter.go                      |  6 +--
 pattern_comprehension.go          |  4 +-
 relationship_pattern_condition.go | 11 +++--
 remove.go                         |  2 +-
 symbolic_name.go                  |  6 +--
 30 files changed, 177 insertions(+), 90 deletions(-)

diff --git a/alias_expression.go b/alias_expression.go
index 3030c05..d45f4e4 100644
--- a/alias_expression.go
+++ b/alias_expression.go
@@ -34,9 +34,9 @@ func AliasedExpressionCreate(delegate Expression, alias string) AliasedExpressio
 }
 
 func AliasedExpressionError(err error) AliasedExpression {
-	return AliasedExpression{
-		err: err,
-	}
+	aliasedExpression := AliasedExpression{err: err}
+	aliasedExpression.ExpressionContainer = ExpressionWrap(aliasedExpression)
+	return aliasedExpression
 }
 
 func (aliased AliasedExpression) GetError() error {
diff --git a/boolean_function_condition.go b/boolean_function_condition.go
index c6fe40f..bf9b4eb 100644
--- a/boolean_function_condition.go
+++ b/boolean_function_condition.go
@@ -9,6 +9,9 @@ type BooleanFunctionCondition struct {
 }
 
 func BooleanFunctionConditionCreate(delegate FunctionInvocation) BooleanFunctionCondition {
+	if delegate.GetError() != nil {
+		return BooleanFunctionConditionError(delegate.GetError())
+	}
 	function := BooleanFunctionCondition{
 		delegate: delegate,
 		notNil:   true,
@@ -19,10 +22,9 @@ func BooleanFunctionConditionCreate(delegate FunctionInvocation) BooleanFunction
 }
 
 func BooleanFunctionConditionError(err error) BooleanFunctionCondition {
-	function := BooleanFunctionCondition{
-		err: err,
-	}
-	return function
+	booleanFunctionCondition := BooleanFunctionCondition{err: err}
+	booleanFunctionCondition.ConditionContainer = ConditionWrap(booleanFunctionCondition)
+	return booleanFunctionCondition
 }
 
 func (b BooleanFunctionCondition) GetError() error {
diff --git a/case.go b/case.go
index 0d82f1a..53c38b1 100644
--- a/case.go
+++ b/case.go
@@ -1,5 +1,7 @@
 package cypher
 
+import "errors"
+
 type Case struct {
 	ConditionContainer
 	caseElse       CaseElse
@@ -18,11 +20,14 @@ var ENDING_GENERIC_CASE = "EndingGenericCase"
 
 func SimpleCaseCreate(caseExpression Expression, caseWhenThens []CaseWhenThen) Case {
 	if caseExpression != nil && caseExpression.GetError() != nil {
-		return Case{err: caseExpression.GetError()}
+		return CaseError(caseExpression.GetError())
+	}
+	if caseExpression == nil {
+		return CaseError(errors.New("case: an expression is required"))
 	}
 	for _, caseWhenThen := range caseWhenThens {
 		if caseWhenThen.GetError() != nil {
-			return Case{err: caseWhenThen.GetError()}
+			return CaseError(caseWhenThen.GetError())
 		}
 	}
 	simpleCase := Case{
@@ -38,7 +43,10 @@ func SimpleCaseCreate(caseExpression Expression, caseWhenThens []CaseWhenThen) C
 
 func SimpleCaseCreate1(caseExpression Expression) Case {
 	if caseExpression != nil && caseExpression.GetError() != nil {
-		return Case{err: caseExpression.GetError()}
+		return CaseError(caseExpression.GetError())
+	}
+	if caseExpression == nil {
+		return CaseError(errors.New("case: an expression is required"))
 	}
 	simpleCase := Case{
 		caseExpression: caseExpression,
@@ -53,11 +61,14 @@ func SimpleCaseCreate1(caseExpression Expression) Case {
 
 func EndingSimpleCaseCreate(caseExpression Expression, caseWhenThens []CaseWhenThen) Case {
 	if caseExpression != nil && caseExpression.GetError() != nil {
-		return Case{err: caseExpression.GetError()}
+		return CaseError(caseExpression.GetError())
+	}
+	if caseExpression == nil {
+		return CaseError(errors.New("case: an expression is required"))
 	}
 	for _, caseWhenThen := range caseWhenThens {
 		if caseWhenThen.GetError() != nil {
-			return Case{err: caseWhenThen.GetError()}
+			return CaseError(caseWhenThen.GetError())
 		}
 	}
 	simpleCase := Case{
@@ -85,7 +96,7 @@ func GenericCaseCreate1() Case {
 func GenericCaseCreate(caseWhenThens []CaseWhenThen) Case {
 	for _, caseWhenThen := range caseWhenThens {
 		if caseWhenThen.GetError() != nil {
-			return Case{err: caseWhenThen.GetError()}
+			return CaseError(caseWhenThen.GetError())
 		}
 	}
 	genericCase := Case{
@@ -101,7 +112,7 @@ func GenericCaseCreate(caseWhenThens []CaseWhenThen) Case {
 func EndingGenericCaseCreate(caseWhenThens []CaseWhenThen) Case {
 	for _, caseWhenThen := range caseWhenThens {
 		if caseWhenThen.GetError() != nil {
-			return Case{err: caseWhenThen.GetError()}
+			return CaseError(caseWhenThen.GetError())
 		}
 	}
 	genericCase := Case{
@@ -114,7 +125,16 @@ func EndingGenericCaseCreate(caseWhenThens []CaseWhenThen) Case {
 	return genericCase
 }
 
+func CaseError(err error) Case {
+	errored := Case{err: err}
+	errored.ConditionContainer = ConditionWrap(errored)
+	return errored
+}
+
 func (c Case) When(nextExpression Expression) OngoingWhenThen {
+	if c.err != nil {
+		return OngoingWhenThen{err: c.err}
+	}
 	return OngoingWhenThenCreate(&c, nextExpression)
 }
 
@@ -165,12 +185,21 @@ func (c Case) getConditionType() string {
 }
 
 func (c Case) ElseDefault(defaultExpression Expression) CaseEnding {
+	if c.err != nil {
+		return c
+	}
 	caseElse := CaseElseCreate(defaultExpression)
 	if caseElse.GetError() != nil {
-		return Case{err: caseElse.GetError()}
+		return CaseError(caseElse.GetError())
 	}
 	c.caseElse = caseElse
-	c.ExpressionContainer = ExpressionWrap(c)
+	return c.withOwnKey()
+}
+
+// withOwnKey makes the case an element of its own, different from the one it has been derived from.
+func (c Case) withOwnKey() Case {
+	c.key = getAddress(&c)
+	c.ConditionContainer = ConditionWrap(c)
 	return c
 }
 
@@ -200,6 +229,12 @@ type OngoingWhenThen struct {
 }
 
 func OngoingWhenThenCreate(caseInstance *Case, whenExpression Expression) OngoingWhenThen {
+	if caseInstance == nil {
+		return OngoingWhenThen{err: errors.New("case: a case is required")}
+	}
+	if whenExpression == nil {
+		return OngoingWhenThen{err: errors.New("case: an expression after when is required")}
+	}
 	if whenExpression != nil && whenExpression.GetError() != nil {
 		return OngoingWhenThen{err: whenExpression.GetError()}
 	}
@@ -207,13 +242,23 @@ func OngoingWhenThenCreate(caseInstance *Case, whenExpression Expression) Ongoin
 }
 
 func (o OngoingWhenThen) Then(expression Expression) CaseEnding {
+	if o.err != nil {
+		return CaseError(o.err)
+	}
 	caseWhenThen := CaseWhenThenCreate(o.whenExpression, expression)
-	o.caseInstance.caseWhenThens = append(o.caseInstance.caseWhenThens, caseWhenThen)
+	caseWhenThens := make([]CaseWhenThen, 0, len(o.caseInstance.caseWhenThens)+1)
+	caseWhenThens = append(append(caseWhenThens, o.caseInstance.caseWhenThens...), caseWhenThen)
+	var ending Case
 	if o.caseInstance.caseExpression != nil && o.caseInstance.caseExpression.isNotNil() {
-		return EndingSimpleCaseCreate(o.caseInstance.caseExpression, o.caseInstance.caseWhenThens)
+		ending = EndingSimpleCaseCreate(o.caseInstance.caseExpression, caseWhenThens)
 	} else {
-		return EndingGenericCaseCreate(o.caseInstance.caseWhenThens)
+		ending = EndingGenericCaseCreate(caseWhenThens)
+	}
+	if ending.GetError() != nil || !o.caseInstance.caseElse.isNotNil() {
+		return ending
 	}
+	ending.caseElse = o.caseInstance.caseElse
+	return ending.withOwnKey()
 }
 
 //CaseWhenThen
@@ -227,6 +272,9 @@ type CaseWhenThen struct {
 }
 
 func CaseWhenThenCreate(whenExpression Expression, thenExpression Expression) CaseWhenThen {
+	if whenExpression == nil || thenExpression == nil {
+		return CaseWhenThen{err: errors.New("case: expressions after when and then are required")}
+	}
 	if thenExpression != nil && thenExpression.GetError() != nil {
 		return CaseWhenThen{err: thenExpression.GetError()}
 	}
@@ -282,6 +330,9 @@ type CaseElse struct {
 }
 
 func CaseElseCreate(elseExpression Expression) CaseElse {
+	if elseExpression == nil {
+		return CaseElse{err: errors.New("case: an expression after else is required")}
+	}
 	if elseExpression != nil && elseExpression.GetError() != nil {
 		return CaseElse{err: elseExpression.GetError()}
 	}
diff --git a/comparison.go b/comparison.go
index de49515..aac1d2f 100644
--- a/comparison.go
+++ b/comparison.go
@@ -81,9 +81,9 @@ func ComparisonCreate1(operator Operator, expression Expression) Comparison {
 }
 
 func ComparisonError(err error) Comparison {
-	return Comparison{
-		err: err,
-	}
+	comparison := Comparison{err: err}
+	comparison.ConditionContainer = ConditionWrap(comparison)
+	return comparison
 }
 
 func (c Comparison) GetError() error {
diff --git a/compound_condition.go b/compound_condition.go
index 8ee3698..fe3e80b 100644
--- a/compound_condition.go
+++ b/compound_condition.go
@@ -63,9 +63,9 @@ func CompoundConditionCreate1(operator Operator) CompoundCondition {
 }
 
 func CompoundConditionError(err error) CompoundCondition {
-	return CompoundCondition{
-		err: err,
-	}
+	compoundCondition := CompoundCondition{err: err}
+	compoundCondition.ConditionContainer = ConditionWrap(compoundCondition)
+	return compoundCondition
 }
 
 func (c CompoundCondition) GetError() error {
diff --git a/condition_container.go b/condition_container.go
index c1e6007..6172279 100644
--- a/condition_container.go
+++ b/condition_container.go
@@ -1,5 +1,7 @@
 package cypher
 
+import "errors"
+
 type ConditionContainer struct {
 	ExpressionContainer
 }
@@ -10,11 +12,19 @@ func ConditionWrap(condition Condition) ConditionContainer {
 	}
 }
 
+// condition returns the wrapped condition, a condition with an error when there is none.
+func (b ConditionContainer) condition() Condition {
+	if condition, isCondition := b.expression.(Condition); isCondition {
+		return condition
+	}
+	return CompoundConditionError(errors.New("a condition is required"))
+}
+
 func (b ConditionContainer) And(condition Condition) ConditionContainer {
 	if compoundCondition, isCompound := b.expression.(CompoundCondition); isCompound {
 		return compoundCondition.And(condition)
 	}
-	b.expression = CompoundConditionCreate(b.expression.(Condition), AND, condition)
+	b.expression = CompoundConditionCreate(b.condition(), AND, condition)
 	return b
 }
 
@@ -22,7 +32,7 @@ func (b ConditionContainer) Or(condition Condition) ConditionContainer {
 	if compoundCondition, isCompound := b.expression.(CompoundCondition); isCompound {
 		return compoundCondition.Or(condition)
 	}
-	b.expression = CompoundConditionCreate(b.expression.(Condition), OR, condition)
+	b.expression = CompoundConditionCreate(b.condition(), OR, condition)
 	return b
 }
 
@@ -30,23 +40,20 @@ func (b ConditionContainer) Xor(condition Condition) ConditionContainer {
 	if compoundCondition, isCompound := b.expression.(CompoundCondition); isCompound {
 		return compoundCondition.Xor(condition)
 	}
-	b.expression = CompoundConditionCreate(b.expression.(Condition), XOR, condition)
+	b.expression = CompoundConditionCreate(b.condition(), XOR, condition)
 	return b
 }
 
 func (b ConditionContainer) AndPattern(pathPattern RelationshipPattern) ConditionContainer {
-	b.expression = CompoundConditionCreate(b.expression.(Condition), AND, RelationshipPatternConditionCreate(pathPattern))
-	return b
+	return b.And(RelationshipPatternConditionCreate(pathPattern))
 }
 
 func (b ConditionContainer) OrPattern(pathPattern RelationshipPattern) ConditionContainer {
-	b.expression = CompoundConditionCreate(b.expression.(Condition), OR, RelationshipPatternConditionCreate(pathPattern))
-	return b
+	return b.Or(RelationshipPatternConditionCreate(pathPattern))
 }
 
 func (b ConditionContainer) XorPattern(pathPattern RelationshipPattern) ConditionContainer {
-	b.expression = CompoundConditionCreate(b.expression.(Condition), XOR, RelationshipPatternConditionCreate(pathPattern))
-	return b
+	return b.Xor(RelationshipPatternConditionCreate(pathPattern))
 }
 
 func (b ConditionContainer) Not() ConditionContainer {
@@ -55,5 +62,5 @@ func (b ConditionContainer) Not() ConditionContainer {
 }
 
 func (b ConditionContainer) Get() Condition {
-	return b.expression.(Condition)
+	return b.condition()
 }
diff --git a/constant_condition.go b/constant_condition.go
index 8b07d2e..46d7a7b 100644
--- a/constant_condition.go
+++ b/constant_condition.go
@@ -25,7 +25,9 @@ func ConstantConditionCreate(value BooleanLiteral) ConstantCondition {
 }
 
 func ConstantConditionError(err error) ConstantCondition {
-	return ConstantCondition{err: err}
+	constantCondition := ConstantCondition{err: err}
+	constantCondition.ConditionContainer = ConditionWrap(constantCondition)
+	return constantCondition
 }
 
 func (c ConstantCondition) GetError() error {
diff --git a/default_statement_builder.go b/default_statement_builder.go
index 9fede4f..40f6b16 100644
--- a/default_statement_builder.go
+++ b/default_statement_builder.go
@@ -411,8 +411,11 @@ func (d DefaultStatementBuilder) Call1(namespaceAndProcedure ...string) OngoingI
 }
 
 func (d DefaultStatementBuilder) AsCondition() Condition {
+	if d.err != nil {
+		return ExistentialSubqueryError(d.err)
+	}
 	if !d.currentOngoingMatch.notNil || len(d.currentSinglePartElements) > 0 {
-		panic("only simple MATCH statements can be used as existential subqueries")
+		return ExistentialSubqueryError(errors.New("only simple MATCH statements can be used as existential subqueries"))
 	}
 	return ExistentialSubqueryExists(d.currentOngoingMatch.buildMatch())
 }
diff --git a/distinct_expression.go b/distinct_expression.go
index a61612d..295c6cf 100644
--- a/distinct_expression.go
+++ b/distinct_expression.go
@@ -22,7 +22,9 @@ func DistinctExpressionCreate(delegate Expression) DistinctExpression {
 }
 
 func DistinctExpressionError(err error) DistinctExpression {
-	return DistinctExpression{err: err}
+	distinctExpression := DistinctExpression{err: err}
+	distinctExpression.ExpressionContainer = ExpressionWrap(distinctExpression)
+	return distinctExpression
 }
 
 func (d DistinctExpression) GetError() error {
diff --git a/excluded_pattern.go b/excluded_pattern.go
index 6798cf1..aa994c4 100644
--- a/excluded_pattern.go
+++ b/excluded_pattern.go
@@ -1,5 +1,7 @@
 package cypher
 
+import "errors"
+
 type ExcludedPattern struct {
 	ConditionContainer
 	patternElement PatternElement
@@ -9,6 +11,9 @@ type ExcludedPattern struct {
 }
 
 func ExcludedPatternCreate(patternElement PatternElement) ExcludedPattern {
+	if patternElement == nil {
+		return ExcludedPatternError(errors.New("a pattern is required"))
+	}
 	if patternElement.GetError() != nil {
 		return ExcludedPatternError(patternElement.GetError())
 	}
@@ -22,9 +27,9 @@ func ExcludedPatternCreate(patternElement PatternElement) ExcludedPattern {
 }
 
 func ExcludedPatternError(err error) ExcludedPattern {
-	return ExcludedPattern{
-		err: err,
-	}
+	excludedPattern := ExcludedPattern{err: err}
+	excludedPattern.ConditionContainer = ConditionWrap(excludedPattern)
+	return excludedPattern
 }
 
 func (e ExcludedPattern) GetError() error {
@@ -53,9 +58,9 @@ func (e ExcludedPattern) isNotNil() bool {
 }
 
 func (e ExcludedPattern) GetExpressionType() ExpressionType {
-	panic("implement me")
+	return "ExcludedPattern"
 }
 
 func (e ExcludedPattern) getConditionType() string {
-	panic("implement me")
+	return "ExcludedPattern"
 }
diff --git a/existential_subquery.go b/existential_subquery.go
index 8f741af..0324c0e 100644
--- a/existential_subquery.go
+++ b/existential_subquery.go
@@ -22,9 +22,9 @@ func ExistentialSubqueryCreate(fragment MatchPhrase) ExistentialSubquery {
 }
 
 func ExistentialSubqueryError(err error) ExistentialSubquery {
-	return ExistentialSubquery{
-		err: err,
-	}
+	existentialSubquery := ExistentialSubquery{err: err}
+	existentialSubquery.ConditionContainer = ConditionWrap(existentialSubquery)
+	return existentialSubquery
 }
 
 func ExistentialSubqueryExists(fragment MatchPhrase) ExistentialSubquery {
@@ -58,7 +58,7 @@ func (e ExistentialSubquery) isNotNil() bool {
 }
 
 func (e ExistentialSubquery) GetExpressionType() ExpressionType {
-	panic("implement me")
+	return "ExistentialSubquery"
 }
 
 func (e ExistentialSubquery) getConditionType() string {
diff --git a/expression_list.go b/expression_list.go
index 0d142fe..2c5742a 100644
--- a/expression_list.go
+++ b/expression_list.go
@@ -29,9 +29,9 @@ func ExpressionListCreate(expressions []Expression) ExpressionList {
 }
 
 func ExpressionListError(err error) ExpressionList {
-	return ExpressionList{
-		err: err,
-	}
+	expressionList := ExpressionList{err: err}
+	expressionList.ExpressionContainer = ExpressionWrap(expressionList)
+	return expressionList
 }
 
 func (e ExpressionList) GetExpressionType() ExpressionType {
diff --git a/function_invocation.go b/function_invocation.go
index 4467e61..34c4337 100644
--- a/function_invocation.go
+++ b/function_invocation.go
@@ -136,9 +136,9 @@ func FunctionInvocationCreateDistinct(definition FunctionDefinition, expressions
 }
 
 func FunctionInvocationError(err error) FunctionInvocation {
-	return FunctionInvocation{
-		err: err,
-	}
+	functionInvocation := FunctionInvocation{err: err}
+	functionInvocation.ExpressionContainer = ExpressionWrap(functionInvocation)
+	return functionInvocation
 }
 
 func (f FunctionInvocation) GetError() error {
diff --git a/has_label_condition.go b/has_label_condition.go
index ed13d8a..2c0c26f 100644
--- a/has_label_condition.go
+++ b/has_label_condition.go
@@ -56,9 +56,9 @@ func HasLabelConditionCreate1(nodeName SymbolicName, labels []NodeLabel) HasLabe
 }
 
 func HasLabelConditionError(err error) HasLabelCondition {
-	return HasLabelCondition{
-		err: err,
-	}
+	hasLabelCondition := HasLabelCondition{err: err}
+	hasLabelCondition.ConditionContainer = ConditionWrap(hasLabelCondition)
+	return hasLabelCondition
 }
 
 func (h HasLabelCondition) GetError() error {
diff --git a/key_value_map_entry.go b/key_value_map_entry.go
index b4c659a..d036a76 100644
--- a/key_value_map_entry.go
+++ b/key_value_map_entry.go
@@ -23,9 +23,9 @@ func KeyValueMapEntryCreate(key string, value Expression) KeyValueMapEntry {
 }
 
 func KeyValueMapEntryError(err error) KeyValueMapEntry {
-	return KeyValueMapEntry{
-		err: err,
-	}
+	keyValueMapEntry := KeyValueMapEntry{err: err}
+	keyValueMapEntry.ExpressionContainer = ExpressionWrap(keyValueMapEntry)
+	return keyValueMapEntry
 }
 
 func (k KeyValueMapEntry) GetError() error {
diff --git a/list_comprehension.go b/list_comprehension.go
index 4feb036..0fca217 100644
--- a/list_comprehension.go
+++ b/list_comprehension.go
@@ -30,9 +30,9 @@ func ListComprehensionCreate(variable SymbolicName, listExpression Expression, w
 }
 
 func ListComprehensionError(err error) ListComprehension {
-	return ListComprehension{
-		err: err,
-	}
+	listComprehension := ListComprehension{err: err}
+	listComprehension.ExpressionContainer = ExpressionWrap(listComprehension)
+	return listComprehension
 }
 
 func ListComprehensionWith(variable SymbolicName) OngoingDefinitionWithVariable {
diff --git a/list_expression.go b/list_expression.go
index 9cd5d54..196496b 100644
--- a/list_expression.go
+++ b/list_expression.go
@@ -28,9 +28,9 @@ func ListExpressionCreate1(expressions ...Expression) ListExpression {
 }
 
 func ListExpressionError(err error) ListExpression {
-	return ListExpression{
-		err: err,
-	}
+	listExpression := ListExpression{err: err}
+	listExpression.ExpressionContainer = ExpressionWrap(listExpression)
+	return listExpression
 }
 
 func ListOrSingleExpression(expressions ...Expression) Expression {
diff --git a/list_literal.go b/list_literal.go
index 7ada298..48bb4e5 100644
--- a/list_literal.go
+++ b/list_literal.go
@@ -26,9 +26,9 @@ func ListLiteralCreate(contents []Literal) ListLiteral {
 }
 
 func ListLiteralError(err error) ListLiteral {
-	return ListLiteral{
-		err: err,
-	}
+	listLiteral := ListLiteral{err: err}
+	listLiteral.ExpressionContainer = ExpressionWrap(listLiteral)
+	return listLiteral
 }
 
 func (l ListLiteral) GetError() error {
diff --git a/list_operator.go b/list_operator.go
index a11ffc1..b085d49 100644
--- a/list_operator.go
+++ b/list_operator.go
@@ -23,7 +23,9 @@ func listOperatorCreate(targetExpression Expression, optionalStart Expression, d
 }
 
 func ListOperatorError(err error) ListOperator {
-	return ListOperator{err: err}
+	listOperator := ListOperator{err: err}
+	listOperator.ExpressionContainer = ExpressionWrap(listOperator)
+	return listOperator
 }
 
 /**
diff --git a/list_predicate.go b/list_predicate.go
index a006a80..6a0a646 100644
--- a/list_predicate.go
+++ b/list_predicate.go
@@ -32,7 +32,9 @@ func ListPredicateCreate(variable SymbolicName, listExpression Expression, where
 }
 
 func ListPredicateError(err error) ListPredicate {
-	return ListPredicate{err: err}
+	listPredicate := ListPredicate{err: err}
+	listPredicate.ExpressionContainer = ExpressionWrap(listPredicate)
+	return listPredicate
 }
 
 func (l ListPredicate) GetError() error {
diff --git a/map_expression.go b/map_expression.go
index 2ea7be0..ea06159 100644
--- a/map_expression.go
+++ b/map_expression.go
@@ -28,9 +28,9 @@ func MapExpressionCreate(newContents []Expression) MapExpression {
 }
 
 func MapExpressionError(err error) MapExpression {
-	return MapExpression{
-		err: err,
-	}
+	mapExpression := MapExpression{err: err}
+	mapExpression.ExpressionContainer = ExpressionWrap(mapExpression)
+	return mapExpression
 }
 
 func (m MapExpression) GetExpressionType() ExpressionType {
diff --git a/map_projection.go b/map_projection.go
index 090d0f2..1a828c1 100644
--- a/map_projection.go
+++ b/map_projection.go
@@ -50,7 +50,9 @@ func MapProjectionCreateWithMapExpression(name SymbolicName, mapExpression MapEx
 }
 
 func MapProjectionError(err error) MapProjection {
-	return MapProjection{err: err}
+	mapProjection := MapProjection{err: err}
+	mapProjection.ExpressionContainer = ExpressionWrap(mapProjection)
+	return mapProjection
 }
 
 func (m MapProjection) GetError() error {
diff --git a/merge.go b/merge.go
index 81fdf41..0b1636b 100644
--- a/merge.go
+++ b/merge.go
@@ -86,5 +86,5 @@ func (m merge) isNotNil() bool {
 }
 
 func (m merge) isUpdatingClause() bool {
-	panic("implement me")
+	return true
 }
diff --git a/nested_expression.go b/nested_expression.go
index bb39916..6c19588 100644
--- a/nested_expression.go
+++ b/nested_expression.go
@@ -22,9 +22,9 @@ func NestedExpressionCreate(delegate Expression) NestedExpression {
 }
 
 func NestedExpressionError(err error) NestedExpression {
-	return NestedExpression{
-		err: err,
-	}
+	nestedExpression := NestedExpression{err: err}
+	nestedExpression.ExpressionContainer = ExpressionWrap(nestedExpression)
+	return nestedExpression
 }
 
 func (n NestedExpression) GetError() error {
diff --git a/operation.go b/operation.go
index 9e3f3db..f44b2f0 100644
--- a/operation.go
+++ b/operation.go
@@ -110,7 +110,9 @@ func OperationCreate2(op1 Node, operator Operator, nodeLabels ...string) Operati
 }
 
 func OperationError(err error) Operation {
-	return Operation{err: err}
+	operation := Operation{err: err}
+	operation.ExpressionContainer = ExpressionWrap(operation)
+	return operation
 }
 
 func (o Operation) GetError() error {
diff --git a/parameter.go b/parameter.go
index 1ab0a93..79bca6d 100644
--- a/parameter.go
+++ b/parameter.go
@@ -30,9 +30,9 @@ func ParameterCreate(name string) Parameter {
 }
 
 func ParameterError(err error) Parameter {
-	return Parameter{
-		err: err,
-	}
+	parameter := Parameter{err: err}
+	parameter.ExpressionContainer = ExpressionWrap(parameter)
+	return parameter
 }
 
 func (p Parameter) GetError() error {
diff --git a/pattern_comprehension.go b/pattern_comprehension.go
index ce0f866..934f86e 100644
--- a/pattern_comprehension.go
+++ b/pattern_comprehension.go
@@ -25,7 +25,9 @@ func PatternComprehensionCreate(pattern PatternElement, where Where, listDefinit
 }
 
 func PatternComprehensionError(err error) PatternComprehension {
-	return PatternComprehension{err: err}
+	patternComprehension := PatternComprehension{err: err}
+	patternComprehension.ExpressionContainer = ExpressionWrap(patternComprehension)
+	return patternComprehension
 }
 
 func PatternComprehensionBasedOn(pattern RelationshipPattern) PatternComprehensionOngoingDefinitionWithPattern {
diff --git a/relationship_pattern_condition.go b/relationship_pattern_condition.go
index 478ec00..6e52bd3 100644
--- a/relationship_pattern_condition.go
+++ b/relationship_pattern_condition.go
@@ -1,5 +1,7 @@
 package cypher
 
+import "errors"
+
 type RelationshipPatternCondition struct {
 	ConditionContainer
 	pathPattern RelationshipPattern
@@ -9,6 +11,9 @@ type RelationshipPatternCondition struct {
 }
 
 func RelationshipPatternConditionCreate(pathPattern RelationshipPattern) RelationshipPatternCondition {
+	if pathPattern == nil {
+		return RelationshipPatternConditionError(errors.New("a pattern is required"))
+	}
 	if pathPattern.GetError() != nil {
 		return RelationshipPatternConditionError(pathPattern.GetError())
 	}
@@ -22,9 +27,9 @@ func RelationshipPatternConditionCreate(pathPattern RelationshipPattern) Relatio
 }
 
 func RelationshipPatternConditionError(err error) RelationshipPatternCondition {
-	return RelationshipPatternCondition{
-		err: err,
-	}
+	relationshipPatternCondition := RelationshipPatternCondition{err: err}
+	relationshipPatternCondition.ConditionContainer = ConditionWrap(relationshipPatternCondition)
+	return relationshipPatternCondition
 }
 
 func (r RelationshipPatternCondition) getConditionType() string {
diff --git a/remove.go b/remove.go
index 29a8131..573a971 100644
--- a/remove.go
+++ b/remove.go
@@ -52,5 +52,5 @@ func (r Remove) isNotNil() bool {
 }
 
 func (r Remove) isUpdatingClause() bool {
-	panic("implement me")
+	return true
 }
diff --git a/symbolic_name.go b/symbolic_name.go
index e9e68f2..6d5ced7 100644
--- a/symbolic_name.go
+++ b/symbolic_name.go
@@ -36,9 +36,9 @@ func SymbolicNameUnResolve() SymbolicName {
 }
 
 func SymbolicNameError(err error) SymbolicName {
-	return SymbolicName{
-		err: err,
-	}
+	symbolicName := SymbolicName{err: err}
+	symbolicName.ExpressionContainer = ExpressionWrap(symbolicName)
+	return symbolicName
 }
 
 func (s SymbolicName) GetError() error {
-- 
2.43.0


From e20d560752e63345b24968407ea7e0253a04cb2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:07 +0000
Subject: [PATCH 12/48] fix: comprehensions, predicates, paths and UNWIND
 report errors and missing parts; escape the UNWIND variable

---
 alias_expression.go      |  6 +++---
 list_comprehension.go    | 25 +++++++++++++++++++++++--
 list_expression.go       |  2 +-
 list_predicate.go        | 11 ++++++++---
 name_path.go             |  8 +++++++-
 pattern_comprehension.go | 28 +++++++++++++++++++++++-----
 predicates.go            | 17 ++++++++++++++++-
 unwind.go                | 12 ++++++++++--
 8 files changed, 91 insertions(+), 18 deletions(-)

diff --git a/alias_expression.go b/alias_expression.go
index d45f4e4..ec18562 100644
--- a/alias_expression.go
+++ b/alias_expression.go
@@ -14,12 +14,12 @@ type AliasedExpression struct {
 }
 
 func AliasedExpressionCreate(delegate Expression, alias string) AliasedExpression {
+	if delegate != nil && delegate.GetError() != nil {
+		return AliasedExpressionError(delegate.GetError())
+	}
 	if delegate == nil || !delegate.isNotNil() {
 		return AliasedExpressionError(errors.New("expression to alias can't be nil"))
 	}
-	if delegate.GetError() != nil {
-		return AliasedExpressionError(delegate.GetError())
-	}
 	if alias == "" {
 		return AliasedExpressionError(errors.New("the alias may not be empty"))
 	}
diff --git a/list_comprehension.go b/list_comprehension.go
index 0fca217..7773204 100644
--- a/list_comprehension.go
+++ b/list_comprehension.go
@@ -17,6 +17,18 @@ func ListComprehensionCreate(variable SymbolicName, listExpression Expression, w
 	if variable.GetError() != nil {
 		return ListComprehensionError(variable.GetError())
 	}
+	if listExpression == nil {
+		return ListComprehensionError(errors.New("list comprehension: a list is required"))
+	}
+	if listExpression.GetError() != nil {
+		return ListComprehensionError(listExpression.GetError())
+	}
+	if where.GetError() != nil {
+		return ListComprehensionError(where.GetError())
+	}
+	if listDefinition != nil && listDefinition.GetError() != nil {
+		return ListComprehensionError(listDefinition.GetError())
+	}
 	list := ListComprehension{
 		variable:       variable,
 		listExpression: listExpression,
@@ -117,11 +129,20 @@ func (l ListComprehensionBuilder) ReturningByNamed(variables ...Named) ListCompr
 }
 
 func (l ListComprehensionBuilder) Returning(expressions ...Expression) ListComprehension {
-	return ListComprehensionCreate(l.variable, l.listExpression, l.where,
-		ListOrSingleExpression(expressions...))
+	if l.err != nil {
+		return ListComprehensionError(l.err)
+	}
+	definition := ListOrSingleExpression(expressions...)
+	if definition == nil {
+		return ListComprehensionError(errors.New("list comprehension: a definition is required"))
+	}
+	return ListComprehensionCreate(l.variable, l.listExpression, l.where, definition)
 }
 
 func (l ListComprehensionBuilder) ReturningDefault() ListComprehension {
+	if l.err != nil {
+		return ListComprehensionError(l.err)
+	}
 	return ListComprehensionCreate(l.variable, l.listExpression, l.where, nil)
 }
 
diff --git a/list_expression.go b/list_expression.go
index 196496b..43030dd 100644
--- a/list_expression.go
+++ b/list_expression.go
@@ -35,7 +35,7 @@ func ListExpressionError(err error) ListExpression {
 
 func ListOrSingleExpression(expressions ...Expression) Expression {
 	if expressions == nil || len(expressions) == 0 {
-		ListExpressionError(errors.New("expressions are required"))
+		return ListExpressionError(errors.New("expressions are required"))
 	}
 	if len(expressions) == 1 {
 		return expressions[0]
diff --git a/list_predicate.go b/list_predicate.go
index 6a0a646..2fbfbb3 100644
--- a/list_predicate.go
+++ b/list_predicate.go
@@ -1,5 +1,7 @@
 package cypher
 
+import "errors"
+
 type ListPredicate struct {
 	ExpressionContainer
 	variable       SymbolicName
@@ -14,11 +16,14 @@ func ListPredicateCreate(variable SymbolicName, listExpression Expression, where
 	if variable.GetError() != nil {
 		return ListPredicateError(variable.GetError())
 	}
-	if listExpression != nil && listExpression.GetError() != nil {
-		return ListPredicateError(variable.GetError())
+	if listExpression == nil {
+		return ListPredicateError(errors.New("list predicate: a list is required"))
+	}
+	if listExpression.GetError() != nil {
+		return ListPredicateError(listExpression.GetError())
 	}
 	if where.GetError() != nil {
-		return ListPredicateError(variable.GetError())
+		return ListPredicateError(where.GetError())
 	}
 	listPredicate := ListPredicate{
 		variable:       variable,
diff --git a/name_path.go b/name_path.go
index ed0148d..e19e3f3 100644
--- a/name_path.go
+++ b/name_path.go
@@ -14,7 +14,10 @@ func NamedPathCreate(name SymbolicName, pattern RelationshipPattern) NamedPath {
 	if name.GetError() != nil {
 		return NamedPathError(name.GetError())
 	}
-	if pattern != nil && pattern.GetError() != nil {
+	if pattern == nil {
+		return NamedPathError(errors.New("named path: a pattern is required"))
+	}
+	if pattern.GetError() != nil {
 		return NamedPathError(pattern.GetError())
 	}
 	n := NamedPath{name: name, pattern: pattern, notNil: true}
@@ -139,6 +142,9 @@ func NamedPathBuilderCreate(name SymbolicName) NamedPathBuilder {
 }
 
 func (n NamedPathBuilder) DefinedBy(pattern RelationshipPattern) NamedPath {
+	if n.err != nil {
+		return NamedPathError(n.err)
+	}
 	return NamedPathCreate(n.name, pattern)
 }
 
diff --git a/pattern_comprehension.go b/pattern_comprehension.go
index 934f86e..6b2ed5e 100644
--- a/pattern_comprehension.go
+++ b/pattern_comprehension.go
@@ -13,6 +13,21 @@ type PatternComprehension struct {
 }
 
 func PatternComprehensionCreate(pattern PatternElement, where Where, listDefinition Expression) PatternComprehension {
+	if pattern == nil {
+		return PatternComprehensionError(errors.New("pattern comprehension: a pattern is required"))
+	}
+	if pattern.GetError() != nil {
+		return PatternComprehensionError(pattern.GetError())
+	}
+	if where.GetError() != nil {
+		return PatternComprehensionError(where.GetError())
+	}
+	if listDefinition == nil {
+		return PatternComprehensionError(errors.New("pattern comprehension: a definition is required"))
+	}
+	if listDefinition.GetError() != nil {
+		return PatternComprehensionError(listDefinition.GetError())
+	}
 	patternComprehension := PatternComprehension{
 		pattern:        pattern,
 		where:          where,
@@ -31,14 +46,14 @@ func PatternComprehensionError(err error) PatternComprehension {
 }
 
 func PatternComprehensionBasedOn(pattern RelationshipPattern) PatternComprehensionOngoingDefinitionWithPattern {
-	if !pattern.isNotNil() {
+	if pattern == nil || !pattern.isNotNil() && pattern.GetError() == nil {
 		return PatternComprehensionBuilder{err: errors.New("pattern comprehension builder: a pattern is required")}
 	}
 	return PatternComprehensionBuilderCreate(pattern)
 }
 
 func PatternComprehensionBasedOnNamePath(pattern NamedPath) PatternComprehensionOngoingDefinitionWithPattern {
-	if !pattern.isNotNil() {
+	if !pattern.isNotNil() && pattern.GetError() == nil {
 		return PatternComprehensionBuilder{err: errors.New("pattern comprehension builder: a pattern is required")}
 	}
 	return PatternComprehensionBuilderCreate(pattern)
@@ -124,8 +139,14 @@ func (p PatternComprehensionBuilder) ReturningByNamed(variables ...Named) Patter
 }
 
 func (p PatternComprehensionBuilder) Returning(listDefinitions ...Expression) PatternComprehension {
+	if p.err != nil {
+		return PatternComprehensionError(p.err)
+	}
 	where := Where{}
 	condition := p.conditionBuilder.buildCondition()
+	if condition != nil && condition.GetError() != nil {
+		return PatternComprehensionError(condition.GetError())
+	}
 	if condition != nil && condition.isNotNil() {
 		where = WhereCreate(condition)
 	}
@@ -138,9 +159,6 @@ func (p PatternComprehensionBuilder) Where(condition Condition) PatternComprehen
 }
 
 func (p PatternComprehensionBuilder) WherePattern(pathPattern RelationshipPattern) PatternComprehensionOngoingDefinitionWithPatternAndWhere {
-	if !pathPattern.isNotNil() {
-		return PatternComprehensionBuilder{err: errors.New("pattern comprehension builder: path pattern must not be nil")}
-	}
 	return p.Where(RelationshipPatternConditionCreate(pathPattern))
 }
 
diff --git a/predicates.go b/predicates.go
index f930db8..cc725cc 100644
--- a/predicates.go
+++ b/predicates.go
@@ -60,6 +60,9 @@ type PredicateBuilder struct {
 }
 
 func PredicateBuilderCreate(predicate Predicate, name SymbolicName) PredicateBuilder {
+	if name.GetError() != nil {
+		return PredicateBuilder{err: name.GetError()}
+	}
 	if !name.isNotNil() {
 		return PredicateBuilder{err: xerrors.New("name for predicate is require")}
 	}
@@ -70,6 +73,12 @@ func PredicateBuilderCreate(predicate Predicate, name SymbolicName) PredicateBui
 }
 
 func (p PredicateBuilder) In(list Expression) OngoingListBasedPredicateFunctionWithList {
+	if p.err != nil {
+		return p
+	}
+	if list != nil && list.GetError() != nil {
+		return PredicateBuilder{err: list.GetError()}
+	}
 	if list == nil || !list.isNotNil() {
 		return PredicateBuilder{err: xerrors.New("predicate builder: the list expression is required")}
 	}
@@ -78,6 +87,12 @@ func (p PredicateBuilder) In(list Expression) OngoingListBasedPredicateFunctionW
 }
 
 func (p PredicateBuilder) Where(condition Condition) Condition {
+	if p.err != nil {
+		return BooleanFunctionConditionError(p.err)
+	}
+	if condition != nil && condition.GetError() != nil {
+		return BooleanFunctionConditionError(condition.GetError())
+	}
 	if condition == nil || !condition.isNotNil() {
 		return BooleanFunctionConditionError(xerrors.New("predicate builder where: the condition is required"))
 	}
@@ -85,5 +100,5 @@ func (p PredicateBuilder) Where(condition Condition) Condition {
 }
 
 func (p PredicateBuilder) GetError() error {
-	panic("implement me")
+	return p.err
 }
diff --git a/unwind.go b/unwind.go
index bf93a89..c10ef34 100644
--- a/unwind.go
+++ b/unwind.go
@@ -1,5 +1,7 @@
 package cypher
 
+import "errors"
+
 type UnwindPhrase struct {
 	expressionToUnwind Expression
 	variable           string
@@ -9,9 +11,15 @@ type UnwindPhrase struct {
 }
 
 func unwindCreate(expressionToUnwind Expression, variable string) UnwindPhrase {
-	if expressionToUnwind != nil && expressionToUnwind.GetError() != nil {
+	if expressionToUnwind == nil {
+		return unwindError(errors.New("unwind: an expression is required"))
+	}
+	if expressionToUnwind.GetError() != nil {
 		return unwindError(expressionToUnwind.GetError())
 	}
+	if variable == "" {
+		return unwindError(errors.New("unwind: the name of the variable is required"))
+	}
 	var expression Expression
 	if aliased, isAliased := expressionToUnwind.(Aliased); isAliased {
 		expression = aliased.AsName()
@@ -47,7 +55,7 @@ func (u UnwindPhrase) enter(renderer *CypherRenderer) {
 
 func (u UnwindPhrase) leave(renderer *CypherRenderer) {
 	renderer.append(" AS ")
-	renderer.append(u.variable)
+	renderer.append(EscapeIfNecessary(u.variable))
 	renderer.append(" ")
 }
 
-- 
2.43.0


From f2d2ef94a3cd771b6adf657dff60bf28eabc68b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:45 +0000
Subject: [PATCH 13/48] fix: number literals denote the exact number; NaN and
 infinity are errors

---
 number_literal.go | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/number_literal.go b/number_literal.go
index 1cb365d..0bf6a44 100644
--- a/number_literal.go
+++ b/number_literal.go
@@ -1,7 +1,10 @@
 package cypher
 
 import (
+	"errors"
+	"math"
 	"math/big"
+	"strings"
 )
 
 type NumberLiteral struct {
@@ -23,6 +26,9 @@ func NumberLiteralCreate(content int64) NumberLiteral {
 }
 
 func NumberLiteralCreate2(content float64) NumberLiteral {
+	if math.IsNaN(content) || math.IsInf(content, 0) {
+		return NumberLiteralError(errors.New("number literal: there is no literal for NaN and infinity"))
+	}
 	n := NumberLiteral{
 		content: big.NewFloat(content),
 		notNil:  true,
@@ -42,6 +48,12 @@ func NumberLiteralCreate1(content int) NumberLiteral {
 	return n
 }
 
+func NumberLiteralError(err error) NumberLiteral {
+	numberLiteral := NumberLiteral{err: err}
+	numberLiteral.ExpressionContainer = ExpressionWrap(numberLiteral)
+	return numberLiteral
+}
+
 func (n NumberLiteral) GetError() error {
 	return n.err
 }
@@ -63,7 +75,15 @@ func (n NumberLiteral) GetContent() interface{} {
 }
 
 func (n NumberLiteral) AsString() string {
-	return n.content.String()
+	if n.content == nil {
+		return ""
+	}
+	exponent := n.content.MantExp(nil)
+	if n.content.Sign() == 0 || (exponent > -20 && exponent <= 64) {
+		return n.content.Text('f', -1)
+	}
+	// an exponent in Cypher has no plus sign
+	return strings.Replace(n.content.Text('e', -1), "e+", "e", 1)
 }
 
 func (n NumberLiteral) accept(visitor *CypherRenderer) {
-- 
2.43.0


From 85cb39256cb7fdd0ba2938eb0a776513c8045f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:45 +0000
Subject: [PATCH 14/48] fix: escape the names of parameters

---
 parameter.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/parameter.go b/parameter.go
index 79bca6d..cb6ef73 100644
--- a/parameter.go
+++ b/parameter.go
@@ -45,7 +45,22 @@ func (p Parameter) accept(visitor *CypherRenderer) {
 }
 
 func (p Parameter) enter(renderer *CypherRenderer) {
-	renderer.append("$").append(p.name)
+	renderer.append("$").append(escapeParameterName(p.name))
+}
+
+// escapeParameterName escapes the name of a parameter. The name may be a number, other than the other names, and may be
+// followed by the path of properties of the parameter.
+func escapeParameterName(name string) string {
+	segments := strings.Split(name, ".")
+	for i, segment := range segments {
+		if segment == "" {
+			return EscapeIfNecessary(name)
+		}
+		if i > 0 || strings.Trim(segment, "0123456789") != "" {
+			segments[i] = EscapeIfNecessary(segment)
+		}
+	}
+	return strings.Join(segments, ".")
 }
 
 func (p Parameter) leave(renderer *CypherRenderer) {
-- 
2.43.0


From ac5b1507a18783fb1c49f81955300c85a087307a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:45 +0000
Subject: [PATCH 15/48] fix: a renderer can be used more than once

---
 cypher_renderer.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cypher_renderer.go b/cypher_renderer.go
index d3be5ac..0811a4f 100644
--- a/cypher_renderer.go
+++ b/cypher_renderer.go
@@ -46,8 +46,11 @@ func (renderer CypherRenderer) Render(statement Statement) (string, error) {
 	if statement.GetError() != nil {
 		return "", statement.GetError()
 	}
-	statement.accept(&renderer)
-	return strings.TrimSpace(renderer.builder.String()), nil
+	// what has been rendered before must not have an influence
+	current := NewRenderer()
+	current.guid = renderer.guid
+	statement.accept(current)
+	return strings.TrimSpace(current.builder.String()), nil
 }
 
 func (renderer *CypherRenderer) enableSeparator(level int, on bool) {
-- 
2.43.0


From f5195de779b04ec3edaf451471ae132b15f17745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:45 +0000
Subject: [PATCH 16/48] fix: ORDER BY keeps all of its items and reports their
 errors

---
 cypher.go        |  4 ++--
 order_builder.go | 14 +++++++++++---
 sort_item.go     | 13 ++++++++++++-
 3 files changed, 25 insertions(+), 6 deletions(-)

diff --git a/cypher.go b/cypher.go
index 959ad46..d763fb1 100644
--- a/cypher.go
+++ b/cypher.go
@@ -307,9 +307,9 @@ func SortItemsOfRaw(elements ...string) []SortItem {
 		sortElements := strings.Split(element, " ")
 		literal := LiteralOf(sortElements[0])
 		direction := UNDEFINED
-		if sortElements[1] == "ASC" {
+		if len(sortElements) > 1 && sortElements[1] == "ASC" {
 			direction = ASC
-		}else if sortElements[1] == "DESC" {
+		} else if len(sortElements) > 1 && sortElements[1] == "DESC" {
 			direction = DESC
 		}
 		sortItems[index] = SortItemCreate(literal, direction)
diff --git a/order_builder.go b/order_builder.go
index 1819c75..43e2833 100644
--- a/order_builder.go
+++ b/order_builder.go
@@ -15,13 +15,23 @@ func OrderBuilderCreate() OrderBuilder {
 }
 
 func (o *OrderBuilder) OrderBySortItem(item ...SortItem) {
+	o.addLastSortItem()
 	o.sortItemList = append(o.sortItemList[:len(o.sortItemList):len(o.sortItemList)], item...)
 }
 
 func (o *OrderBuilder) OrderByExpression(expression Expression) {
+	o.addLastSortItem()
 	o.lastSortItem = Sort(expression)
 }
 
+// addLastSortItem adds the item no direction has been given for, if there is one.
+func (o *OrderBuilder) addLastSortItem() {
+	if o.lastSortItem.isNotNil() || o.lastSortItem.GetError() != nil {
+		o.sortItemList = append(o.sortItemList[:len(o.sortItemList):len(o.sortItemList)], o.lastSortItem)
+		o.lastSortItem = SortItem{}
+	}
+}
+
 func (o *OrderBuilder) And(expression Expression) {
 	o.OrderByExpression(expression)
 }
@@ -45,9 +55,7 @@ func (o *OrderBuilder) Limit(number int) {
 }
 
 func (o *OrderBuilder) BuildOrder() Order {
-	if o.lastSortItem.isNotNil() {
-		o.sortItemList = append(o.sortItemList[:len(o.sortItemList):len(o.sortItemList)], o.lastSortItem)
-	}
+	o.addLastSortItem()
 	if o.sortItemList != nil && len(o.sortItemList) > 0 {
 		return OrderCreate(o.sortItemList)
 	}
diff --git a/sort_item.go b/sort_item.go
index b750411..0160810 100644
--- a/sort_item.go
+++ b/sort_item.go
@@ -1,5 +1,7 @@
 package cypher
 
+import "errors"
+
 type SortItem struct {
 	expression Expression
 	direction  SortDirection
@@ -9,7 +11,10 @@ type SortItem struct {
 }
 
 func SortItemCreate(expression Expression, direction SortDirectionRaw) SortItem {
-	if expression != nil && expression.GetError() != nil {
+	if expression == nil {
+		return SortItemError(errors.New("an expression to sort by is required"))
+	}
+	if expression.GetError() != nil {
 		return SortItemError(expression.GetError())
 	}
 	sortItem := SortItem{
@@ -38,10 +43,16 @@ func (item SortItem) getKey() string {
 }
 
 func (item SortItem) Ascending() SortItem {
+	if item.err != nil {
+		return item
+	}
 	return SortItemCreate(item.expression, ASC)
 }
 
 func (item SortItem) Descending() SortItem {
+	if item.err != nil {
+		return item
+	}
 	return SortItemCreate(item.expression, DESC)
 }
 
-- 
2.43.0


From 230e03e5ee7213df7bdc1134973be95f51817e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:45 +0000
Subject: [PATCH 17/48] fix: maps and lists report missing parts and do not
 share the slices they were created from

---
 entry_expression.go    | 20 ++++++++++++++++----
 expression_list.go     |  4 ++--
 key_value_map_entry.go |  7 ++++++-
 list_comprehension.go  |  5 ++++-
 list_literal.go        | 12 +++++++++---
 map_expression.go      |  2 +-
 6 files changed, 38 insertions(+), 12 deletions(-)

diff --git a/entry_expression.go b/entry_expression.go
index ee0db5b..9e602d4 100644
--- a/entry_expression.go
+++ b/entry_expression.go
@@ -1,5 +1,7 @@
 package cypher
 
+import "errors"
+
 type EntryExpression struct {
 	ExpressionContainer
 	Key    string
@@ -10,10 +12,14 @@ type EntryExpression struct {
 }
 
 func EntryExpressionCreate(key string, value Expression) EntryExpression {
-	if value != nil && value.GetError() != nil {
-		return EntryExpression{
-			err: value.GetError(),
-		}
+	if key == "" {
+		return EntryExpressionError(errors.New("a map entry needs a key"))
+	}
+	if value == nil {
+		return EntryExpressionError(errors.New("a map entry needs a value"))
+	}
+	if value.GetError() != nil {
+		return EntryExpressionError(value.GetError())
 	}
 	e := EntryExpression{
 		Value:  value,
@@ -25,6 +31,12 @@ func EntryExpressionCreate(key string, value Expression) EntryExpression {
 	return e
 }
 
+func EntryExpressionError(err error) EntryExpression {
+	entryExpression := EntryExpression{err: err}
+	entryExpression.ExpressionContainer = ExpressionWrap(entryExpression)
+	return entryExpression
+}
+
 func (e EntryExpression) GetError() error {
 	return e.err
 }
diff --git a/expression_list.go b/expression_list.go
index 2c5742a..2cb5472 100644
--- a/expression_list.go
+++ b/expression_list.go
@@ -20,7 +20,7 @@ func ExpressionListCreate(expressions []Expression) ExpressionList {
 		}
 	}
 	e := ExpressionList{
-		expressions: expressions,
+		expressions: append([]Expression{}, expressions...),
 		notNil:      true,
 	}
 	e.key = getAddress(&e)
@@ -77,5 +77,5 @@ func NewExpressionList(expression ...Expression) ExpressionList {
 	for i := range expression {
 		expressions[i] = expression[i]
 	}
-	return ExpressionList{expressions: expressions}
+	return ExpressionListCreate(expressions)
 }
diff --git a/key_value_map_entry.go b/key_value_map_entry.go
index d036a76..738d463 100644
--- a/key_value_map_entry.go
+++ b/key_value_map_entry.go
@@ -1,5 +1,7 @@
 package cypher
 
+import "errors"
+
 type KeyValueMapEntry struct {
 	ExpressionContainer
 	entryKey string
@@ -10,7 +12,10 @@ type KeyValueMapEntry struct {
 }
 
 func KeyValueMapEntryCreate(key string, value Expression) KeyValueMapEntry {
-	if value != nil && value.GetError() != nil {
+	if value == nil {
+		return KeyValueMapEntryError(errors.New("a map entry needs a value"))
+	}
+	if value.GetError() != nil {
 		return KeyValueMapEntryError(value.GetError())
 	}
 	entry := KeyValueMapEntry{
diff --git a/list_comprehension.go b/list_comprehension.go
index 7773204..cace533 100644
--- a/list_comprehension.go
+++ b/list_comprehension.go
@@ -147,6 +147,9 @@ func (l ListComprehensionBuilder) ReturningDefault() ListComprehension {
 }
 
 func (l ListComprehensionBuilder) Where(condition Condition) OngoingDefinitionWithoutReturn {
-	l.where = WhereCreate(condition)
+	l.where = Where{}
+	if condition != nil && (condition.isNotNil() || condition.GetError() != nil) {
+		l.where = WhereCreate(condition)
+	}
 	return l
 }
diff --git a/list_literal.go b/list_literal.go
index 48bb4e5..b3200a0 100644
--- a/list_literal.go
+++ b/list_literal.go
@@ -1,6 +1,9 @@
 package cypher
 
-import "strings"
+import (
+	"errors"
+	"strings"
+)
 
 type ListLiteral struct {
 	ExpressionContainer
@@ -12,12 +15,15 @@ type ListLiteral struct {
 
 func ListLiteralCreate(contents []Literal) ListLiteral {
 	for _, content := range contents {
-		if content != nil && content.GetError() != nil {
+		if content == nil {
+			return ListLiteralError(errors.New("a list literal can not contain nil"))
+		}
+		if content.GetError() != nil {
 			return ListLiteralError(content.GetError())
 		}
 	}
 	list := ListLiteral{
-		content: contents,
+		content: append([]Literal{}, contents...),
 	}
 	list.key = getAddress(&list)
 	list.ExpressionContainer = ExpressionWrap(list)
diff --git a/map_expression.go b/map_expression.go
index ea06159..fa78d6f 100644
--- a/map_expression.go
+++ b/map_expression.go
@@ -51,7 +51,7 @@ func (m MapExpression) getKey() string {
 
 func NewMapExpression(objects ...interface{}) MapExpression {
 	if len(objects)%2 != 0 {
-		return MapExpressionError(errors.Errorf("new map expression number of object input should be product of 2 but it is %", len(objects)))
+		return MapExpressionError(errors.Errorf("new map expression number of object input should be product of 2 but it is %d", len(objects)))
 	}
 	var newContents = make([]Expression, len(objects)/2)
 	var knownKeys = make(map[string]int)
-- 
2.43.0


From 4717a51f3da57d4528b8116c2c994ba46f434b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:22 +0000
Subject: [PATCH 18/48] fix: collect(DISTINCT), temporal functions without
 arguments and nil arguments of functions

---
 function_invocation.go | 39 ++++++++++++++++++++-------------------
 functions.go           | 34 +++++++++++++++++-----------------
 2 files changed, 37 insertions(+), 36 deletions(-)

diff --git a/function_invocation.go b/function_invocation.go
index 34c4337..6e18a27 100644
--- a/function_invocation.go
+++ b/function_invocation.go
@@ -14,15 +14,16 @@ type FunctionInvocation struct {
 }
 
 func FunctionInvocationCreate1(definition FunctionDefinition) FunctionInvocation {
-	return FunctionInvocationCreateWithFunctionName(definition.getImplementationName(), nil)
+	return FunctionInvocationCreateWithFunctionName(definition.getImplementationName())
 }
 
 func FunctionInvocationCreateWithFunctionName(functionName string, arguments ...Expression) FunctionInvocation {
-	if arguments != nil {
-		for _, expression := range arguments {
-			if expression.GetError() != nil {
-				return FunctionInvocationError(expression.GetError())
-			}
+	for _, expression := range arguments {
+		if expression == nil {
+			return FunctionInvocationError(errors.Errorf("function invocation create: an argument of %s is nil", functionName))
+		}
+		if expression.GetError() != nil {
+			return FunctionInvocationError(expression.GetError())
 		}
 	}
 	argumentVisitables := make([]Visitable, len(arguments))
@@ -40,11 +41,12 @@ func FunctionInvocationCreateWithFunctionName(functionName string, arguments ...
 }
 
 func FunctionInvocationCreate(definition FunctionDefinition, expressions ...Expression) FunctionInvocation {
-	if expressions != nil {
-		for _, expression := range expressions {
-			if expression.GetError() != nil {
-				return FunctionInvocationError(expression.GetError())
-			}
+	for _, expression := range expressions {
+		if expression == nil {
+			return FunctionInvocationError(errors.Errorf("function invocation create: an argument of %s is nil", definition.getImplementationName()))
+		}
+		if expression.GetError() != nil {
+			return FunctionInvocationError(expression.GetError())
 		}
 	}
 	if len(expressions) == 0 || expressions[0] == nil || !expressions[0].isNotNil() {
@@ -105,11 +107,12 @@ func FunctionInvocationCreateWithPattern(definition FunctionDefinition, pattern
 }
 
 func FunctionInvocationCreateDistinct(definition FunctionDefinition, expressions ...Expression) FunctionInvocation {
-	if expressions != nil {
-		for _, expression := range expressions {
-			if expression.GetError() != nil {
-				return FunctionInvocationError(expression.GetError())
-			}
+	for _, expression := range expressions {
+		if expression == nil {
+			return FunctionInvocationError(errors.Errorf("function invocation create: an argument of %s is nil", definition.getImplementationName()))
+		}
+		if expression.GetError() != nil {
+			return FunctionInvocationError(expression.GetError())
 		}
 	}
 	if !definition.isAggregate() {
@@ -119,9 +122,7 @@ func FunctionInvocationCreateDistinct(definition FunctionDefinition, expressions
 		return FunctionInvocationError(errors.Errorf("expression for %s is required", definition.getImplementationName()))
 	}
 	arguments := make([]Visitable, 0)
-	arguments = append(arguments, DistinctExpression{
-		delegate: expressions[0],
-	})
+	arguments = append(arguments, DistinctExpressionCreate(expressions[0]))
 	for _, expression := range expressions[1:] {
 		arguments = append(arguments, expression)
 	}
diff --git a/functions.go b/functions.go
index 1f4217e..57a725d 100644
--- a/functions.go
+++ b/functions.go
@@ -194,7 +194,7 @@ func CollectDistinct(expression Expression) FunctionInvocation {
 	if expression != nil && expression.GetError() != nil {
 		return FunctionInvocationError(expression.GetError())
 	}
-	return FunctionInvocationCreateDistinct(AVG, expression)
+	return FunctionInvocationCreateDistinct(COLLECT, expression)
 }
 
 /**
@@ -715,10 +715,10 @@ func DateWithTemporal(temporalValue string) FunctionInvocation {
  * @since 2020.1.0
  */
 func DateWithExpression(temporalValue Expression) FunctionInvocation {
-	if temporalValue.GetError() != nil {
+	if temporalValue != nil && temporalValue.GetError() != nil {
 		return FunctionInvocationError(temporalValue.GetError())
 	}
-	if !temporalValue.isNotNil() {
+	if temporalValue == nil || !temporalValue.isNotNil() {
 		return FunctionInvocationError(errors.New("functions date with temporalValue :temporalValue is required"))
 	}
 	return FunctionInvocationCreate(DATE, temporalValue)
@@ -732,7 +732,7 @@ func DateWithExpression(temporalValue Expression) FunctionInvocation {
  * @since 2020.1.0
  */
 func Datetime() FunctionInvocation {
-	return FunctionInvocationCreate(DATETIME)
+	return FunctionInvocationCreate1(DATETIME)
 }
 
 /**
@@ -780,10 +780,10 @@ func DateTimeWithTemporal(temporalValue string) FunctionInvocation {
  * @since 2020.1.0
  */
 func DateTimeWithExpression(temporalValue Expression) FunctionInvocation {
-	if temporalValue.GetError() != nil {
+	if temporalValue != nil && temporalValue.GetError() != nil {
 		return FunctionInvocationError(temporalValue.GetError())
 	}
-	if !temporalValue.isNotNil() {
+	if temporalValue == nil || !temporalValue.isNotNil() {
 		return FunctionInvocationError(errors.New("functions datetime with temporalValue :temporalValue is required"))
 	}
 	return FunctionInvocationCreate(DATETIME, temporalValue)
@@ -797,7 +797,7 @@ func DateTimeWithExpression(temporalValue Expression) FunctionInvocation {
  * @since 2020.1.0
  */
 func LocalDatetime() FunctionInvocation {
-	return FunctionInvocationCreate(LOCALDATETIME)
+	return FunctionInvocationCreate1(LOCALDATETIME)
 }
 
 /**
@@ -860,10 +860,10 @@ func LocalDateTimeWithTemporal(temporalValue string) FunctionInvocation {
  * @since 2020.1.0
  */
 func LocalDateTimeWithExpression(temporalValue Expression) FunctionInvocation {
-	if temporalValue.GetError() != nil {
+	if temporalValue != nil && temporalValue.GetError() != nil {
 		return FunctionInvocationError(temporalValue.GetError())
 	}
-	if !temporalValue.isNotNil() {
+	if temporalValue == nil || !temporalValue.isNotNil() {
 		return FunctionInvocationError(errors.New("functions localdatetime with temporalValue :temporalValue is required"))
 	}
 	return FunctionInvocationCreate(LOCALDATETIME, temporalValue)
@@ -877,7 +877,7 @@ func LocalDateTimeWithExpression(temporalValue Expression) FunctionInvocation {
  * @since 2020.1.0
  */
 func Localtime() FunctionInvocation {
-	return FunctionInvocationCreate(LOCALTIME)
+	return FunctionInvocationCreate1(LOCALTIME)
 }
 
 /**
@@ -939,10 +939,10 @@ func LocalTimeWithTemporal(temporalValue string) FunctionInvocation {
  * @since 2020.1.0
  */
 func LocalTimeWithExpression(temporalValue Expression) FunctionInvocation {
-	if temporalValue.GetError() != nil {
+	if temporalValue != nil && temporalValue.GetError() != nil {
 		return FunctionInvocationError(temporalValue.GetError())
 	}
-	if !temporalValue.isNotNil() {
+	if temporalValue == nil || !temporalValue.isNotNil() {
 		return FunctionInvocationError(errors.New("functions localtime with temporalValue :temporalValue is required"))
 	}
 	return FunctionInvocationCreate(LOCALTIME, temporalValue)
@@ -956,7 +956,7 @@ func LocalTimeWithExpression(temporalValue Expression) FunctionInvocation {
  * @since 2020.1.0
  */
 func Time() FunctionInvocation {
-	return FunctionInvocationCreate(TIME)
+	return FunctionInvocationCreate1(TIME)
 }
 
 /**
@@ -1019,10 +1019,10 @@ func TimeWithTemporal(temporalValue string) FunctionInvocation {
  * @since 2020.1.0
  */
 func TimeWithExpression(temporalValue Expression) FunctionInvocation {
-	if temporalValue.GetError() != nil {
+	if temporalValue != nil && temporalValue.GetError() != nil {
 		return FunctionInvocationError(temporalValue.GetError())
 	}
-	if !temporalValue.isNotNil() {
+	if temporalValue == nil || !temporalValue.isNotNil() {
 		return FunctionInvocationError(errors.New("functions time with temporalValue :temporalValue is required"))
 	}
 	return FunctionInvocationCreate(TIME, temporalValue)
@@ -1073,10 +1073,10 @@ func DurationWithTemporal(temporalAmount string) FunctionInvocation {
  * @since 2020.1.0
  */
 func DurationWithExpression(temporalAmount Expression) FunctionInvocation {
-	if temporalAmount.GetError() != nil {
+	if temporalAmount != nil && temporalAmount.GetError() != nil {
 		return FunctionInvocationError(temporalAmount.GetError())
 	}
-	if !temporalAmount.isNotNil() {
+	if temporalAmount == nil || !temporalAmount.isNotNil() {
 		return FunctionInvocationError(errors.New("functions duration with temporalAmount :temporalAmount is required"))
 	}
 	return FunctionInvocationCreate(DURATION, temporalAmount)
-- 
2.43.0


From 331392a60c5ef74f3739ed2f93cfdc00b56c7755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:08 +0000
Subject: [PATCH 19/48] fix: procedure names keep and escape all of their
 parts; calls without arguments keep the parentheses

---
 arguments.go             |  9 +++++++--
 in_query_call_builder.go |  5 +----
 name_space.go            |  6 +++++-
 procedure_call.go        | 13 ++++++++-----
 procedure_name.go        | 37 +++++++++++++++++++++++++------------
 5 files changed, 46 insertions(+), 24 deletions(-)

diff --git a/arguments.go b/arguments.go
index 637b22d..5786a77 100644
--- a/arguments.go
+++ b/arguments.go
@@ -1,5 +1,7 @@
 package cypher
 
+import "errors"
+
 type Arguments struct {
 	expressions []Expression
 	key         string
@@ -9,12 +11,15 @@ type Arguments struct {
 
 func ArgumentsCreate(expression []Expression) Arguments {
 	for _, expr := range expression {
-		if expr != nil && expr.GetError() != nil {
+		if expr == nil {
+			return Arguments{err: errors.New("an argument of a call must not be nil")}
+		}
+		if expr.GetError() != nil {
 			return Arguments{err: expr.GetError()}
 		}
 	}
 	a := Arguments{
-		expressions: expression,
+		expressions: append([]Expression{}, expression...),
 		notNil:      true,
 	}
 	a.key = getAddress(&a)
diff --git a/in_query_call_builder.go b/in_query_call_builder.go
index 63a0016..0725906 100644
--- a/in_query_call_builder.go
+++ b/in_query_call_builder.go
@@ -70,10 +70,7 @@ func (i InQueryCallBuilder) Build() (Statement, error) {
 	if i.err != nil {
 		return nil, i.err
 	}
-	argumentsList := Arguments{}
-	if i.arguments == nil || len(i.arguments) > 0 {
-		argumentsList = ArgumentsCreate(i.arguments)
-	}
+	argumentsList := ArgumentsCreate(i.arguments)
 	condition := i.conditionBuilder.buildCondition()
 	if condition != nil {
 		return buildResult(ProcedureCallCreate(i.procedureName, argumentsList, i.yieldItems,
diff --git a/name_space.go b/name_space.go
index cca9d3b..020f663 100644
--- a/name_space.go
+++ b/name_space.go
@@ -55,5 +55,9 @@ func (n Namespace) GetContent() interface{} {
 }
 
 func (n Namespace) AsString() string {
-	return strings.Join(n.content[:], ".")
+	parts := make([]string, len(n.content))
+	for i := range n.content {
+		parts[i] = escapeQualifiedName(n.content[i])
+	}
+	return strings.Join(parts, ".")
 }
diff --git a/procedure_call.go b/procedure_call.go
index 6095eda..c33a21d 100644
--- a/procedure_call.go
+++ b/procedure_call.go
@@ -203,10 +203,7 @@ func (s StandaloneCallBuilder) Build() (Statement, error) {
 	if s.yieldItems.GetError() != nil {
 		return nil, s.yieldItems.GetError()
 	}
-	argumentsList := Arguments{}
-	if s.arguments == nil || len(s.arguments) > 0 {
-		argumentsList = ArgumentsCreate(s.arguments)
-	}
+	argumentsList := ArgumentsCreate(s.arguments)
 	if argumentsList.GetError() != nil {
 		return nil, argumentsList.GetError()
 	}
@@ -226,7 +223,13 @@ func (s StandaloneCallBuilder) isNotNil() bool {
 }
 
 func (s StandaloneCallBuilder) AsFunction() Expression {
-	return FunctionInvocationCreate(FunctionDefinitionDefault{s.procedureName.getQualifiedName()}, s.arguments...)
+	if s.err != nil {
+		return FunctionInvocationError(s.err)
+	}
+	if s.procedureName.GetError() != nil {
+		return FunctionInvocationError(s.procedureName.GetError())
+	}
+	return FunctionInvocationCreateWithFunctionName(s.procedureName.getQualifiedName(), s.arguments...)
 }
 
 func (s StandaloneCallBuilder) WithArgs(arguments ...Expression) OngoingStandaloneCallWithoutArguments {
diff --git a/procedure_name.go b/procedure_name.go
index 9cd37e3..68e774d 100644
--- a/procedure_name.go
+++ b/procedure_name.go
@@ -1,6 +1,7 @@
 package cypher
 
 import (
+	"errors"
 	"strings"
 )
 
@@ -13,15 +14,20 @@ type ProcedureName struct {
 }
 
 func ProcedureNameCreate(namespaceAndProcedure ...string) ProcedureName {
-	if len(namespaceAndProcedure) == 1 {
+	inputLength := len(namespaceAndProcedure)
+	for _, name := range namespaceAndProcedure {
+		if name == "" {
+			return ProcedureName{err: errors.New("the parts of a procedure name must not be empty")}
+		}
+	}
+	if inputLength == 0 {
+		return ProcedureName{err: errors.New("the procedure name must not be nil or empty")}
+	}
+	if inputLength == 1 {
 		return ProcedureNameCreate1(namespaceAndProcedure[0])
-	} else {
-		values := make([]string, 0)
-		inputLength := len(namespaceAndProcedure)
-		copy(values, namespaceAndProcedure[1:inputLength-1])
-		namespace := NameSpaceCreate(values)
-		return ProcedureNameCreate2(namespace, namespaceAndProcedure[inputLength-1])
 	}
+	namespace := append([]string{}, namespaceAndProcedure[:inputLength-1]...)
+	return ProcedureNameCreate2(NameSpaceCreate(namespace), namespaceAndProcedure[inputLength-1])
 }
 
 func ProcedureNameCreate1(value string) ProcedureName {
@@ -47,11 +53,19 @@ func ProcedureNameCreate2(namespace Namespace, value string) ProcedureName {
 }
 
 func (p ProcedureName) getQualifiedName() string {
-	namespace := ""
 	if p.optionalNamespace.isNotNil() {
-		namespace = strings.Join(p.optionalNamespace.content[:], ".")
+		return p.optionalNamespace.AsString() + "." + escapeQualifiedName(p.value)
+	}
+	return escapeQualifiedName(p.value)
+}
+
+// escapeQualifiedName escapes the parts of a name that may have a namespace in front of it.
+func escapeQualifiedName(name string) string {
+	parts := strings.Split(name, ".")
+	for i, part := range parts {
+		parts[i] = EscapeIfNecessary(part)
 	}
-	return namespace + "." + p.value
+	return strings.Join(parts, ".")
 }
 
 func (p ProcedureName) GetError() error {
@@ -60,15 +74,14 @@ func (p ProcedureName) GetError() error {
 
 func (p ProcedureName) accept(visitor *CypherRenderer) {
 	visitor.enter(p)
-	VisitIfNotNull(p.optionalNamespace, visitor)
 	visitor.leave(p)
 }
 
 func (p ProcedureName) enter(renderer *CypherRenderer) {
+	renderer.append(p.getQualifiedName())
 }
 
 func (p ProcedureName) leave(renderer *CypherRenderer) {
-	renderer.append(p.value)
 }
 
 func (p ProcedureName) getKey() string {
-- 
2.43.0


From a8007498cec13e88391d24318edd4995f07f3aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:10 +0000
Subject: [PATCH 20/48] fix: a union reports the errors of its statements and
 never mixes UNION and UNION ALL

---
 cypher.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/cypher.go b/cypher.go
index d763fb1..e3c9a74 100644
--- a/cypher.go
+++ b/cypher.go
@@ -562,6 +562,14 @@ func unionImpl(unionAll bool, statements ...Statement) Statement {
 	if statements == nil || len(statements) < 2 {
 		return UnionQueryError(errors.New("at least 2 statements are required"))
 	}
+	for _, statement := range statements {
+		if statement == nil {
+			return UnionQueryError(errors.New("can not union nil"))
+		}
+		if statement.GetError() != nil {
+			return UnionQueryError(statement.GetError())
+		}
+	}
 	i := 0
 	existingUnionQuery := UnionQuery{}
 	if unionQuery, isUnion := statements[0].(UnionQuery); isUnion {
@@ -573,6 +581,9 @@ func unionImpl(unionAll bool, statements ...Statement) Statement {
 	}
 	listOfQueries := make([]SingleQuery, 0)
 	for _, query := range statements[i:] {
+		if unionQuery, isUnion := query.(UnionQuery); isUnion && unionQuery.all != unionAll {
+			return UnionQueryError(errors.New("cannot mix union and union all"))
+		}
 		if singleQuery, isSingle := query.(SingleQuery); isSingle {
 			listOfQueries = append(listOfQueries, singleQuery)
 			continue
-- 
2.43.0


From f7ea74544d698d49b3b753150c73999528ad07a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:10 +0000
Subject: [PATCH 21/48] fix: group exponentiations and conditions that are
 operands

---
 comparison.go    |  2 +-
 list_operator.go |  2 +-
 operation.go     | 29 ++++++++++++++++++++++++-----
 property.go      |  2 +-
 4 files changed, 27 insertions(+), 8 deletions(-)

diff --git a/comparison.go b/comparison.go
index aac1d2f..433cb08 100644
--- a/comparison.go
+++ b/comparison.go
@@ -30,7 +30,7 @@ func ComparisonCreate(left Expression, operator Operator, right Expression) Comp
 	if left == nil || !left.isNotNil() {
 		return ComparisonError(errors.New("left expression must be not nil"))
 	}
-	if right == nil || !left.isNotNil() {
+	if right == nil || !right.isNotNil() {
 		return ComparisonError(errors.New("right expression must be not nil"))
 	}
 	comparison := Comparison{
diff --git a/list_operator.go b/list_operator.go
index b085d49..2ac33de 100644
--- a/list_operator.go
+++ b/list_operator.go
@@ -13,7 +13,7 @@ type ListOperator struct {
 
 func listOperatorCreate(targetExpression Expression, optionalStart Expression, dots Dot, optionalEnd Expression) ListOperator {
 	operator := ListOperator{
-		targetExpression: targetExpression,
+		targetExpression: nestedIfOperand(targetExpression),
 		details:          ListOperatorDetailsCreate(optionalStart, dots, optionalEnd),
 		notNil:           true,
 	}
diff --git a/operation.go b/operation.go
index f44b2f0..ae90393 100644
--- a/operation.go
+++ b/operation.go
@@ -35,9 +35,9 @@ func OperationCreate(left Expression, operator Operator, right Expression) Opera
 		return OperationError(errors.New("operation: right can not be nil"))
 	}
 	o := Operation{
-		left:     left,
+		left:     nestedOperand(left, operator),
 		operator: operator,
-		right:    right,
+		right:    nestedOperand(right, operator),
 		notNil:   true,
 	}
 	o.key = getAddress(&o)
@@ -55,13 +55,13 @@ func OperationCreate1(left Expression, operator Operator, right NodeLabel) Opera
 	if right.GetError() != nil {
 		return OperationError(right.GetError())
 	}
-	if left == nil || left.isNotNil() {
+	if left == nil || !left.isNotNil() {
 		return OperationError(errors.New("left can not be nil"))
 	}
-	if operator.isNotNil() {
+	if !operator.isNotNil() {
 		return OperationError(errors.New("operator can not be nil"))
 	}
-	if right.isNotNil() {
+	if !right.isNotNil() {
 		return OperationError(errors.New("right can not be nil"))
 	}
 	o := Operation{
@@ -109,6 +109,25 @@ func OperationCreate2(op1 Node, operator Operator, nodeLabels ...string) Operati
 	return o
 }
 
+// nestedOperand nests an operand that would be taken apart otherwise.
+func nestedOperand(operand Expression, operator Operator) Expression {
+	if operator.operatorType == PROPERTY || operator.operatorType == LABEL || operator == PIPE {
+		return operand
+	}
+	if operator != EXPONENTIATION {
+		return nestedIfCondition(operand)
+	}
+	return nestedIfOperand(operand)
+}
+
+// nestedIfOperand nests conditions and the only operation that is rendered without parentheses.
+func nestedIfOperand(expression Expression) Expression {
+	if operation, isOperation := expression.(Operation); isOperation && operation.operator == EXPONENTIATION {
+		return NestedExpressionCreate(expression)
+	}
+	return nestedIfCondition(expression)
+}
+
 func OperationError(err error) Operation {
 	operation := Operation{err: err}
 	operation.ExpressionContainer = ExpressionWrap(operation)
diff --git a/property.go b/property.go
index 735bdae..2688951 100644
--- a/property.go
+++ b/property.go
@@ -38,7 +38,7 @@ func PropertyCreate2(container Expression, name string) Property {
 	if name == "" {
 		return PropertyError(errors.New("property name is required"))
 	}
-	return PropertyCreate1(container, PropertyLookupCreate(name))
+	return PropertyCreate1(nestedIfOperand(container), PropertyLookupCreate(name))
 }
 
 func PropertyCreate1(container Expression, name PropertyLookup) Property {
-- 
2.43.0


From 68cd779d72b07119856550b34fe2f3d7f128bb2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:52 +0000
Subject: [PATCH 22/48] fix: empty names are errors instead of being dropped

---
 expressions.go    | 4 +---
 map_projection.go | 3 +++
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/expressions.go b/expressions.go
index f3f232d..2e5e486 100644
--- a/expressions.go
+++ b/expressions.go
@@ -31,9 +31,7 @@ func CreateSymbolicNameByNamed(nameds ...Named) []Expression {
 func CreateSymbolicNameByString(args ...string) []Expression {
 	expressions := make([]Expression, 0)
 	for _, arg := range args {
-		if arg != "" {
-			expressions = append(expressions, SymbolicNameCreate(arg))
-		}
+		expressions = append(expressions, SymbolicNameCreate(arg))
 	}
 	return expressions
 }
diff --git a/map_projection.go b/map_projection.go
index 1a828c1..6a63261 100644
--- a/map_projection.go
+++ b/map_projection.go
@@ -123,6 +123,9 @@ func createNewContent(content ...interface{}) ([]Expression, error) {
 		}
 		current := contentAt(content, i)
 		if aString, isString := current.(string); isString {
+			if aString == "" {
+				return nil, xerrors.Errorf("map projection create new content: a key must not be empty")
+			}
 			if anExpression, isExpression := next.(Expression); isExpression {
 				lastKey = aString
 				lastExpression = anExpression
-- 
2.43.0


From a8cd8f8136b2dd6586496baa45bb64794a8bfbe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:56 +0000
Subject: [PATCH 23/48] fix: a single joined condition is rendered by its alias
 once it has one

---
 compound_condition.go | 34 ++++++++++++++++------------------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/compound_condition.go b/compound_condition.go
index fe3e80b..e6f75dc 100644
--- a/compound_condition.go
+++ b/compound_condition.go
@@ -84,33 +84,31 @@ func (c CompoundCondition) accept(visitor *CypherRenderer) {
 	if len(c.conditions) == 0 {
 		return
 	}
-	hasManyConditions := len(c.conditions) > 1
-	if hasManyConditions {
-		visitor.enter(c)
-	}
+	visitor.enter(c)
 	acceptVisitorWithOperatorForChildCondition(visitor, Operator{}, c.conditions[0])
-
-	if hasManyConditions {
-		for _, condition := range c.conditions[1:] {
-			var actualOperator Operator
-			compound, isCompound := condition.(CompoundCondition)
-			if isCompound {
-				actualOperator = compound.operator
-			} else {
-				actualOperator = c.operator
-			}
-			acceptVisitorWithOperatorForChildCondition(visitor, actualOperator, condition)
+	for _, condition := range c.conditions[1:] {
+		var actualOperator Operator
+		compound, isCompound := condition.(CompoundCondition)
+		if isCompound {
+			actualOperator = compound.operator
+		} else {
+			actualOperator = c.operator
 		}
-		visitor.leave(c)
+		acceptVisitorWithOperatorForChildCondition(visitor, actualOperator, condition)
 	}
+	visitor.leave(c)
 }
 
 func (c CompoundCondition) enter(renderer *CypherRenderer) {
-	renderer.append("(")
+	if len(c.conditions) > 1 {
+		renderer.append("(")
+	}
 }
 
 func (c CompoundCondition) leave(renderer *CypherRenderer) {
-	renderer.append(")")
+	if len(c.conditions) > 1 {
+		renderer.append(")")
+	}
 }
 
 func (c CompoundCondition) getKey() string {
-- 
2.43.0


From f4b9c4d571f50d1f11f70b0bb05104d94e210bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:56 +0000
Subject: [PATCH 24/48] fix: quote names that consist of blanks

---
 alias_expression.go    |  4 ++--
 cypher_renderer.go     | 14 +++++++++++---
 entry_expression.go    |  2 +-
 key_value_map_entry.go |  2 +-
 parameter.go           |  4 ++--
 procedure_name.go      |  2 +-
 property_lookup.go     |  2 +-
 unwind.go              |  2 +-
 8 files changed, 20 insertions(+), 12 deletions(-)

diff --git a/alias_expression.go b/alias_expression.go
index ec18562..81b7eba 100644
--- a/alias_expression.go
+++ b/alias_expression.go
@@ -70,14 +70,14 @@ func (aliased AliasedExpression) getKey() string {
 
 func (aliased AliasedExpression) enter(renderer *CypherRenderer) {
 	if _, visited := renderer.visitableToAliased[aliased.delegate.getKey()]; visited {
-		renderer.append(EscapeIfNecessary(aliased.alias))
+		renderer.append(quoteIfNecessary(aliased.alias))
 	}
 }
 
 func (aliased AliasedExpression) leave(renderer *CypherRenderer) {
 	if _, visited := renderer.visitableToAliased[aliased.delegate.getKey()]; !visited {
 		renderer.append(" AS ")
-		renderer.append(EscapeIfNecessary(aliased.alias))
+		renderer.append(quoteIfNecessary(aliased.alias))
 	}
 }
 
diff --git a/cypher_renderer.go b/cypher_renderer.go
index 0811a4f..1b0c576 100644
--- a/cypher_renderer.go
+++ b/cypher_renderer.go
@@ -74,7 +74,7 @@ func (renderer *CypherRenderer) resolve(name SymbolicName) string {
 	if _, isExist := renderer.resolvedSymbolicNames[name]; !isExist {
 		value := name.value
 		if len(value) > 0 {
-			return EscapeIfNecessary(value)
+			return quoteIfNecessary(value)
 		}
 		return renderer.guid.String()
 	}
@@ -197,10 +197,18 @@ func escapeName(name string) string {
 }
 
 func EscapeIfNecessary(name string) string {
-	if len(strings.TrimSpace(name)) == 0 || isIdentifier(name) {
+	if len(strings.TrimSpace(name)) == 0 {
 		return name
 	}
-	return "`" + strings.ReplaceAll(name, "`", "``") + "`"
+	return quoteIfNecessary(name)
+}
+
+// names that consist of blanks are names, too
+func quoteIfNecessary(name string) string {
+	if name == "" || isIdentifier(name) {
+		return name
+	}
+	return escapeName(name)
 }
 
 func isIdentifier(name string) bool {
diff --git a/entry_expression.go b/entry_expression.go
index 9e602d4..1a794c1 100644
--- a/entry_expression.go
+++ b/entry_expression.go
@@ -60,7 +60,7 @@ func (e EntryExpression) accept(visitor *CypherRenderer) {
 }
 
 func (e EntryExpression) enter(renderer *CypherRenderer) {
-	renderer.append(EscapeIfNecessary(e.Key))
+	renderer.append(quoteIfNecessary(e.Key))
 	renderer.append(": ")
 }
 
diff --git a/key_value_map_entry.go b/key_value_map_entry.go
index 738d463..c09a947 100644
--- a/key_value_map_entry.go
+++ b/key_value_map_entry.go
@@ -44,7 +44,7 @@ func (k KeyValueMapEntry) accept(visitor *CypherRenderer) {
 }
 
 func (k KeyValueMapEntry) enter(renderer *CypherRenderer) {
-	renderer.append(EscapeIfNecessary(k.entryKey)).append(": ")
+	renderer.append(quoteIfNecessary(k.entryKey)).append(": ")
 }
 
 func (k KeyValueMapEntry) leave(renderer *CypherRenderer) {
diff --git a/parameter.go b/parameter.go
index cb6ef73..9af6467 100644
--- a/parameter.go
+++ b/parameter.go
@@ -54,10 +54,10 @@ func escapeParameterName(name string) string {
 	segments := strings.Split(name, ".")
 	for i, segment := range segments {
 		if segment == "" {
-			return EscapeIfNecessary(name)
+			return quoteIfNecessary(name)
 		}
 		if i > 0 || strings.Trim(segment, "0123456789") != "" {
-			segments[i] = EscapeIfNecessary(segment)
+			segments[i] = quoteIfNecessary(segment)
 		}
 	}
 	return strings.Join(segments, ".")
diff --git a/procedure_name.go b/procedure_name.go
index 68e774d..39bacb2 100644
--- a/procedure_name.go
+++ b/procedure_name.go
@@ -63,7 +63,7 @@ func (p ProcedureName) getQualifiedName() string {
 func escapeQualifiedName(name string) string {
 	parts := strings.Split(name, ".")
 	for i, part := range parts {
-		parts[i] = EscapeIfNecessary(part)
+		parts[i] = quoteIfNecessary(part)
 	}
 	return strings.Join(parts, ".")
 }
diff --git a/property_lookup.go b/property_lookup.go
index b154772..2eab8d5 100644
--- a/property_lookup.go
+++ b/property_lookup.go
@@ -36,7 +36,7 @@ func (p PropertyLookup) enter(renderer *CypherRenderer) {
 		renderer.append(p.GetPropertyKeyName())
 		return
 	}
-	renderer.append(EscapeIfNecessary(p.GetPropertyKeyName()))
+	renderer.append(quoteIfNecessary(p.GetPropertyKeyName()))
 }
 
 func (p PropertyLookup) leave(renderer *CypherRenderer) {
diff --git a/unwind.go b/unwind.go
index c10ef34..b36605a 100644
--- a/unwind.go
+++ b/unwind.go
@@ -55,7 +55,7 @@ func (u UnwindPhrase) enter(renderer *CypherRenderer) {
 
 func (u UnwindPhrase) leave(renderer *CypherRenderer) {
 	renderer.append(" AS ")
-	renderer.append(EscapeIfNecessary(u.variable))
+	renderer.append(quoteIfNecessary(u.variable))
 	renderer.append(" ")
 }
 
-- 
2.43.0


From 813cbf986bc9e8fa22b6573041f52cf63c06e96b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:36 +0000
Subject: [PATCH 25/48] fix: predicate functions are rendered by their alias
 once they have one

---
 boolean_function_condition.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/boolean_function_condition.go b/boolean_function_condition.go
index bf9b4eb..af87db2 100644
--- a/boolean_function_condition.go
+++ b/boolean_function_condition.go
@@ -32,7 +32,9 @@ func (b BooleanFunctionCondition) GetError() error {
 }
 
 func (b BooleanFunctionCondition) accept(visitor *CypherRenderer) {
+	visitor.enter(b)
 	b.delegate.accept(visitor)
+	visitor.leave(b)
 }
 
 func (b BooleanFunctionCondition) enter(renderer *CypherRenderer) {
-- 
2.43.0


From 7a6c84c8b6e2dcfb51c64c91a025ea78d4da2118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:36 +0000
Subject: [PATCH 26/48] fix: empty labels in conditions and updates are errors
 instead of being dropped

---
 has_label_condition.go | 3 +++
 operation.go           | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/has_label_condition.go b/has_label_condition.go
index 2c0c26f..f40d987 100644
--- a/has_label_condition.go
+++ b/has_label_condition.go
@@ -23,6 +23,9 @@ func HasLabelConditionCreate(nodeName SymbolicName, labels ...string) HasLabelCo
 	}
 	nodeLabels := make([]NodeLabel, len(labels))
 	for i := range labels {
+		if labels[i] == "" {
+			return HasLabelConditionError(errors.New("empty label is not allowed"))
+		}
 		nodeLabels[i] = NodeLabelCreate(labels[i])
 	}
 	hasLabelCondition := HasLabelCondition{
diff --git a/operation.go b/operation.go
index ae90393..adb2f7b 100644
--- a/operation.go
+++ b/operation.go
@@ -96,6 +96,9 @@ func OperationCreate2(op1 Node, operator Operator, nodeLabels ...string) Operati
 	}
 	labels := make([]NodeLabel, 0)
 	for _, nodeLabel := range nodeLabels {
+		if nodeLabel == "" {
+			return OperationError(errors.New("empty label is not allowed"))
+		}
 		labels = append(labels, NodeLabelCreate(nodeLabel))
 	}
 	o := Operation{
-- 
2.43.0


From ca96bbfdd9665569a3ab9fdfa8c8cce8b477f643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:39 +0000
Subject: [PATCH 27/48] fix: patterns can be joined to the empty condition, as
 conditions can

---
 compound_condition.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/compound_condition.go b/compound_condition.go
index e6f75dc..f05eed6 100644
--- a/compound_condition.go
+++ b/compound_condition.go
@@ -131,6 +131,18 @@ func (c CompoundCondition) Xor(condition Condition) ConditionContainer {
 	return ConditionWrap(c.add(XOR, condition))
 }
 
+func (c CompoundCondition) AndPattern(pathPattern RelationshipPattern) ConditionContainer {
+	return c.And(RelationshipPatternConditionCreate(pathPattern))
+}
+
+func (c CompoundCondition) OrPattern(pathPattern RelationshipPattern) ConditionContainer {
+	return c.Or(RelationshipPatternConditionCreate(pathPattern))
+}
+
+func (c CompoundCondition) XorPattern(pathPattern RelationshipPattern) ConditionContainer {
+	return c.Xor(RelationshipPatternConditionCreate(pathPattern))
+}
+
 func (c *CompoundCondition) injectKey() {
 	c.key = getAddress(c)
 }
-- 
2.43.0


From 6d2b6521142c248c1aa19c0f66dc2579c23ea46b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:04 +0000
Subject: [PATCH 28/48] fix: the arguments of a call do not share the slice
 they were given

---
 in_query_call_builder.go | 2 +-
 procedure_call.go        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/in_query_call_builder.go b/in_query_call_builder.go
index 0725906..1903059 100644
--- a/in_query_call_builder.go
+++ b/in_query_call_builder.go
@@ -80,7 +80,7 @@ func (i InQueryCallBuilder) Build() (Statement, error) {
 }
 
 func (i InQueryCallBuilder) WithArgs(arguments ...Expression) OngoingInQueryCallWithArguments {
-	i.arguments = arguments
+	i.arguments = append([]Expression{}, arguments...)
 	return i
 }
 
diff --git a/procedure_call.go b/procedure_call.go
index c33a21d..4cc427a 100644
--- a/procedure_call.go
+++ b/procedure_call.go
@@ -233,7 +233,7 @@ func (s StandaloneCallBuilder) AsFunction() Expression {
 }
 
 func (s StandaloneCallBuilder) WithArgs(arguments ...Expression) OngoingStandaloneCallWithoutArguments {
-	s.arguments = arguments
+	s.arguments = append([]Expression{}, arguments...)
 	return s
 }
 
-- 
2.43.0


From 063fc03cc4887429849799d9cbfc315ef04683f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:39 +0000
Subject: [PATCH 29/48] fix: literals that are lists can be aliased, and used
 in operations, like any other expression

---
 list_literal.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/list_literal.go b/list_literal.go
index b3200a0..647c08d 100644
--- a/list_literal.go
+++ b/list_literal.go
@@ -24,10 +24,10 @@ func ListLiteralCreate(contents []Literal) ListLiteral {
 	}
 	list := ListLiteral{
 		content: append([]Literal{}, contents...),
+		notNil:  true,
 	}
 	list.key = getAddress(&list)
 	list.ExpressionContainer = ExpressionWrap(list)
-	list.notNil = true
 	return list
 }
 
@@ -43,15 +43,16 @@ func (l ListLiteral) GetError() error {
 
 func (l ListLiteral) accept(visitor *CypherRenderer) {
 	visitor.enter(l)
-	for i, literal := range l.content {
-		if(i > 0) {
-			visitor.append(", ")
-		}
-		literal.accept(visitor)
+	for _, literal := range l.content {
+		l.PrepareVisit(literal).accept(visitor)
 	}
 	visitor.leave(l)
 }
 
+func (l ListLiteral) PrepareVisit(child Visitable) Visitable {
+	return child
+}
+
 func (l ListLiteral) enter(renderer *CypherRenderer) {
 	renderer.append("[")
 }
-- 
2.43.0


From e4ae3634d3330e469ddd03ee8c92eda8e94f61e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:45 +0000
Subject: [PATCH 30/48] fix: a property that is named * is quoted, other than
 the wildcard of a projection

---
 map_projection.go  |  2 +-
 property_lookup.go | 14 +++++++++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/map_projection.go b/map_projection.go
index 6a63261..574effd 100644
--- a/map_projection.go
+++ b/map_projection.go
@@ -142,7 +142,7 @@ func createNewContent(content ...interface{}) ([]Expression, error) {
 		}
 
 		if _, isAsterisk := lastExpression.(Asterisk); isAsterisk {
-			lastExpression = PropertyLookupCreate("*")
+			lastExpression = propertyLookupWildcard()
 		}
 		var entry Expression
 		if lastKey != "" {
diff --git a/property_lookup.go b/property_lookup.go
index 2eab8d5..29a914c 100644
--- a/property_lookup.go
+++ b/property_lookup.go
@@ -3,6 +3,7 @@ package cypher
 type PropertyLookup struct {
 	ExpressionContainer
 	propertyKeyName string
+	wildcard        bool
 	key             string
 	notNil          bool
 	err             error
@@ -17,6 +18,17 @@ func PropertyLookupCreate(name string) PropertyLookup {
 	return property
 }
 
+// propertyLookupWildcard looks up all of the properties, which is not the same as the property with the name *.
+func propertyLookupWildcard() PropertyLookup {
+	property := PropertyLookup{
+		propertyKeyName: ASTERISK.content,
+		wildcard:        true,
+	}
+	property.key = getAddress(&property)
+	property.ExpressionContainer = ExpressionWrap(property)
+	return property
+}
+
 func (p PropertyLookup) GetError() error {
 	return p.err
 }
@@ -32,7 +44,7 @@ func (p PropertyLookup) accept(visitor *CypherRenderer) {
 
 func (p PropertyLookup) enter(renderer *CypherRenderer) {
 	renderer.append(".")
-	if ASTERISK.content == p.GetPropertyKeyName() {
+	if p.wildcard {
 		renderer.append(p.GetPropertyKeyName())
 		return
 	}
-- 
2.43.0


From db06ae59ee8a09c5df6e7a9a9f4d81b66a1ec540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:49 +0000
Subject: [PATCH 31/48] fix: SET, REMOVE and DELETE without anything to change
 are errors

---
 default_statement_builder.go | 3 +++
 updating_clause_builder.go   | 5 +++++
 2 files changed, 8 insertions(+)

diff --git a/default_statement_builder.go b/default_statement_builder.go
index 40f6b16..0aa9217 100644
--- a/default_statement_builder.go
+++ b/default_statement_builder.go
@@ -695,6 +695,9 @@ func getUpdatingClauseBuilder(updateType UpdateType, patternOrExpression ...Visi
 			}
 			expressions = append(expressions, visitable.(Expression))
 		}
+		if len(expressions) == 0 {
+			return RemoveBuilder{}, xerrors.New("at least one expression is required")
+		}
 		var expressionList ExpressionList
 		if updateType == UPDATE_TYPE_SET {
 			preparedExpression, err := prepareSetExpression(expressions)
diff --git a/updating_clause_builder.go b/updating_clause_builder.go
index 97f3ca2..2aeb603 100644
--- a/updating_clause_builder.go
+++ b/updating_clause_builder.go
@@ -1,5 +1,7 @@
 package cypher
 
+import "errors"
+
 type UpdatingClauseBuilder interface {
 	build() UpdatingClause
 }
@@ -20,6 +22,9 @@ func MergeBuilderCreate(patternElements []PatternElement) MergeBuilder {
 }
 
 func (c MergeBuilder) on(mergeType MERGE_TYPE, expressions ...Expression) (SupportsActionsOnTheUpdatingClause, error) {
+	if len(expressions) == 0 {
+		return MergeBuilder{}, errors.New("at least one expression is required")
+	}
 	expression, err := prepareSetExpression(expressions)
 	if err != nil {
 		return MergeBuilder{}, err
-- 
2.43.0


From f3c8ca05a89f7541a80afde14dcddd071258db74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:04 +0000
Subject: [PATCH 32/48] fix: the errors of arguments are kept when the
 arguments are replaced

---
 procedure_call.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/procedure_call.go b/procedure_call.go
index 4cc427a..bbabcf1 100644
--- a/procedure_call.go
+++ b/procedure_call.go
@@ -233,6 +233,9 @@ func (s StandaloneCallBuilder) AsFunction() Expression {
 }
 
 func (s StandaloneCallBuilder) WithArgs(arguments ...Expression) OngoingStandaloneCallWithoutArguments {
+	if s.err == nil {
+		s.err = ArgumentsCreate(arguments).GetError()
+	}
 	s.arguments = append([]Expression{}, arguments...)
 	return s
 }
-- 
2.43.0


From 472ed289811fdbfccfa1e048eb324f65f46e3b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:07 +0000
Subject: [PATCH 33/48] fix: an absent condition is none for a list
 comprehension and an error for a list predicate

---
 condition_builder.go  | 13 +++++++++----
 list_comprehension.go |  2 +-
 predicates.go         |  2 +-
 3 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/condition_builder.go b/condition_builder.go
index 3fbd18a..0419b31 100644
--- a/condition_builder.go
+++ b/condition_builder.go
@@ -38,14 +38,19 @@ func (c *ConditionBuilder) canJoin(additionalCondition Condition) bool {
 }
 
 func (c *ConditionBuilder) hasCondition() bool {
-	if c.condition == nil {
+	return isCondition(c.condition)
+}
+
+// isCondition tells whether there is something to render for the condition, or an error to report.
+func isCondition(condition Condition) bool {
+	if condition == nil {
 		return false
 	}
-	if c.condition.GetError() != nil {
+	if condition.GetError() != nil {
 		return true
 	}
-	compound, isCompound := c.condition.(CompoundCondition)
-	return c.condition.isNotNil() && (!isCompound || compound.hasCondition())
+	compound, isCompound := condition.(CompoundCondition)
+	return condition.isNotNil() && (!isCompound || compound.hasCondition())
 }
 
 func (c *ConditionBuilder) buildCondition() Condition {
diff --git a/list_comprehension.go b/list_comprehension.go
index cace533..3cf7720 100644
--- a/list_comprehension.go
+++ b/list_comprehension.go
@@ -148,7 +148,7 @@ func (l ListComprehensionBuilder) ReturningDefault() ListComprehension {
 
 func (l ListComprehensionBuilder) Where(condition Condition) OngoingDefinitionWithoutReturn {
 	l.where = Where{}
-	if condition != nil && (condition.isNotNil() || condition.GetError() != nil) {
+	if isCondition(condition) {
 		l.where = WhereCreate(condition)
 	}
 	return l
diff --git a/predicates.go b/predicates.go
index cc725cc..aaa86b8 100644
--- a/predicates.go
+++ b/predicates.go
@@ -93,7 +93,7 @@ func (p PredicateBuilder) Where(condition Condition) Condition {
 	if condition != nil && condition.GetError() != nil {
 		return BooleanFunctionConditionError(condition.GetError())
 	}
-	if condition == nil || !condition.isNotNil() {
+	if !isCondition(condition) {
 		return BooleanFunctionConditionError(xerrors.New("predicate builder where: the condition is required"))
 	}
 	return BooleanFunctionConditionCreate(FunctionInvocationCreate(p.predicate, ListPredicateCreate(p.name, p.listExpression, WhereCreate(condition))))
-- 
2.43.0


From f5e67b4a247f84e39e01ce68627c37222d7bcf9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:12 +0000
Subject: [PATCH 34/48] fix: a MATCH without a pattern element is an error

---
 pattern.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pattern.go b/pattern.go
index dcc9396..5ac13ae 100644
--- a/pattern.go
+++ b/pattern.go
@@ -1,5 +1,7 @@
 package cypher
 
+import "errors"
+
 type Pattern struct {
 	patternElements []PatternElement
 	key             string
@@ -8,8 +10,14 @@ type Pattern struct {
 }
 
 func PatternCreate(patternElements []PatternElement) Pattern {
+	if len(patternElements) == 0 {
+		return Pattern{err: errors.New("pattern: at least one pattern element is required")}
+	}
 	for _, element := range patternElements {
-		if element != nil && element.GetError() != nil {
+		if element == nil {
+			return Pattern{err: errors.New("pattern: a pattern element must not be nil")}
+		}
+		if element.GetError() != nil {
 			return Pattern{err: element.GetError()}
 		}
 	}
-- 
2.43.0


From 9322b551510d429051d102761436fd7fe92099b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:23 +0000
Subject: [PATCH 35/48] fix: a negative SKIP or LIMIT is an error

---
 limit.go | 3 +++
 skip.go  | 5 +++++
 2 files changed, 8 insertions(+)

diff --git a/limit.go b/limit.go
index 5a5fd5c..4895f71 100644
--- a/limit.go
+++ b/limit.go
@@ -13,6 +13,9 @@ func LimitCreate(number int) Limit {
 	if number == 0 {
 		return LimitError(errors.New("limit can not be zero"))
 	}
+	if number < 0 {
+		return LimitError(errors.New("limit can not be negative"))
+	}
 	literal := NumberLiteralCreate1(number)
 	l := Limit{limitAmount: literal, notNil: true}
 	l.key = getAddress(&l)
diff --git a/skip.go b/skip.go
index 55748c9..590eb62 100644
--- a/skip.go
+++ b/skip.go
@@ -1,5 +1,7 @@
 package cypher
 
+import "errors"
+
 type Skip struct {
 	skipAmount NumberLiteral
 	key        string
@@ -8,6 +10,9 @@ type Skip struct {
 }
 
 func SkipCreate(number int) Skip {
+	if number < 0 {
+		return Skip{err: errors.New("skip can not be negative")}
+	}
 	literal := NumberLiteralCreate1(number)
 	skip := Skip{skipAmount: literal, notNil: true}
 	skip.key = getAddress(&skip)
-- 
2.43.0


From 8d69ff7edbb778d450d97607fd10e9344d0b2451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:28 +0000
Subject: [PATCH 36/48] fix: a negative length of a relationship is an error

---
 relationship_length.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/relationship_length.go b/relationship_length.go
index 25e1455..70c646c 100644
--- a/relationship_length.go
+++ b/relationship_length.go
@@ -1,6 +1,9 @@
 package cypher
 
-import "strconv"
+import (
+	"errors"
+	"strconv"
+)
 
 type RelationshipLength struct {
 	minimum   *int
@@ -21,6 +24,9 @@ func RelationshipLengthCreate(unbounded bool) RelationshipLength {
 }
 
 func RelationshipLengthCreate1(minimum *int, maximum *int) RelationshipLength {
+	if (minimum != nil && *minimum < 0) || (maximum != nil && *maximum < 0) {
+		return RelationshipLength{err: errors.New("the length of a relationship can not be negative")}
+	}
 	r := RelationshipLength{
 		minimum:   minimum,
 		maximum:   maximum,
-- 
2.43.0


From 3b91dbf93bff09d772fde66ac081d1eeec0e9f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:56 +0000
Subject: [PATCH 37/48] fix: WITH and RETURN without an expression are errors

---
 default_statement_builder.go     |  6 ++++++
 default_statement_with_update.go | 12 ++++++++++--
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/default_statement_builder.go b/default_statement_builder.go
index 0aa9217..13469e9 100644
--- a/default_statement_builder.go
+++ b/default_statement_builder.go
@@ -203,6 +203,9 @@ func (d DefaultStatementBuilder) WithDefault(distinct bool, expressions ...Expre
 			return DefaultStatementWithWithBuilderError(expression.GetError())
 		}
 	}
+	if len(expressions) == 0 {
+		return DefaultStatementWithWithBuilderError(errors.New("with: at least one expression is required"))
+	}
 	ongoingMatchAndWith := DefaultStatementWithWithBuilderCreate(&d, distinct)
 	ongoingMatchAndWith.addExpression(expressions...)
 	return ongoingMatchAndWith
@@ -587,6 +590,9 @@ func (d DefaultStatementBuilder) ReturningDefault(distinct bool, expressions ...
 			return DefaultStatementWithReturnBuilderError(expression.GetError())
 		}
 	}
+	if len(expressions) == 0 {
+		return DefaultStatementWithReturnBuilderError(errors.New("returning: at least one expression is required"))
+	}
 	withReturnBuilder := DefaultStatementWithReturnBuilder{
 		distinct:       distinct,
 		defaultBuilder: &d,
diff --git a/default_statement_with_update.go b/default_statement_with_update.go
index d209c04..78301b1 100644
--- a/default_statement_with_update.go
+++ b/default_statement_with_update.go
@@ -1,5 +1,7 @@
 package cypher
 
+import "errors"
+
 type DefaultStatementWithUpdateBuilder struct {
 	defaultBuilder *DefaultStatementBuilder
 	returnList     []Expression
@@ -134,6 +136,13 @@ func (d DefaultStatementWithUpdateBuilder) ReturningByNamed(variables ...Named)
 }
 
 func (d DefaultStatementWithUpdateBuilder) Returning(expression ...Expression) OngoingReadingAndReturn {
+	return d.returning(expression...)
+}
+
+func (d DefaultStatementWithUpdateBuilder) returning(expression ...Expression) DefaultStatementWithUpdateBuilder {
+	if d.err == nil && len(expression) == 0 {
+		d.err = errors.New("returning: at least one expression is required")
+	}
 	d.returnList = append(d.returnList[:len(d.returnList):len(d.returnList)], expression...)
 	return d
 }
@@ -147,9 +156,8 @@ func (d DefaultStatementWithUpdateBuilder) ReturningDistinctByNamed(variables ..
 }
 
 func (d DefaultStatementWithUpdateBuilder) ReturningDistinct(expression ...Expression) OngoingReadingAndReturn {
-	d.returnList = append(d.returnList[:len(d.returnList):len(d.returnList)], expression...)
 	d.distinct = true
-	return d
+	return d.returning(expression...)
 }
 
 func (d DefaultStatementWithUpdateBuilder) WithByString(variables ...string) OrderableOngoingReadingAndWithWithoutWhere {
-- 
2.43.0


From 68ef790c0c22d43440017d80545a49366aa3f181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:05 +0000
Subject: [PATCH 38/48] fix: a float beyond the 64 bit integers is not written
 as an integer

---
 number_literal.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/number_literal.go b/number_literal.go
index 0bf6a44..61c6183 100644
--- a/number_literal.go
+++ b/number_literal.go
@@ -79,7 +79,9 @@ func (n NumberLiteral) AsString() string {
 		return ""
 	}
 	exponent := n.content.MantExp(nil)
-	if n.content.Sign() == 0 || (exponent > -20 && exponent <= 64) {
+	_, accuracy := n.content.Int64()
+	outOfRange := n.content.IsInt() && accuracy != big.Exact // an integer in Cypher has 64 bits
+	if n.content.Sign() == 0 || (exponent > -20 && exponent <= 64 && !outOfRange) {
 		return n.content.Text('f', -1)
 	}
 	// an exponent in Cypher has no plus sign
-- 
2.43.0


From aece7bae073b0200c5df36a4962922468704088d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:26 +0000
Subject: [PATCH 39/48] fix: a WITH before the match of an existential subquery
 is not dropped

---
 default_statement_builder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/default_statement_builder.go b/default_statement_builder.go
index 13469e9..01f9b5d 100644
--- a/default_statement_builder.go
+++ b/default_statement_builder.go
@@ -417,7 +417,7 @@ func (d DefaultStatementBuilder) AsCondition() Condition {
 	if d.err != nil {
 		return ExistentialSubqueryError(d.err)
 	}
-	if !d.currentOngoingMatch.notNil || len(d.currentSinglePartElements) > 0 {
+	if !d.currentOngoingMatch.notNil || len(d.currentSinglePartElements) > 0 || len(d.multipartElements) > 0 {
 		return ExistentialSubqueryError(errors.New("only simple MATCH statements can be used as existential subqueries"))
 	}
 	return ExistentialSubqueryExists(d.currentOngoingMatch.buildMatch())
-- 
2.43.0


From f4e897c8ab37d48f65c7436d4f4d5417eb56738c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:30 +0000
Subject: [PATCH 40/48] fix: SET keeps computed values with their targets and
 all items in order

---
 default_statement_builder.go | 18 +++++++++++-------
 operation.go                 |  5 +++++
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/default_statement_builder.go b/default_statement_builder.go
index 01f9b5d..73647b6 100644
--- a/default_statement_builder.go
+++ b/default_statement_builder.go
@@ -731,20 +731,24 @@ func getUpdatingClauseBuilder(updateType UpdateType, patternOrExpression ...Visi
 
 func prepareSetExpression(possibleSetOperations []Expression) ([]Expression, error) {
 	propertyOperations := make([]Expression, 0)
-	listOfExpressions := make([]Expression, 0)
+	var target Expression
 	for _, possibleSetOperation := range possibleSetOperations {
-		if operation, isOperation := possibleSetOperation.(Operation); isOperation {
+		if possibleSetOperation == nil {
+			return nil, xerrors.New("an expression is required")
+		}
+		operation, isOperation := possibleSetOperation.(Operation)
+		if isOperation && operation.updatesTarget() {
 			propertyOperations = append(propertyOperations, operation)
+		} else if target == nil {
+			target = possibleSetOperation
 		} else {
-			listOfExpressions = append(listOfExpressions, possibleSetOperation)
+			propertyOperations = append(propertyOperations, OperationSet(target, possibleSetOperation))
+			target = nil
 		}
 	}
-	if len(listOfExpressions)%2 != 0 {
+	if target != nil {
 		return nil, xerrors.New("the list of expression to OperationSet must be even")
 	}
-	for i := 0; i < len(listOfExpressions); i += 2 {
-		propertyOperations = append(propertyOperations, OperationSet(listOfExpressions[i], listOfExpressions[i+1]))
-	}
 	return propertyOperations, nil
 }
 
diff --git a/operation.go b/operation.go
index adb2f7b..debffd6 100644
--- a/operation.go
+++ b/operation.go
@@ -177,3 +177,8 @@ func (o Operation) needsGrouping() bool {
 	return (o.operator.operatorType != PROPERTY && o.operator.operatorType != LABEL) &&
 		(o.operator != EXPONENTIATION && o.operator != PIPE)
 }
+
+// updatesTarget is true for the operations that are an item of SET or REMOVE, other than those that compute a value.
+func (o Operation) updatesTarget() bool {
+	return o.operator.operatorType == PROPERTY || o.operator.operatorType == LABEL
+}
-- 
2.43.0


From 50d9947dd0427b2000e9f7391ddd9dd86af7c23e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:12 +0000
Subject: [PATCH 41/48] fix: a WITH can be continued after its SKIP

---
 statement_builder.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/statement_builder.go b/statement_builder.go
index 13d39ea..644b9bd 100644
--- a/statement_builder.go
+++ b/statement_builder.go
@@ -69,6 +69,8 @@ type OngoingUpdate interface {
 }
 
 type ExposesLimitAndOngoingReadingAndWith interface {
+	ExposesLimit
+	OngoingReadingAndWith
 }
 
 type OrderableOngoingReadingAndWithWithoutWhere interface {
-- 
2.43.0


From b74f97ae8eab56af51696ff43f6857ee24ddf179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:17 +0000
Subject: [PATCH 42/48] fix: the name of a function is quoted where necessary

---
 function_invocation.go | 8 ++++++++
 procedure_call.go      | 2 +-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/function_invocation.go b/function_invocation.go
index 6e18a27..9a84d89 100644
--- a/function_invocation.go
+++ b/function_invocation.go
@@ -18,6 +18,14 @@ func FunctionInvocationCreate1(definition FunctionDefinition) FunctionInvocation
 }
 
 func FunctionInvocationCreateWithFunctionName(functionName string, arguments ...Expression) FunctionInvocation {
+	if functionName == "" {
+		return FunctionInvocationError(errors.New("function invocation create: the name of the function is required"))
+	}
+	return functionInvocationOfQualifiedName(escapeQualifiedName(functionName), arguments...)
+}
+
+// functionInvocationOfQualifiedName takes a name that is escaped already.
+func functionInvocationOfQualifiedName(functionName string, arguments ...Expression) FunctionInvocation {
 	for _, expression := range arguments {
 		if expression == nil {
 			return FunctionInvocationError(errors.Errorf("function invocation create: an argument of %s is nil", functionName))
diff --git a/procedure_call.go b/procedure_call.go
index bbabcf1..731d3a7 100644
--- a/procedure_call.go
+++ b/procedure_call.go
@@ -229,7 +229,7 @@ func (s StandaloneCallBuilder) AsFunction() Expression {
 	if s.procedureName.GetError() != nil {
 		return FunctionInvocationError(s.procedureName.GetError())
 	}
-	return FunctionInvocationCreateWithFunctionName(s.procedureName.getQualifiedName(), s.arguments...)
+	return functionInvocationOfQualifiedName(s.procedureName.getQualifiedName(), s.arguments...)
 }
 
 func (s StandaloneCallBuilder) WithArgs(arguments ...Expression) OngoingStandaloneCallWithoutArguments {
-- 
2.43.0


From 4c039204736963ac54c8f8f50a58108e1eb458a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:39 +0000
Subject: [PATCH 43/48] fix: failed maps, nodes, relationships and paths stay
 failed when entries are added or their name is used

---
 map_expression.go | 3 +++
 name_path.go      | 6 ++++++
 node.go           | 6 ++++++
 relationship.go   | 6 ++++++
 4 files changed, 21 insertions(+)

diff --git a/map_expression.go b/map_expression.go
index fa78d6f..054c294 100644
--- a/map_expression.go
+++ b/map_expression.go
@@ -90,6 +90,9 @@ func (m MapExpression) leave(renderer *CypherRenderer) {
 }
 
 func (m MapExpression) AddEntries(entries []Expression) MapExpression {
+	if m.GetError() != nil {
+		return m
+	}
 	newContent := make([]Expression, len(m.expressions)+len(entries))
 	for i := range m.expressions {
 		newContent[i] = m.expressions[i]
diff --git a/name_path.go b/name_path.go
index e19e3f3..d6a985c 100644
--- a/name_path.go
+++ b/name_path.go
@@ -85,6 +85,9 @@ func (n NamedPath) GetError() error {
 }
 
 func (n NamedPath) GetRequiredSymbolicName() SymbolicName {
+	if n.err != nil {
+		return SymbolicNameError(n.err)
+	}
 	if n.name.isNotNil() {
 		return n.name
 	}
@@ -92,6 +95,9 @@ func (n NamedPath) GetRequiredSymbolicName() SymbolicName {
 }
 
 func (n NamedPath) GetSymbolicName() SymbolicName {
+	if n.err != nil {
+		return SymbolicNameError(n.err)
+	}
 	return n.name
 }
 
diff --git a/node.go b/node.go
index 5f71324..390e4d6 100644
--- a/node.go
+++ b/node.go
@@ -110,6 +110,9 @@ func NodeError(err error) Node {
 }
 
 func (node Node) GetRequiredSymbolicName() SymbolicName {
+	if node.err != nil {
+		return SymbolicNameError(node.err)
+	}
 	if node.symbolicName.isNotNil() {
 		return node.symbolicName
 	}
@@ -117,6 +120,9 @@ func (node Node) GetRequiredSymbolicName() SymbolicName {
 }
 
 func (node Node) GetSymbolicName() SymbolicName {
+	if node.err != nil {
+		return SymbolicNameError(node.err)
+	}
 	return node.symbolicName
 }
 
diff --git a/relationship.go b/relationship.go
index f8c6af3..45c5e68 100644
--- a/relationship.go
+++ b/relationship.go
@@ -67,6 +67,9 @@ func (r Relationship) isNotNil() bool {
 }
 
 func (r Relationship) GetRequiredSymbolicName() SymbolicName {
+	if r.err != nil {
+		return SymbolicNameError(r.err)
+	}
 	if r.details.symbolicName.isNotNil() {
 		return r.details.symbolicName
 	}
@@ -74,6 +77,9 @@ func (r Relationship) GetRequiredSymbolicName() SymbolicName {
 }
 
 func (r Relationship) GetSymbolicName() SymbolicName {
+	if r.err != nil {
+		return SymbolicNameError(r.err)
+	}
 	return r.details.symbolicName
 }
 
-- 
2.43.0


From 6a87cb102080fafdef867819db14e5065532d328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:23 +0000
Subject: [PATCH 44/48] fix: a dot in the last of several parts of a procedure
 name is part of that name

---
 procedure_name.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/procedure_name.go b/procedure_name.go
index 39bacb2..256f4a0 100644
--- a/procedure_name.go
+++ b/procedure_name.go
@@ -54,7 +54,7 @@ func ProcedureNameCreate2(namespace Namespace, value string) ProcedureName {
 
 func (p ProcedureName) getQualifiedName() string {
 	if p.optionalNamespace.isNotNil() {
-		return p.optionalNamespace.AsString() + "." + escapeQualifiedName(p.value)
+		return p.optionalNamespace.AsString() + "." + quoteIfNecessary(p.value)
 	}
 	return escapeQualifiedName(p.value)
 }
-- 
2.43.0


From 30250256fe8781de325f15f7b2586d95699191a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:28 +0000
Subject: [PATCH 45/48] fix: every null literal made from nil is an element of
 its own

---
 cypher.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cypher.go b/cypher.go
index e3c9a74..1a4c9de 100644
--- a/cypher.go
+++ b/cypher.go
@@ -538,7 +538,7 @@ func CypherValueAtByExpression(targetExpression Expression, index Expression) Ex
 func LiteralOf(object interface{}) Literal {
 	//TODO: maybe we need to handle more literal type
 	if object == nil {
-		return NIL_INSTANCE
+		return NullLiteralCreate()
 	}
 	if stringValue, isString := object.(string); isString {
 		return StringLiteralCreate(stringValue)
-- 
2.43.0


From ec6e409f911e05f6660cc04821782e76d83e4a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:31 +0000
Subject: [PATCH 46/48] fix: empty map keys and failed entries of map
 projections are errors; parts of a namespace keep their dots

---
 key_value_map_entry.go | 3 +++
 map_projection.go      | 3 +++
 name_space.go          | 2 +-
 3 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/key_value_map_entry.go b/key_value_map_entry.go
index c09a947..1211556 100644
--- a/key_value_map_entry.go
+++ b/key_value_map_entry.go
@@ -12,6 +12,9 @@ type KeyValueMapEntry struct {
 }
 
 func KeyValueMapEntryCreate(key string, value Expression) KeyValueMapEntry {
+	if key == "" {
+		return KeyValueMapEntryError(errors.New("a map entry needs a key"))
+	}
 	if value == nil {
 		return KeyValueMapEntryError(errors.New("a map entry needs a value"))
 	}
diff --git a/map_projection.go b/map_projection.go
index 574effd..f4a88d2 100644
--- a/map_projection.go
+++ b/map_projection.go
@@ -140,6 +140,9 @@ func createNewContent(content ...interface{}) ([]Expression, error) {
 			lastExpression = anExpression
 			i += 1
 		}
+		if lastExpression != nil && lastExpression.GetError() != nil {
+			return nil, lastExpression.GetError()
+		}
 
 		if _, isAsterisk := lastExpression.(Asterisk); isAsterisk {
 			lastExpression = propertyLookupWildcard()
diff --git a/name_space.go b/name_space.go
index 020f663..09a97a8 100644
--- a/name_space.go
+++ b/name_space.go
@@ -57,7 +57,7 @@ func (n Namespace) GetContent() interface{} {
 func (n Namespace) AsString() string {
 	parts := make([]string, len(n.content))
 	for i := range n.content {
-		parts[i] = escapeQualifiedName(n.content[i])
+		parts[i] = quoteIfNecessary(n.content[i])
 	}
 	return strings.Join(parts, ".")
 }
-- 
2.43.0


From b7891b6445c6f8911ad56dd8f28148b165dc689d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:09 +0000
Subject: [PATCH 47/48] fix: a relationship that failed stays failed when its
 details are changed

---
 relationship_details.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/relationship_details.go b/relationship_details.go
index ae278cf..f9c3223 100644
--- a/relationship_details.go
+++ b/relationship_details.go
@@ -90,6 +90,9 @@ func (r RelationshipDetails) getKey() string {
 }
 
 func (r RelationshipDetails) namedByString(newNamed string) RelationshipDetails {
+	if r.err != nil {
+		return r
+	}
 	if newNamed == "" {
 		return RelationshipDetailsError(errors.New("symbolic name is required"))
 	}
@@ -97,6 +100,9 @@ func (r RelationshipDetails) namedByString(newNamed string) RelationshipDetails
 }
 
 func (r RelationshipDetails) named(newSymbolicName SymbolicName) RelationshipDetails {
+	if r.err != nil {
+		return r
+	}
 	if !newSymbolicName.isNotNil() {
 		return RelationshipDetailsError(errors.New("symbolic name is required"))
 	}
@@ -104,14 +110,23 @@ func (r RelationshipDetails) named(newSymbolicName SymbolicName) RelationshipDet
 }
 
 func (r RelationshipDetails) with(newProperties Properties) RelationshipDetails {
+	if r.err != nil {
+		return r
+	}
 	return RelationshipDetailsCreate(r.direction, r.symbolicName, r.types, r.length, newProperties)
 }
 
 func (r RelationshipDetails) unbounded() RelationshipDetails {
+	if r.err != nil {
+		return r
+	}
 	return RelationshipDetailsCreate(r.direction, r.symbolicName, r.types, RelationshipLengthCreate(true), r.properties)
 }
 
 func (r RelationshipDetails) min(minimum int) RelationshipDetails {
+	if r.err != nil {
+		return r
+	}
 	newLength := RelationshipLengthCreate1(&minimum, nil)
 	if r.length.isNotNil() {
 		newLength = RelationshipLengthCreate1(&minimum, r.length.maximum)
@@ -120,6 +135,9 @@ func (r RelationshipDetails) min(minimum int) RelationshipDetails {
 }
 
 func (r RelationshipDetails) max(maximum int) RelationshipDetails {
+	if r.err != nil {
+		return r
+	}
 	newLength := RelationshipLengthCreate1(nil, &maximum)
 	if r.length.isNotNil() {
 		newLength = RelationshipLengthCreate1(r.length.minimum, &maximum)
-- 
2.43.0


From 4368d050b1dae0cf474c40ea4740551fd1945ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:01 +0000
Subject: [PATCH 48/48] fix: a nil entry of a map is an error, not a crash

---
 map_expression.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/map_expression.go b/map_expression.go
index 054c294..c9b4d4a 100644
--- a/map_expression.go
+++ b/map_expression.go
@@ -14,7 +14,10 @@ type MapExpression struct {
 
 func MapExpressionCreate(newContents []Expression) MapExpression {
 	for _, content := range newContents {
-		if content != nil && content.GetError() != nil {
+		if content == nil {
+			return MapExpressionError(errors.Errorf("an entry of a map must not be nil"))
+		}
+		if content.GetError() != nil {
 			return MapExpressionError(content.GetError())
 		}
 	}
-- 
2.43.0

