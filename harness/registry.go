package main

// made by tools/mkregistry.py

import (
	"reflect"

	cypher "github.com/manhcuongbk56/cypher-go-dsl"
)

var functions = map[string]reflect.Value{
	"Avg":                              reflect.ValueOf(cypher.Avg),
	"Collect":                          reflect.ValueOf(cypher.Collect),
	"Max":                              reflect.ValueOf(cypher.Max),
	"Min":                              reflect.ValueOf(cypher.Min),
	"StDev":                            reflect.ValueOf(cypher.StDev),
	"StDevP":                           reflect.ValueOf(cypher.StDevP),
	"Sum":                              reflect.ValueOf(cypher.Sum),
	"CountByExpression":                reflect.ValueOf(cypher.CountByExpression),
	"ToLower":                          reflect.ValueOf(cypher.ToLower),
	"Size":                             reflect.ValueOf(cypher.Size),
	"Exists":                           reflect.ValueOf(cypher.Exists),
	"Head":                             reflect.ValueOf(cypher.Head),
	"Last":                             reflect.ValueOf(cypher.Last),
	"Point":                            reflect.ValueOf(cypher.Point),
	"PointByParameter":                 reflect.ValueOf(cypher.PointByParameter),
	"PropertiesByMapExpression":        reflect.ValueOf(cypher.PropertiesByMapExpression),
	"DateWithComponents":               reflect.ValueOf(cypher.DateWithComponents),
	"DateTimeWithComponents":           reflect.ValueOf(cypher.DateTimeWithComponents),
	"LocalDateTimeWithComponents":      reflect.ValueOf(cypher.LocalDateTimeWithComponents),
	"LocalTimeWithComponents":          reflect.ValueOf(cypher.LocalTimeWithComponents),
	"TimeWithComponents":               reflect.ValueOf(cypher.TimeWithComponents),
	"DurationWithComponents":           reflect.ValueOf(cypher.DurationWithComponents),
	"DateWithExpression":               reflect.ValueOf(cypher.DateWithExpression),
	"DateTimeWithExpression":           reflect.ValueOf(cypher.DateTimeWithExpression),
	"LocalDateTimeWithExpression":      reflect.ValueOf(cypher.LocalDateTimeWithExpression),
	"LocalTimeWithExpression":          reflect.ValueOf(cypher.LocalTimeWithExpression),
	"TimeWithExpression":               reflect.ValueOf(cypher.TimeWithExpression),
	"DurationWithExpression":           reflect.ValueOf(cypher.DurationWithExpression),
	"AvgDistinct":                      reflect.ValueOf(cypher.AvgDistinct),
	"CollectDistinct":                  reflect.ValueOf(cypher.CollectDistinct),
	"MaxDistinct":                      reflect.ValueOf(cypher.MaxDistinct),
	"MinDistinct":                      reflect.ValueOf(cypher.MinDistinct),
	"StDevDistinct":                    reflect.ValueOf(cypher.StDevDistinct),
	"StDevPDistinct":                   reflect.ValueOf(cypher.StDevPDistinct),
	"SumDistinct":                      reflect.ValueOf(cypher.SumDistinct),
	"CountDistinctByExpression":        reflect.ValueOf(cypher.CountDistinctByExpression),
	"IdByNode":                         reflect.ValueOf(cypher.IdByNode),
	"Labels":                           reflect.ValueOf(cypher.Labels),
	"Count":                            reflect.ValueOf(cypher.Count),
	"CountDistinct":                    reflect.ValueOf(cypher.CountDistinct),
	"FunctionProperties":               reflect.ValueOf(cypher.FunctionProperties),
	"IdByRelationship":                 reflect.ValueOf(cypher.IdByRelationship),
	"FunctionType":                     reflect.ValueOf(cypher.FunctionType),
	"FunctionPropertiesByRelationship": reflect.ValueOf(cypher.FunctionPropertiesByRelationship),
	"StartNode":                        reflect.ValueOf(cypher.StartNode),
	"EndNode":                          reflect.ValueOf(cypher.EndNode),
	"CollectByNamed":                   reflect.ValueOf(cypher.CollectByNamed),
	"CollectDistinctByNamed":           reflect.ValueOf(cypher.CollectDistinctByNamed),
	"Nodes":                            reflect.ValueOf(cypher.Nodes),
	"Relationships":                    reflect.ValueOf(cypher.Relationships),
	"Date":                             reflect.ValueOf(cypher.Date),
	"Datetime":                         reflect.ValueOf(cypher.Datetime),
	"LocalDatetime":                    reflect.ValueOf(cypher.LocalDatetime),
	"Localtime":                        reflect.ValueOf(cypher.Localtime),
	"Time":                             reflect.ValueOf(cypher.Time),
	"DateWithTemporal":                 reflect.ValueOf(cypher.DateWithTemporal),
	"DateTimeWithTemporal":             reflect.ValueOf(cypher.DateTimeWithTemporal),
	"LocalDateTimeWithTemporal":        reflect.ValueOf(cypher.LocalDateTimeWithTemporal),
	"LocalTimeWithTemporal":            reflect.ValueOf(cypher.LocalTimeWithTemporal),
	"TimeWithTemporal":                 reflect.ValueOf(cypher.TimeWithTemporal),
	"DurationWithTemporal":             reflect.ValueOf(cypher.DurationWithTemporal),
	"LocalDateTimeWithTimezone":        reflect.ValueOf(cypher.LocalDateTimeWithTimezone),
	"LocalTimeWithTimezone":            reflect.ValueOf(cypher.LocalTimeWithTimezone),
	"TimeWithTimeZone":                 reflect.ValueOf(cypher.TimeWithTimeZone),
	"PercentileCont":                   reflect.ValueOf(cypher.PercentileCont),
	"PercentileDisc":                   reflect.ValueOf(cypher.PercentileDisc),
	"PercentileContDistinct":           reflect.ValueOf(cypher.PercentileContDistinct),
	"PercentileDiscDistinct":           reflect.ValueOf(cypher.PercentileDiscDistinct),
	"CalendarDate":                     reflect.ValueOf(cypher.CalendarDate),
	"WeekDate":                         reflect.ValueOf(cypher.WeekDate),
	"QuarterDate":                      reflect.ValueOf(cypher.QuarterDate),
	"OrdinalDate":                      reflect.ValueOf(cypher.OrdinalDate),
	"Coalesce":                         reflect.ValueOf(cypher.Coalesce),
	"Distance":                         reflect.ValueOf(cypher.Distance),
	"Range":                            reflect.ValueOf(cypher.Range),
	"RangeWithStep":                    reflect.ValueOf(cypher.RangeWithStep),
	"RangeRaw":                         reflect.ValueOf(cypher.RangeRaw),
	"RangeWithStepRaw":                 reflect.ValueOf(cypher.RangeWithStepRaw),
	"SizeByPattern":                    reflect.ValueOf(cypher.SizeByPattern),
	"ShortestPath":                     reflect.ValueOf(cypher.ShortestPath),
	"FunctionInvocationCreateWithFunctionName": reflect.ValueOf(cypher.FunctionInvocationCreateWithFunctionName),
	"PredicateExists":                          reflect.ValueOf(cypher.PredicateExists),
	"PredicateExistsByPattern":                 reflect.ValueOf(cypher.PredicateExistsByPattern),
	"PredicateAll":                             reflect.ValueOf(cypher.PredicateAll),
	"PredicateAny":                             reflect.ValueOf(cypher.PredicateAny),
	"PredicateNone":                            reflect.ValueOf(cypher.PredicateNone),
	"PredicateSingle":                          reflect.ValueOf(cypher.PredicateSingle),
	"PredicateAllBySymbolicName":               reflect.ValueOf(cypher.PredicateAllBySymbolicName),
	"PredicateAnyBySymbolicName":               reflect.ValueOf(cypher.PredicateAnyBySymbolicName),
	"PredicateNoneBySymbolicName":              reflect.ValueOf(cypher.PredicateNoneBySymbolicName),
	"PredicateSingleBySymbolicName":            reflect.ValueOf(cypher.PredicateSingleBySymbolicName),
	"ConditionsNot":                            reflect.ValueOf(cypher.ConditionsNot),
	"ConditionsNotByPattern":                   reflect.ValueOf(cypher.ConditionsNotByPattern),
	"ConditionsNoCondition":                    reflect.ValueOf(cypher.ConditionsNoCondition),
	"ConditionsIsTrue":                         reflect.ValueOf(cypher.ConditionsIsTrue),
	"ConditionsIsFalse":                        reflect.ValueOf(cypher.ConditionsIsFalse),
	"ASymbolic":                                reflect.ValueOf(cypher.ASymbolic),
	"SymbolicNameCreate":                       reflect.ValueOf(cypher.SymbolicNameCreate),
	"AParam":                                   reflect.ValueOf(cypher.AParam),
	"ParameterCreate":                          reflect.ValueOf(cypher.ParameterCreate),
	"AProperty":                                reflect.ValueOf(cypher.AProperty),
	"APropertyByExpression":                    reflect.ValueOf(cypher.APropertyByExpression),
	"LiteralOf":                                reflect.ValueOf(cypher.LiteralOf),
	"LiteralTrue":                              reflect.ValueOf(cypher.LiteralTrue),
	"LiteralFalse":                             reflect.ValueOf(cypher.LiteralFalse),
	"AnAsterisk":                               reflect.ValueOf(cypher.AnAsterisk),
	"BooleanLiteralCreate":                     reflect.ValueOf(cypher.BooleanLiteralCreate),
	"NullLiteralCreate":                        reflect.ValueOf(cypher.NullLiteralCreate),
	"StringLiteralCreate":                      reflect.ValueOf(cypher.StringLiteralCreate),
	"NumberLiteralCreate":                      reflect.ValueOf(cypher.NumberLiteralCreate),
	"NumberLiteralCreate1":                     reflect.ValueOf(cypher.NumberLiteralCreate1),
	"NumberLiteralCreate2":                     reflect.ValueOf(cypher.NumberLiteralCreate2),
	"ListLiteralCreate":                        reflect.ValueOf(cypher.ListLiteralCreate),
	"ListOf":                                   reflect.ValueOf(cypher.ListOf),
	"ListOfRaw":                                reflect.ValueOf(cypher.ListOfRaw),
	"MapOf":                                    reflect.ValueOf(cypher.MapOf),
	"NewMapExpression":                         reflect.ValueOf(cypher.NewMapExpression),
	"KeyValueMapEntryCreate":                   reflect.ValueOf(cypher.KeyValueMapEntryCreate),
	"MapProjectionCreate":                      reflect.ValueOf(cypher.MapProjectionCreate),
	"AliasedExpressionCreate":                  reflect.ValueOf(cypher.AliasedExpressionCreate),
	"ANode":                                    reflect.ValueOf(cypher.ANode),
	"AnyNode":                                  reflect.ValueOf(cypher.AnyNode),
	"AnyNodeNamed":                             reflect.ValueOf(cypher.AnyNodeNamed),
	"NewNodeWithLabels":                        reflect.ValueOf(cypher.NewNodeWithLabels),
	"NewNodeWithProperties":                    reflect.ValueOf(cypher.NewNodeWithProperties),
	"APath":                                    reflect.ValueOf(cypher.APath),
	"AShortestPath":                            reflect.ValueOf(cypher.AShortestPath),
	"APathBySymbolic":                          reflect.ValueOf(cypher.APathBySymbolic),
	"AShortestPathBySymbolic":                  reflect.ValueOf(cypher.AShortestPathBySymbolic),
	"ListComprehensionWith":                    reflect.ValueOf(cypher.ListComprehensionWith),
	"CypherListWith":                           reflect.ValueOf(cypher.CypherListWith),
	"ListBasedOn":                              reflect.ValueOf(cypher.ListBasedOn),
	"PatternComprehensionBasedOn":              reflect.ValueOf(cypher.PatternComprehensionBasedOn),
	"ListBasedOnNamed":                         reflect.ValueOf(cypher.ListBasedOnNamed),
	"PatternComprehensionBasedOnNamePath":      reflect.ValueOf(cypher.PatternComprehensionBasedOnNamePath),
	"GenericCaseExpression":                    reflect.ValueOf(cypher.GenericCaseExpression),
	"CaseExpression":                           reflect.ValueOf(cypher.CaseExpression),
	"SubList":                                  reflect.ValueOf(cypher.SubList),
	"ASubList":                                 reflect.ValueOf(cypher.ASubList),
	"SubListFrom":                              reflect.ValueOf(cypher.SubListFrom),
	"ASubListFromByExpression":                 reflect.ValueOf(cypher.ASubListFromByExpression),
	"CypherSubListFrom":                        reflect.ValueOf(cypher.CypherSubListFrom),
	"SubListUntil":                             reflect.ValueOf(cypher.SubListUntil),
	"CypherSubListUntilByExpression":           reflect.ValueOf(cypher.CypherSubListUntilByExpression),
	"ASubListUntil":                            reflect.ValueOf(cypher.ASubListUntil),
	"ValueAt":                                  reflect.ValueOf(cypher.ValueAt),
	"CypherValueAtByExpression":                reflect.ValueOf(cypher.CypherValueAtByExpression),
	"CypherValueAt":                            reflect.ValueOf(cypher.CypherValueAt),
	"OperationSet":                             reflect.ValueOf(cypher.OperationSet),
	"OperationSetLabel":                        reflect.ValueOf(cypher.OperationSetLabel),
	"OperationRemove":                          reflect.ValueOf(cypher.OperationRemove),
	"OperationAdd":                             reflect.ValueOf(cypher.OperationAdd),
	"OperationConcat":                          reflect.ValueOf(cypher.OperationConcat),
	"OperationSubtract":                        reflect.ValueOf(cypher.OperationSubtract),
	"OperationMultiply":                        reflect.ValueOf(cypher.OperationMultiply),
	"OperationDivide":                          reflect.ValueOf(cypher.OperationDivide),
	"OperationRemainder":                       reflect.ValueOf(cypher.OperationRemainder),
	"OperationPow":                             reflect.ValueOf(cypher.OperationPow),
	"Sort":                                     reflect.ValueOf(cypher.Sort),
	"CreateAscendingSortItem":                  reflect.ValueOf(cypher.CreateAscendingSortItem),
	"CreateDescendingSortItem":                 reflect.ValueOf(cypher.CreateDescendingSortItem),
	"CypherReturning":                          reflect.ValueOf(cypher.CypherReturning),
	"AnOptionalMatch":                          reflect.ValueOf(cypher.AnOptionalMatch),
	"MatchWithOption":                          reflect.ValueOf(cypher.MatchWithOption),
	"UnwindMulti":                              reflect.ValueOf(cypher.UnwindMulti),
	"ACallByStatement":                         reflect.ValueOf(cypher.ACallByStatement),
	"ACall":                                    reflect.ValueOf(cypher.ACall),
	"StatementCall":                            reflect.ValueOf(cypher.StatementCall),
	"ACallSimple":                              reflect.ValueOf(cypher.ACallSimple),
	"Match":                                    reflect.ValueOf(cypher.Match),
	"Create":                                   reflect.ValueOf(cypher.Create),
	"Merge":                                    reflect.ValueOf(cypher.Merge),
	"With":                                     reflect.ValueOf(cypher.With),
	"WithByString":                             reflect.ValueOf(cypher.WithByString),
	"WithByNamed":                              reflect.ValueOf(cypher.WithByNamed),
	"Unwind":                                   reflect.ValueOf(cypher.Unwind),
	"Union":                                    reflect.ValueOf(cypher.Union),
	"UnionAll":                                 reflect.ValueOf(cypher.UnionAll),
	"TRUE":                                     reflect.ValueOf(cypher.TRUE),
	"FALSE":                                    reflect.ValueOf(cypher.FALSE),
	"TRUE_CONDITION":                           reflect.ValueOf(cypher.TRUE_CONDITION),
	"FALSE_CONDITION":                          reflect.ValueOf(cypher.FALSE_CONDITION),
	"EMPTY_CONDITION":                          reflect.ValueOf(cypher.EMPTY_CONDITION),
	"ASTERISK":                                 reflect.ValueOf(cypher.ASTERISK),
	"NIL_INSTANCE":                             reflect.ValueOf(cypher.NIL_INSTANCE),
}

var vocabulary = []word{
	{"Avg", "", "C10"},
	{"Collect", "", "C10"},
	{"Max", "", "C10"},
	{"Min", "", "C10"},
	{"StDev", "", "C10"},
	{"StDevP", "", "C10"},
	{"Sum", "", "C10"},
	{"CountByExpression", "", "C10"},
	{"ToLower", "", "C10"},
	{"Size", "", "C10"},
	{"Exists", "", "C10"},
	{"Head", "", "C10"},
	{"Last", "", "C10"},
	{"Point", "", "C10"},
	{"PointByParameter", "", "C10"},
	{"PropertiesByMapExpression", "", "C10"},
	{"DateWithComponents", "", "C10"},
	{"DateTimeWithComponents", "", "C10"},
	{"LocalDateTimeWithComponents", "", "C10"},
	{"LocalTimeWithComponents", "", "C10"},
	{"TimeWithComponents", "", "C10"},
	{"DurationWithComponents", "", "C10"},
	{"DateWithExpression", "", "C10"},
	{"DateTimeWithExpression", "", "C10"},
	{"LocalDateTimeWithExpression", "", "C10"},
	{"LocalTimeWithExpression", "", "C10"},
	{"TimeWithExpression", "", "C10"},
	{"DurationWithExpression", "", "C10"},
	{"AvgDistinct", "", "C10"},
	{"CollectDistinct", "", "C10"},
	{"MaxDistinct", "", "C10"},
	{"MinDistinct", "", "C10"},
	{"StDevDistinct", "", "C10"},
	{"StDevPDistinct", "", "C10"},
	{"SumDistinct", "", "C10"},
	{"CountDistinctByExpression", "", "C10"},
	{"IdByNode", "node", "C10"},
	{"Labels", "node", "C10"},
	{"Count", "node", "C10"},
	{"CountDistinct", "node", "C10"},
	{"FunctionProperties", "node", "C10"},
	{"IdByRelationship", "rel", "C10"},
	{"FunctionType", "rel", "C10"},
	{"FunctionPropertiesByRelationship", "rel", "C10"},
	{"StartNode", "rel", "C10"},
	{"EndNode", "rel", "C10"},
	{"CollectByNamed", "named", "C10"},
	{"CollectDistinctByNamed", "named", "C10"},
	{"Nodes", "", "C10"},
	{"Relationships", "", "C10"},
	{"Date", "", "C10"},
	{"Datetime", "", "C10"},
	{"LocalDatetime", "", "C10"},
	{"Localtime", "", "C10"},
	{"Time", "", "C10"},
	{"DateWithTemporal", "iso", "C10"},
	{"DateTimeWithTemporal", "iso", "C10"},
	{"LocalDateTimeWithTemporal", "iso", "C10"},
	{"LocalTimeWithTemporal", "iso", "C10"},
	{"TimeWithTemporal", "iso", "C10"},
	{"DurationWithTemporal", "iso", "C10"},
	{"LocalDateTimeWithTimezone", "zone", "C10"},
	{"LocalTimeWithTimezone", "zone", "C10"},
	{"TimeWithTimeZone", "zone", "C10"},
	{"PercentileCont", "-,frac", "C10"},
	{"PercentileDisc", "-,frac", "C10"},
	{"PercentileContDistinct", "-,frac", "C10"},
	{"PercentileDiscDistinct", "-,frac", "C10"},
	{"CalendarDate", "int,int,int", "C10"},
	{"WeekDate", "int,int,int", "C10"},
	{"QuarterDate", "int,int,int", "C10"},
	{"OrdinalDate", "int,int", "C10"},
	{"Coalesce", "exprs1", "C10"},
	{"Distance", "", "C10"},
	{"Range", "", "C10,C16"},
	{"RangeWithStep", "-,-,opt", "C10,C16"},
	{"RangeRaw", "int,int", "C10,C16"},
	{"RangeWithStepRaw", "int,int,int", "C10,C16"},
	{"SizeByPattern", "", "C10"},
	{"ShortestPath", "", "C10,C11"},
	{"FunctionInvocationCreateWithFunctionName", "func,-", "C10"},
	{"PredicateExists", "", "C10,C06"},
	{"PredicateExistsByPattern", "", "C10,C06"},
	{"PredicateAll", "name", "C10,C16"},
	{"PredicateAny", "name", "C10,C16"},
	{"PredicateNone", "name", "C10,C16"},
	{"PredicateSingle", "name", "C10,C16"},
	{"PredicateAllBySymbolicName", "", "C10,C16"},
	{"PredicateAnyBySymbolicName", "", "C10,C16"},
	{"PredicateNoneBySymbolicName", "", "C10,C16"},
	{"PredicateSingleBySymbolicName", "", "C10,C16"},
	{"ConditionsNot", "", "C06"},
	{"ConditionsNotByPattern", "", "C06,C11"},
	{"ConditionsNoCondition", "", "C06"},
	{"ConditionsIsTrue", "", "C06"},
	{"ConditionsIsFalse", "", "C06"},
	{"ASymbolic", "name", "C08"},
	{"SymbolicNameCreate", "name", "C08"},
	{"AParam", "par", "C09"},
	{"ParameterCreate", "par", "C09"},
	{"AProperty", "name,key", "C08"},
	{"APropertyByExpression", "-,key", "C15"},
	{"LiteralOf", "lit", "C09"},
	{"LiteralTrue", "", "C09"},
	{"LiteralFalse", "", "C09"},
	{"AnAsterisk", "", "C09"},
	{"BooleanLiteralCreate", "", "C09"},
	{"NullLiteralCreate", "", "C09"},
	{"StringLiteralCreate", "str", "C08,C09"},
	{"NumberLiteralCreate", "int", "C09"},
	{"NumberLiteralCreate1", "int", "C09"},
	{"NumberLiteralCreate2", "float", "C09"},
	{"ListLiteralCreate", "", "C09,C16"},
	{"ListOf", "", "C09,C16"},
	{"ListOfRaw", "lits", "C09,C16"},
	{"MapOf", "pairs", "C09,C16"},
	{"NewMapExpression", "pairs", "C09,C16"},
	{"KeyValueMapEntryCreate", "key,-", "C09,C16"},
	{"MapProjectionCreate", "-,proj", "C16"},
	{"AliasedExpressionCreate", "-,alias", "C05"},
	{"ANode", "label", "C11"},
	{"AnyNode", "", "C11"},
	{"AnyNodeNamed", "name", "C11"},
	{"NewNodeWithLabels", "label,labels", "C11"},
	{"NewNodeWithProperties", "label,opt,labels", "C11"},
	{"APath", "name", "C11"},
	{"AShortestPath", "name", "C11"},
	{"APathBySymbolic", "", "C11"},
	{"AShortestPathBySymbolic", "", "C11"},
	{"ListComprehensionWith", "", "C16"},
	{"CypherListWith", "", "C16"},
	{"ListBasedOn", "", "C16"},
	{"PatternComprehensionBasedOn", "", "C16"},
	{"ListBasedOnNamed", "", "C16"},
	{"PatternComprehensionBasedOnNamePath", "", "C16"},
	{"GenericCaseExpression", "", "C16"},
	{"CaseExpression", "", "C16"},
	{"SubList", "", "C15,C16"},
	{"ASubList", "-,int,int", "C15,C16"},
	{"SubListFrom", "", "C15,C16"},
	{"ASubListFromByExpression", "", "C15,C16"},
	{"CypherSubListFrom", "-,int", "C15,C16"},
	{"SubListUntil", "", "C15,C16"},
	{"CypherSubListUntilByExpression", "", "C15,C16"},
	{"ASubListUntil", "-,int", "C15,C16"},
	{"ValueAt", "", "C15,C16"},
	{"CypherValueAtByExpression", "", "C15,C16"},
	{"CypherValueAt", "-,int", "C15,C16"},
	{"OperationSet", "", "C17"},
	{"OperationSetLabel", "node,labels1", "C17"},
	{"OperationRemove", "node,labels1", "C17"},
	{"OperationAdd", "", "C15"},
	{"OperationConcat", "", "C15"},
	{"OperationSubtract", "", "C15"},
	{"OperationMultiply", "", "C15"},
	{"OperationDivide", "", "C15"},
	{"OperationRemainder", "", "C15"},
	{"OperationPow", "", "C15"},
	{"Sort", "", "C14"},
	{"CreateAscendingSortItem", "", "C14"},
	{"CreateDescendingSortItem", "", "C14"},
	{"CypherReturning", "exprs1", "C01"},
	{"AnOptionalMatch", "pes1", "C01"},
	{"MatchWithOption", "-,pes1", "C01"},
	{"UnwindMulti", "exprs", "C01"},
	{"ACallByStatement", "", "C13"},
	{"ACall", "proc", "C12"},
	{"StatementCall", "proc", "C12"},
	{"ACallSimple", "proc1", "C12"},
	{"Match", "pes1", "C01"},
	{"Create", "pes1", "C01,C17"},
	{"Merge", "pes1", "C01,C17"},
	{"With", "exprs1", "C01"},
	{"WithByString", "names1", "C01"},
	{"WithByNamed", "nameds1", "C01"},
	{"Unwind", "", "C01"},
	{"Union", "", "C13"},
	{"UnionAll", "", "C13"},
	{"TRUE", "", "C09"},
	{"FALSE", "", "C09"},
	{"TRUE_CONDITION", "", "C06"},
	{"FALSE_CONDITION", "", "C06"},
	{"EMPTY_CONDITION", "", "C06"},
	{"ASTERISK", "", "C09"},
	{"NIL_INSTANCE", "", "C09"},
}
