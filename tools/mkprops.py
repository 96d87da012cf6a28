import json
P=[]
def p(id,title,statement,over,text,why,files,symbols=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=s,where=", ".join(files)) for s in (symbols or [])])))
S="snuba_sdk/"
p("C01","Query building blocks only ever hold arguments of permitted types",
"Constructing a column, aliased column, entity, storage, function, curried function, identifier, lambda, condition, boolean condition, order-by, limit-by, limit, offset, granularity, totals, extrapolate, relationship or join either raises the SDK's error for that kind of object or yields an object whose every argument, and every element of a sequence argument, has a permitted type. Operands, elements and operators of the wrong type are rejected wherever they occur in the arguments, and a unary condition operator never carries a right-hand side. Arguments of permitted type that meet the bounds and naming rules are never rejected.",
["inputs"],"every value of every type for every constructor argument","tests construct a few dozen fixed wrong and right arguments per class; the type and position of an argument is unbounded",
[S+"expressions.py",S+"column.py",S+"aliased_expression.py",S+"entity.py",S+"storage.py",S+"function.py",S+"conditions.py",S+"orderby.py",S+"relationships.py"],["Expression.__post_init__","*.validate"])
p("C02","Numeric bounds are enforced exactly",
"A limit is accepted exactly when it is an integer from 1 to 10000, a limit-by count exactly from 1 to 10000, an offset exactly when at least 0, a granularity exactly when at least 1, and an entity or storage sample rate that is not a float, or is zero or negative, is never accepted while every positive finite one is. A boolean condition is accepted only with at least two conditions, and a limit-by or a join only with at least one element. Values outside these bounds always raise at construction.",
["inputs"],"every integer and float, every sequence length","tests try a handful of values on either side of the bounds",
[S+"expressions.py",S+"orderby.py",S+"entity.py",S+"storage.py",S+"conditions.py",S+"relationships.py"],["_validate_int_literal","LimitBy.validate","Entity.validate","Storage.validate","BooleanCondition.validate"])
p("C03","Names that are printed unquoted contain only permitted characters",
"A column, entity, storage, function, alias, lambda identifier, dataset or app id name is accepted exactly when the whole string, including any trailing newline, consists of the characters documented for that kind of name and is not empty where a name is required. No accepted name other than the key inside a column's square brackets can therefore contain a newline, a backtick, a semicolon or a backslash.",
["inputs"],"every string","tests sample a few good and bad names",
[S+"column.py",S+"entity.py",S+"storage.py",S+"function.py",S+"expressions.py",S+"aliased_expression.py",S+"request.py"],["column_name_re","entity_name_re","storage_name_re","function_name_re","ALIAS_RE","identifier_re","FLAG_RE"])
p("C04","Metrics building blocks and metrics queries are validated before use",
"A metric, timeseries, rollup or metrics scope can only be constructed with arguments of permitted types and an MQL context only with its required parts present; a rollup's granularity is one of 10, 60, 3600, 86400 or absent, its interval is at least 10 seconds and not below the granularity, it has an interval or totals, and it is never ordered when an interval is given. A metrics query only validates when query, start, end, rollup with a granularity and scope are all present and of the right type, any limit, offset, extrapolate or indexer mapping is of the right type, and each part is itself valid. A formula only validates when it has parameters of permitted type, at least one timeseries among them, and one consistent group-by.",
["inputs"],"every argument value and every combination of present and missing parts","tests sample a few combinations per class",
[S+"timeseries.py",S+"mql_context.py",S+"metrics_query.py",S+"metrics_query_visitors.py",S+"formula.py"],["Metric.validate","Timeseries.validate","Rollup.validate","MetricsScope.validate","MQLContext.validate","Validator","Formula.validate"])
p("C05","String literals cannot break out of their quotes",
"Every string or bytes literal is rendered between quote characters (single quotes in SnQL, double quotes in MQL) with every backslash, every delimiter quote and every newline in it escaped by a backslash and all other characters unchanged, whatever the string contains. This holds wherever a literal can appear: function parameters and initializers, condition right-hand sides, aggregate parameters and inside nested lists and tuples.",
["inputs"],"every string and bytes value in every literal position","tests escape five fixed strings; the set of strings is unbounded",
[S+"visitors.py",S+"metrics_visitors.py"],["Translation._stringify_scalar","TimeseriesMQLPrinter._visit_aggregate","FormulaMQLPrinter._visit_aggregate_params"])
p("C06","Every literal type has one faithful rendering",
"None, booleans, integers, floats, dates and datetimes are rendered as NULL, TRUE or FALSE, their decimal form and toDateTime('<ISO form>') respectively; a timezone-aware datetime is first converted to naive UTC and a boolean is never printed as an integer or vice versa. Lists and tuples are rendered as array(...) and tuple(...) in SnQL and [...] in MQL with every element rendered in order. A value that is not a literal is rejected instead of being printed.",
["inputs"],"every literal value of every supported type, including nested sequences","tests render about twenty fixed values",
[S+"visitors.py",S+"expressions.py"],["Translation._stringify_scalar","is_scalar"])
p("C07","Every part of an expression appears in its SnQL text, in order",
"The SnQL text of an expression contains the rendering of each of its parts exactly once, in the grammar's order and with the operator the caller chose: function name, initializers, parameters and alias; condition left side, operator and right side; boolean operands with their operator in parentheses; order-by direction; limit-by count and columns; lambda identifiers and body; join relationships with both entities, aliases and sample rates. Entity aliases qualify columns exactly when entity aliases are in use. No part that is set is ever dropped, whatever its value or the number of elements.",
["inputs"],"every expression tree","tests translate a few fixed trees per class; values such as empty sequences, zero or many elements are not all tried",
[S+"visitors.py"],["ExpressionVisitor.visit","Translation._visit_*"])
p("C08","A serialized query contains every clause that is set, once, in SnQL order",
"The text of a query is the MATCH clause followed by each clause that is set, introduced by its own keyword and in the order SELECT, BY, ARRAY JOIN, WHERE, HAVING, ORDER BY, LIMIT BY, LIMIT, OFFSET, GRANULARITY, TOTALS, and nothing for clauses that are unset or empty lists. Top-level conditions are joined by AND, subqueries are nested in braces with all their own clauses, and a join query qualifies its columns with entity aliases. Pretty printing changes only the separator between the outermost clauses.",
["inputs"],"every combination of set and unset clauses and every match kind","tests print a few dozen fixed queries out of the 2^11 combinations of clauses",
[S+"query.py",S+"query_visitors.py"],["Query","Printer","Query.serialize","Query.print"])
p("C09","Nothing is emitted before validation has passed",
"Serializing or printing a query, a metrics query or a request, and serializing a delete query, validates it first and propagates any validation error, so that no text or payload is returned for an invalid object; this includes converting a SnQL query or a request to a string. Validating a request also validates its dataset, app id, parent API, tenant ids, flags and query. Every flag must be a boolean or unset.",
["inputs","histories"],"every object and every emission method","tests call a few emission methods on a few invalid objects",
[S+"query.py",S+"metrics_query.py",S+"delete_query.py",S+"request.py"],["Query.serialize","Query.print","MetricsQuery.serialize","MetricsQuery.print","DeleteQuery.serialize","Request.to_dict","Request.print","Request.validate"])
p("C10","Query validation re-checks every clause and the whole-query rules",
"Validating a query validates the match clause and every element of every clause that is set and reports any failure. It rejects a query without a non-empty select and a query that asks for totals without a group-by. A query whose match is an invalid inner query is rejected when it is constructed or when the match is set.",
["inputs"],"every combination of clauses and elements","tests validate a few invalid queries",
[S+"query.py",S+"query_visitors.py"],["Validator","Query.__post_init__","Query.set_match"])
p("C11","Every column reference in a query is checked against its match clause",
"A query validates only if every column that occurs anywhere in it (select, group-by, array join, where, having, order-by, limit-by, and nested inside functions, curried-function initializers, lambdas, aliased columns, boolean conditions, either side of a condition, and lists or tuples) is acceptable to the match clause. For an entity or storage with a data model the column, or the part before its square brackets, must be in the model; for a subquery it must be a column name or function alias of the inner select; for a join it must carry an entity whose alias and name are in the join. A column given with a modelled entity is checked the same way on construction, and columns that satisfy the rule are not rejected.",
["inputs"],"every position a column can occur in and every match kind","tests place a wrong column in a few positions only",
[S+"query_validation.py",S+"query_visitors.py",S+"visitors.py",S+"column.py",S+"schema.py"],["ExpressionFinder","ExpressionSearcher","validate_match","Column.validate_data_model"])
p("C12","Builder methods return a copy that differs only in the named part",
"Each set method of a query, metrics query, timeseries, formula, metric or scope returns a new object of the same class in which the named part has the given value and every other part is unchanged. It rejects a value of the wrong type (or an empty select or array join) with an error and accepts every value of the type the constructor documents for that part (lists for sequence parts), including a storage as match. Setting the aggregate of a timeseries replaces its parameters as well, and indexer mappings are checked on validation only.",
["inputs","histories"],"every receiver, every argument and every chain of calls","tests chain a few calls on a few queries",
[S+"query.py",S+"metrics_query.py",S+"timeseries.py",S+"formula.py"],["Query.set_*","MetricsQuery.set_*","Timeseries.set_*","Formula.set_*","Metric.set_*","MetricsScope.set_*"])
p("C13","No SDK operation mutates its receiver or the caller's data",
"Building, setting, validating, serializing, printing, optimizing, parsing or converting never modifies the object it is called on or any argument passed to it, including nested lists and dictionaries, so every object can be reused and serialized any number of times with the same result. Expressions, SnQL queries, delete queries, formulas, metrics and rollups are immutable: assigning to their attributes raises.",
["inputs","histories"],"every operation on every object, in any sequence","tests compare outputs of single calls and never compare inputs before and after",
[S+"*.py"],["MetricsQuery.serialize","json_to_snql","Query","Expression"])
p("C14","Serialization depends only on the object being serialized",
"The text produced for an object is a function of that object alone: no module-level or shared object is modified by validating or serializing, no result is cached between calls, and nothing depends on earlier calls, other threads, failed calls, the clock, randomness, the environment or the iteration order of sets. Two threads may therefore validate and serialize different queries at the same time.",
["schedules","histories","inputs"],"every history of earlier calls and every interleaving of concurrent calls","tests run single-threaded with one hash seed and compare one call at a time",
[S+"*.py"],["Printer","Validator","MQL_PRINTER","VALIDATOR","entity_aliases"])
p("C15","Optimizing OR conditions preserves the meaning of the filter",
"The rewriting applied on serialization replaces a condition only when it is an OR in which every operand is an equality on one and the same left-hand side, and replaces it with a single IN on that left-hand side whose list holds the right-hand side of every operand in order. Every other condition, including ANDs, mixed operators, mixed left-hand sides and nested booleans, is kept unchanged and in its place, and no condition is lost or duplicated. Only the where clause of queries and the filters of metrics queries are rewritten.",
["inputs"],"every condition group","tests optimize four fixed groups",
[S+"query_optimizers/or_optimizer.py",S+"query.py",S+"metrics_query.py"],["OrOptimizer.optimize","Query._optimize","MetricsQuery._optimize"])
p("C16","The request payload carries every request field unaltered",
"The dictionary for a request contains the serialized query, dataset, app id, tenant ids and parent API exactly as given, every flag that was set (including those set to false) and no flag that was not, and the MQL context exactly when the query is a metrics query; for a delete request the query is the delete payload and the dataset is omitted. Serializing, printing or converting a request to a string is the JSON form of exactly that dictionary.",
["inputs"],"every request","tests serialize a few fixed requests",
[S+"request.py"],["Request.to_dict","Request.serialize","Request.print","Flags.to_dict"])
p("C17","MQL text contains every part of a timeseries or formula",
"The MQL text of a timeseries contains the metric (its MRI if present, otherwise its public name), the aggregate with all its parameters, all filters joined by AND in braces and the group-by; that of a formula contains every parameter in order, joined by its arithmetic operator in parentheses or passed to its function with all aggregate parameters, followed by its filters and group-by. Filters keep their meaning: equality, IN and LIKE are printed as key:value, their negations with a leading exclamation mark, nested booleans in parentheses with their own operator, and an operator, or a function as operand of a filter, that MQL cannot express is rejected rather than printed as something else.",
["inputs"],"every timeseries, formula tree and filter","tests print a few fixed timeseries and formulas, none with comparison operators in filters",
[S+"metrics_visitors.py",S+"visitors.py",S+"formula.py"],["TimeseriesMQLPrinter","FormulaMQLPrinter","MetricMQLPrinter","Translation._visit_condition_mql","Translation._visit_boolean_condition_mql"])
p("C18","The MQL context carries every part of a metrics query that is not MQL text",
"Serializing a metrics query yields its MQL text and a context with the ISO form of start and end, the rollup's granularity, interval, order direction and totals, the scope's org ids, project ids and use case, the indexer mappings, and the limit, offset and extrapolate values, each taken from the corresponding part and null exactly when that part is absent; a metrics query without indexer mappings is rejected on serialization. Printing it gives the JSON form of the same content (without the OR optimization). An MQL string given as the query is parsed and printed like the equivalent object.",
["inputs"],"every metrics query","tests serialize a few fixed metrics queries",
[S+"mql_visitor.py",S+"mql_context.py",S+"metrics_visitors.py",S+"metrics_query.py"],["MQLPrinter","RollupMQLPrinter","ScopeMQLPrinter","MetricsQuery.serialize"])
p("C19","Parsing MQL drops and invents nothing",
"For every string the MQL grammar accepts, the parsed object contains each metric, number (as a float), string, filter, group-by, aggregate parameter and function argument of the text exactly once and in order (filters and group-bys of an outer scope come before those of the scope inside it), and arithmetic is left-associative with multiplication and division binding tighter than addition and subtraction. Commas, AND and plain white space between filters produce conjunctions, OR produces disjunctions that bind less tightly, a leading exclamation mark negates, a list value means IN and a trailing wildcard on a single value means LIKE. White space around tokens and names that begin like a keyword make no difference; inside quotes an escaped double quote stands for the quote and everything else for itself. A string outside the grammar raises the SDK's MQL error.",
["inputs"],"every MQL string","tests parse about a hundred fixed strings out of an infinite language",
[S+"mql/mql.py"],["MQL_GRAMMAR","MQLVisitor","parse_mql"])
p("C20","Operator tables agree between writer, reader and converter",
"Each condition operator prints as its own distinct SnQL symbol and corresponds to the condition function of the same meaning. Each arithmetic operator that the MQL parser recognises is printed back as the same symbol with the same arity, and the sets of operators known to parser and printer coincide.",
["inputs","programs"],"every operator","tests exercise some operators in one direction",
[S+"conditions.py",S+"formula.py",S+"mql/mql.py",S+"orderby.py"],["Op","ConditionFunction","OPERATOR_TO_FUNCTION","ArithmeticOperator","PREFIX_TO_INFIX","PREFIX_ALIASES","EXPRESSION_OPERATORS","TERM_OPERATORS","UNARY_OPERATORS"])
p("C21","Legacy conversion carries every field of the legacy body over",
"Converting a legacy body yields a request whose clauses contain every aggregation, selected column, group-by, array join, condition, having condition, order-by (with its direction), limit-by, limit, offset, granularity, totals and sample of the body in order, plus the organization, project and date-range conditions, with one-element groups of alternatives kept as plain conditions and larger ones as ORs, in where and having alike. A condition nested in a function becomes the condition function of the same meaning over the same operands. Strings in one of the legacy date formats become datetimes, except when compared with a tag or with release. Dataset, app id, tenant ids and every flag that the body sets to true are taken from the body when present. The body itself is left as it was.",
["inputs"],"every legacy body","tests convert a few dozen fixed bodies",
[S+"legacy.py",S+"entity.py"],["json_to_snql","parse_exp","parse_condition","parse_extension_condition"])
p("C22","A delete query is never emitted without conditions",
"The payload of a delete query consists of exactly the given column conditions, and a delete query whose conditions are empty, or in which any column has an empty list of values, is rejected before any payload is produced.",
["inputs"],"every mapping of column conditions","tests try two invalid mappings",
[S+"delete_query.py",S+"request.py"],["DeleteQuery.validate","DeleteQuery.serialize"])
p("C23","Required-column checks accept only queries that filter on every required column",
"Checking a query for required columns passes only if, for every entity with a data model in its match clause (each entity of a join, or the innermost query of nested subqueries), the top-level conjunction of the where clause contains an equality or IN condition on each required column and both a >= and a < condition on the time column, on a column that is unqualified or qualified with that entity's alias. Conditions inside an AND, however it was built, count as top level; conditions under an OR never do.",
["inputs"],"every query and data model","tests check about twenty fixed queries",
[S+"query_validation.py",S+"conditions.py"],["validate_required_columns","get_first_level_and_conditions","_matching_condition_exists"])
p("C24","Equal expressions have equal hashes",
"Any two hashable SDK objects that compare equal have the same hash, so that sets and dictionaries of expressions never hold two equal entries. A function's alias never affects its hash.",
["inputs"],"every pair of expressions","tests compare a few pairs for equality and never their hashes",
[S+"function.py",S+"entity.py",S+"storage.py",S+"*.py"],["CurriedFunction.__eq__","CurriedFunction","Function"])
p("C25","MQL text that the SDK prints parses back to the same object",
"Printing a timeseries or formula that was parsed from an MQL text and parsing the printed text again yields an equal object, the filters of one object being compared as one conjunction and every part the MQL grammar can express (nested arithmetic, functions, curried parameters, filters of every form, group-bys at every level) being carried through.",
["inputs"],"every timeseries and formula","tests round-trip only fixed strings",
[S+"mql/mql.py",S+"metrics_visitors.py",S+"visitors.py"],["parse_mql","MQLPrinter"])
p("C26","Numeric formatting preserves the value",
"A number that reaches a SnQL text, an MQL text or a request payload (a literal anywhere in an expression, a sample rate, a limit, an aggregate or formula parameter, a rollup or scope value) is written so that the text denotes the very value that was given, for every integer and every finite float: no rounding, truncation, change of sign or fixed number of decimals.",
["inputs"],"every finite float","tests print a handful of floats",
[S+"visitors.py",S+"metrics_visitors.py"],["Translation._visit_entity","Translation._visit_storage","Translation._stringify_scalar"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
