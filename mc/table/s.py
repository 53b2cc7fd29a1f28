B = "bounded-exhaustive enumeration of inputs and operation sequences on the real code against an independent reference"
P("S01", "SQL selects exactly the rows, values, order and groups a statement describes",
  "A select gives one row for each combination of rows of its tables for which the condition is true, and none for which it is false or not known because a value is missing: a condition that does not depend on a missing value is not affected by it. "
  "Distinct removes all repetitions and nothing else, order by gives a stable order with missing values first, aggregates are over all present values of each group, and expressions follow the usual precedence, also while text columns get wider from row to row. "
  "A statement executed again gives the same result.",
  ["inputs", "histories"], "all conditions of up to two (three) of 26 atoms over every combination of values; all tables of up to 3 (4) rows with 9 orders, 4 lists and distinct; all tables of up to 4 (5) rows with ten aggregates and four groupings; all pairs of tables of up to 3 rows (three tables of 2) with 8 conditions; all expressions of up to three operands",
  "The tests use one table without missing values, and never two tables in a statement.",
  ["src/eckit/sql/SQLSelect.cc", "src/eckit/sql/SQLOrderOutput.cc", "src/eckit/sql/SQLDistinctOutput.cc", "src/eckit/sql/SQLSelectFactory.cc", "src/eckit/sql/sqly.y", "src/eckit/sql/sqll.l",
   "src/eckit/sql/expression/OrderByExpressions.cc", "src/eckit/sql/expression/ColumnExpression.cc", "src/eckit/sql/expression/function/FunctionAND.cc", "src/eckit/sql/expression/function/DoubleFunctions.cc", "src/eckit/sql/SQLTable.cc"],
  [("combinations of rows", "src/eckit/sql/SQLSelect.cc"), ("order", "src/eckit/sql/SQLOrderOutput.cc"), ("conditions", "src/eckit/sql/expression/function")],
  [dict(name="s01", src=["s01_sql.cc"], components=["eckit_sql", "eckit"])], B,
  "All combinations of rows, filtered by three-valued logic, sorted stably, grouped and summed.",
  bound="conditions of 2 (3) atoms; tables of 3-4 (5) rows")
