#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long texts stay reviewable)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","Typed accessors honour the declared column type",
  "A typed getter or setter (by column name or by column index, plain or panicking form) transfers a cell only when the column's declared type is that type or its alias, and then transfers a value of exactly that Go type from or to exactly the addressed cell. On a column of any other type it reports an error and changes no cell.",
  ["inputs"],"every accessor x every one of the 20 column types x every cell address x every value",
  "There are 160 generated accessors and 20 column types (3,200 combinations); the tests pair each accessor with its own type and only a few mismatches.",
  ["helpers.go","gotables.go"],[("Set<type>/Get<type> families","helpers.go"),("isAlias","gotables.go:3772")],["return value","returned error","cell content"],
  [("rows","cell storage","gotables.go type Table"),("colTypes","declared column types","gotables.go type Table")])

p("C02","Every cell always holds a value of its column's declared type",
  "After any public operation, parse or decode, every cell of a table holds a non-nil value whose Go type is exactly the type declared for its column. New rows and new columns are filled with the zero value of each column's type, and values of another type are rejected with an error.",
  ["inputs","histories"],"every sequence of public mutating calls and every input document, for every column type",
  "Cells are untyped (interface values); a wrong dynamic type is only noticed when some later accessor asserts it. Tests run a few types through a few mutators.",
  ["gotables.go","helpers.go","parser.go","json.go","yaml.go","merge.go"],[("SetVal/SetValByColIndex type check","gotables.go:1895"),("SetRowCellsToZeroValue","helpers.go:4928"),("parser row builder","parser.go:862")],["cell content","later typed reads"],
  [("rows","cell storage","gotables.go type Table")])

p("C03","Every operation supports every column type",
  "For each of the 20 column types, every operation that works on cell values (padded and unpadded text output, struct-shape output, value-as-string, CSV, JSON, YAML and GOB in both directions, text parsing, zero values, equality, sorting, searching, row comparison, merging, validity checks) handles a value of that type. It never falls through to an unknown-type path, writes nothing in place of the value, treats it as another type, or panics; only an operation documented as unable to order a type may refuse it, and then with an error.",
  ["inputs"],"every (operation, column type) pair, and every value of that type",
  "About 30 operations x 20 types; the tests use mostly int, string and float64 columns, and a missing case compiles silently because the dispatch is on strings.",
  ["gotables.go","parser.go","json.go","yaml.go","gob.go","merge.go","sort.go","helpers.go"],[("type switches on column type strings","all files"),("compareFuncs table","sort.go"),("globalColTypesMap","parser.go")],["output text","returned error","decoded cells"])

p("C04","Numbers are written exactly",
  "Every numeric cell is written to text, struct, CSV, JSON and YAML in a form from which the identical value can be recovered. Integers are never converted through floating point or a narrower integer on the way out, and floating-point values are written with the shortest exact representation for their own width.",
  ["inputs"],"every numeric value of every numeric column type, every writer",
  "Loss only shows for particular values (integers above 2^53, floats needing 17 digits, float32 widened to float64); tests use small values.",
  ["gotables.go","json.go","yaml.go"],[("_String / printMatrix / StringPadded","gotables.go:1150-1600"),("getTableAsJSON_recursive","json.go:93"),("GetValAsStringByColIndex","gotables.go:2896")],["output text"])

p("C05","Out-of-range and malformed values in input are rejected",
  "When text, JSON or YAML input supplies a value for a column, it is stored exactly or the read fails with an error. A number that does not fit the declared integer type is never wrapped, truncated or rounded into it, and integer input is never parsed by way of floating point.",
  ["inputs"],"every numeral in every input document, every numeric column type and format",
  "The bad values are the few outside each type's range; tests try one or two boundary values for some types in the text parser and none for most types in JSON and YAML.",
  ["parser.go","json.go","yaml.go"],[("getRowSlice","parser.go:862"),("parseInt/parseUint","parser.go:1395"),("newTableFromJSON_recursive","json.go:272"),("newTableFromYAML_recursive","yaml.go:87")],["decoded cell","returned error"])

p("C06","Text values are escaped when written and unescaped when read",
  "Every string and rune cell is written to text, struct, JSON and CSV output in an escaped or quoted form of that format, whatever characters it contains, and the matching reader applies the inverse. No writer copies cell text raw between delimiters.",
  ["inputs"],"every string and rune content, including quotes, backslashes, line breaks, control and non-ASCII characters",
  "Only adversarial content shows the difference; most test strings are plain words.",
  ["gotables.go","json.go","parser.go"],[("%q / strconv.Quote in the writers","gotables.go"),("strconv.Unquote / parseRune","parser.go:862,1367"),("JSON string writer","json.go:93")],["output text"])

p("C07","The text parser consumes every character of a row",
  "While reading a row, each value must begin at the next unread character, and anything that is not a valid value of the column's type is an error. The parser never skips over characters to find a value further along the line, and never ignores text left over at the end of the line.",
  ["inputs"],"every input line, every column type",
  "Skipping happens only for text no correct writer produces; tests exercise valid rows and a handful of invalid ones.",
  ["parser.go"],[("token regular expressions","parser.go:57-250"),("getRowSlice","parser.go:862")],["returned error","decoded cells"])

p("C08","The text parser accepts every value the writers emit",
  "For every column type, the textual form that the text writers emit for any value of the type (including times with any number of fractional digits, NaN and infinities, the most negative integers, empty slices and empty strings) is accepted by the text parser for that type.",
  ["inputs"],"every value of every type; the emitted language must be included in the accepted language",
  "The emitted language is infinite; tests pick a handful of values (for time: always zero or nine fractional digits).",
  ["parser.go","gotables.go"],[("token regular expressions","parser.go:57-250"),("text writers","gotables.go:1150-1600")],["returned error"])

p("C09","GOB encoding and decoding are symmetric",
  "Everything a table or table set consists of that the binary encoding carries (name, column names, column types, cells, sort keys and their direction, struct shape, the set's name and file name) is both written by the encoder and restored by the decoder. Encoding any table, with or without rows or sort keys, does not panic, and decoding an empty or truncated buffer is an error.",
  ["inputs"],"every table and table set, every byte buffer",
  "Tests encode a few tables without sort keys; a field that is written but never restored is invisible unless the test compares exactly that field.",
  ["gob.go","gotables.go"],[("exportTable/importTable","gob.go:10-155"),("GobEncode/GobDecode","gob.go:156-326")],["decoded table","returned error"],
  [("TableExported","wire form of a table","gob.go/gotables.go")])

p("C10","JSON and YAML readers look for exactly what the writers produce",
  "The document keys under which the JSON and YAML writers put the table set name, the table list, each table's name, its column metadata and its rows are the keys under which the corresponding reader looks for them. Every key that the writer emits is read back and no key that the reader requires is missing from what the writer emits.",
  ["inputs"],"every document produced by the writers",
  "Optional keys only matter for tables with unusual features (no rows, no columns, unnamed set), which tests rarely write and read back.",
  ["json.go","yaml.go"],[("getTableAsJSON_recursive / newTableFromJSON_recursive","json.go"),("getTableAsMap / newTableFromYAML_recursive","yaml.go")],["decoded table set"])

p("C11","Calling anything on a nil table or table set never crashes",
  "Every public method called on a nil table or nil table set returns an error, or for methods without an error result a documented default value, and never dereferences nil. The same holds for a nil table or table set passed as an argument; only methods whose documented contract is to panic on error may panic, and they panic with a descriptive error.",
  ["inputs"],"every public method x nil receiver x each nil pointer argument",
  "About 330 public methods; tests check nil for a small part of them.",
  ["gotables.go","helpers.go","sort.go","tree.go","json.go","yaml.go","gob.go","merge.go","nest.go","generate.go"],[("nil guard at the top of each method","all files")],["panic","returned error"])

p("C12","Row and column indices are range-checked exactly",
  "A public operation that is given a row, column or table index outside the valid range (negative, equal to the count, or larger) returns an error and touches nothing. Every index inside the range, including the first and the last, is accepted, and index ranges given as first and last are both inclusive (a first index above the last denotes an empty range).",
  ["inputs"],"every index argument of every public operation, every table size including zero rows or columns",
  "Off-by-one errors need the exact boundary on the exact operation; tests try boundaries on a few operations.",
  ["gotables.go","helpers.go","sort.go","tree.go"],[("HasRow / HasCell / HasColByColIndex","gotables.go:2387-2480"),("inline range tests","gotables.go, sort.go, tree.go")],["panic","returned error"])

p("C13","Malformed documents produce errors, never panics",
  "Reading any byte sequence as text, JSON, YAML or GOB either succeeds or returns an error. No shape of document (missing keys, wrong value kinds, empty lists, ragged rows, short buffers, empty strings) makes a reader panic.",
  ["inputs"],"every input document",
  "Tests feed a few dozen malformed documents; the readers contain over a hundred places where an unexpected shape could crash.",
  ["json.go","yaml.go","gob.go","parser.go"],[("checked type assertions and existence tests","json.go, yaml.go"),("length checks","parser.go")],["panic","returned error"])

p("C14","The library never terminates the calling process",
  "No public operation exits the process or aborts it: failures are reported as errors. A panic is raised only by the operations documented to panic instead of returning an error.",
  ["inputs","histories"],"every public operation and every path through it",
  "An exit sits on a rare path (deep nesting, unknown type, internal inconsistency) that tests do not take.",
  ["gotables.go","tree.go","util.go","parser.go"],[("error returns","all files")],["process exit","panic"])

p("C15","No failure is swallowed",
  "Whenever an internal step of a public operation reports an error, the operation either reports an error to its caller or goes on to a documented alternative. A non-nil error is never discarded, overwritten, or turned into a success result; when reading or writing files, every read, write and conversion failure reaches the caller.",
  ["inputs","fault_sequences"],"every call site of every operation that can fail, every failure of it",
  "There are over 700 places where an error is received; the tests provoke failures at very few of them.",
  ["gotables.go","json.go","yaml.go","gob.go","merge.go","nest.go","sort.go","tree.go","generate.go","parser.go"],[("if err != nil { return err }","all files")],["returned error"])

p("C16","An operation that fails leaves the table unchanged",
  "When a public operation that modifies a table or table set in place (setting cells, adding, deleting, renaming, swapping or reordering columns, adding or deleting rows, setting sort keys, renaming or deleting tables) returns an error, the table or table set and its argument tables are exactly as before the call.",
  ["inputs","fault_sequences"],"every failing call of every in-place operation",
  "Tests check that the error is returned, hardly ever that nothing changed; partial change needs a failure after the first write.",
  ["gotables.go","helpers.go","sort.go"],[("validation before mutation","gotables.go, helpers.go, sort.go")],["table content after a failed call"])

p("C17","Operations that only read do not modify",
  "Queries, comparisons, searches, conversions to text, CSV, JSON, YAML and GOB, validity checks and traversals do not modify the table, its rows, its columns, its sort keys or its nested tables. Operations that produce a new table from existing ones (copying, merging, extracting, reordering into a new table, finding unique rows) do not modify their inputs.",
  ["inputs","histories"],"every read-only public operation, every table including nested ones",
  "Tests look at the result of a query, not at the table afterwards, and a modification may be confined to nested tables or sort keys.",
  ["gotables.go","json.go","yaml.go","gob.go","sort.go","merge.go","tree.go","generate.go"],[("absence of writes through the receiver","all files")],["table content after a query"])

p("C18","A copy shares no changeable storage with its original",
  "A table or table set produced by copying or extracting from another one, or appended from another one, has its own row, column, index and sort-key storage, so that a later change to either leaves the other as it was. A deep copy additionally has its own nested tables.",
  ["inputs","histories"],"every copying operation and every later change to either side",
  "Aliasing shows only when one side is changed afterwards; tests compare copies immediately.",
  ["gotables.go","tree.go","gob.go","merge.go","sort.go"],[("element-wise copying","gotables.go:3444-3760"),("CopyDeep","tree.go:403")],["original after a change to the copy"])

p("C19","Independent tables can be used from different goroutines",
  "Operations on different tables and table sets do not interfere: no public operation writes state shared between tables, so that concurrent use of separate tables has no data race and a call's result never depends on earlier calls on other tables.",
  ["schedules","histories"],"every pair of operations on separate tables, every interleaving",
  "The tests are single-threaded.",
  ["parser.go","gotables.go","tree.go","helpers.go","sort.go"],[("no package-level variable is written after initialisation","all files")],["data race","result depending on history"])

p("C20","The library writes nothing to standard output",
  "Apart from the printing utilities, no operation writes to the process's standard output; what an operation produces is returned to the caller. Diagnostics never replace a returned error.",
  ["inputs"],"every public operation and every path through it",
  "Leftover debugging output on rare paths corrupts pipelines but does not fail a test that compares return values.",
  ["gotables.go","parser.go","yaml.go","tree.go"],[("no writes to os.Stdout","all files")],["standard output"])

p("C21","Columns, types, name index and rows stay in step",
  "After every public operation, a table has exactly one declared type per column name, its name-to-position index maps each column name to its position and nothing else, and each row has exactly one cell per column. Moving, swapping, deleting or renaming a column moves, deletes or renames its type, its index entry and its cells together.",
  ["inputs","histories"],"every sequence of structural operations on every table",
  "The four parallel structures are updated separately in a dozen places; a missed update shows only when the same table is used afterwards in a particular way.",
  ["gotables.go","sort.go","gob.go","merge.go","parser.go"],[("AppendCol / DeleteCol / RenameCol / SwapCols / Reorder","gotables.go, sort.go")],["later reads by name and by index"],
  [("colNames, colTypes, colNamesMap, rows","parallel column structures","gotables.go type Table")])

p("C22","Names are validated and unique wherever they enter",
  "Every public operation that gives a table or a column a name accepts only a syntactically valid name, refuses a column name already used in the table and a table name already used in the table set, and reports an error otherwise. A name accepted by any operation is also accepted by the text parser.",
  ["inputs","histories"],"every name string, every naming operation",
  "Invalid and duplicate names are tried on one or two of the naming operations only; non-ASCII names on none.",
  ["gotables.go","parser.go","gob.go"],[("IsValidColName / IsValidTableName","parser.go:806-860"),("HasCol / HasTable duplicate tests","gotables.go")],["returned error"])

p("C23","Sort keys always refer to existing columns",
  "At all times every sort key of a table names an existing column and carries that column's comparison. Setting keys on unknown or unorderable columns is an error, and deleting or renaming a column removes or renames its sort key.",
  ["inputs","histories"],"every sequence of key and column operations",
  "Needs the combination of setting keys, changing columns and sorting again.",
  ["sort.go","gotables.go"],[("AppendSortKey / SetSortKeysFromTable","sort.go"),("DeleteCol / RenameCol","gotables.go")],["later sort or search"],
  [("sortKeys","list of key column, direction, comparator","gotables.go type Table")])

p("C24","Recursive operations terminate on every nesting of tables",
  "Every operation that descends into nested tables detects a table nested within itself, directly or through others, and reports it as an error instead of recursing without end. Detection happens before descending.",
  ["inputs"],"every nesting graph of tables, cyclic or not",
  "Cyclic graphs of various lengths are hardly tested, and only on one or two of the traversals.",
  ["tree.go","json.go","yaml.go","gotables.go","nest.go"],[("circRefMap visited tests","json.go, tree.go, gotables.go")],["returned error","stack overflow"])

p("C25","Comparison of two values of a type is a consistent three-way order",
  "For each orderable column type the comparison used for sorting and searching returns a negative number, zero or a positive number exactly when the first value is less than, equal to or greater than the second, comparing them as values of their own type. Swapping the operands reverses the result.",
  ["inputs"],"every pair of values of every orderable type",
  "Infinitely many pairs for 15+ types; tests sort a few values of some types.",
  ["sort.go"],[("compareFuncs table","sort.go:294-488")],["order of rows","search result"])

p("C26","Sorting and searching use the same key order",
  "Sorting orders rows by the sort keys in sequence, the first differing key deciding and a reversed key deciding the opposite way; searching and row comparison use the same keys, the same comparisons and the same directions. Every key takes part and ties go to the next key. Setting sort keys, from names or from another table, keeps their sequence and directions.",
  ["inputs"],"every table, every number and direction of sort keys",
  "Disagreement needs several keys, mixed directions and ties.",
  ["sort.go"],[("sortByKeys less functions","sort.go:570"),("searchByKeysFirst/Last","sort.go:666,1010"),("CompareRows","sort.go:746")],["order of rows","search result"])

p("C27","Search results are validated before they are used",
  "A search whose value is absent, below all rows, above all rows or in an empty table returns an error and never panics or returns an index outside the table. A search that succeeds returns the index of a row that has been compared equal to all search values.",
  ["inputs"],"every table including empty ones, every search value position",
  "Tests search present values and a few absent ones; last-match search below the first row is not tried.",
  ["sort.go"],[("searchValuesMatchRowValues","sort.go:720"),("searchByKeysFirst/Last","sort.go:666,1010"),("SearchRange","sort.go:1209")],["panic","returned index and error"])

p("C28","Panicking variants mirror their error-returning counterparts",
  "Each operation documented as the panicking variant of another one panics exactly when the other would return an error, and otherwise returns the same value or makes the same change with the same arguments.",
  ["inputs"],"every panicking variant, every argument",
  "About 85 generated wrappers; a wrapper that forwards to the wrong sibling or ignores an error compiles and is rarely exercised on failure.",
  ["helpers.go","gotables.go"],[("<name>MustGet / <name>MustSet / <name>MustMake","helpers.go, gotables.go")],["panic","return value"])

p("C29","Equality compares every like-named cell",
  "Two tables compare equal if and only if they have the same name, the same number of rows and columns, the same column names (in any order), the same type for each column, and equal cells in each row and like-named column, with nested tables compared in the same way. Two table sets compare equal only if they have the same number of tables and their tables compare equal one by one. Comparing never stops early with a positive answer.",
  ["inputs"],"every pair of tables, including ones with columns in different order",
  "A skipped row, column or type shows only for tables that differ exactly there.",
  ["gotables.go"],[("Equals","gotables.go:3273,3998")],["return value"])

# not applicable to static analysis (behavioural quantities)
p("N01","Text written by the library reads back as an equal table set",
  "For every table set, parsing its padded or unpadded text form yields a table set equal to the original.",
  ["inputs"],"every table set","Infinite input space; tests use a few tables.",
  ["gotables.go","parser.go"],[("writers and parser","gotables.go, parser.go")],["decoded table set"])
p("N02","JSON, YAML and GOB documents read back as an equal table set",
  "For every table set, decoding its JSON, YAML or GOB form yields a table set equal to the original.",
  ["inputs"],"every table set","Infinite input space; tests use a few tables.",
  ["json.go","yaml.go","gob.go"],[("encoders and decoders","json.go, yaml.go, gob.go")],["decoded table set"])
p("N03","Sorting yields an ordered permutation of the rows",
  "After sorting, the rows are a permutation of the rows before, each with its own cells, and are in the order of the sort keys, each key ascending or descending as set.",
  ["inputs"],"every table","Infinite input space.",
  ["sort.go"],[("sort.Sort over sortable view","sort.go:560-590")],["row order"])
p("N04","Search finds a matching row whenever one exists in a sorted table",
  "In a table sorted by its keys, a search for values present in some row succeeds, the first-match search gives the lowest such row and the last-match search the highest; a search for values that no row has fails.",
  ["inputs"],"every sorted table and search value","Infinite input space.",
  ["sort.go"],[("binary search","sort.go:1065-1205")],["returned index"])
p("N05","Merging combines rows by key, preferring non-missing values of the first table",
  "Merging two tables yields one row per distinct key, all columns of both, and for each cell the first table's value unless it is missing: a zero value gives way to any other value of the second, NaN gives way to zero and to any other value. The rows are in the order of the sort keys (those of the first table, or of the second if the first has none).",
  ["inputs"],"every pair of tables","Infinite input space.",
  ["merge.go"],[("Merge","merge.go:58")],["merged table"])
p("N06","Nesting distributes rows to the matching parent rows",
  "Nesting one table into another puts into the new cell of each parent row the text of a table with the name of the new column, all columns of the nested table and exactly its rows with equal keys; the parent rows keep their other cells.",
  ["inputs"],"every pair of tables","Infinite input space.",
  ["nest.go"],[("Nest","nest.go:45")],["nested cells"])
p("N07","Shuffling is an unbiased permutation",
  "Shuffling a table permutes its rows (each row kept whole), each permutation being equally likely; the pseudo-random shuffle gives the same order each time for the same number of rows, the random shuffle does not.",
  ["inputs"],"every table and random sequence","Statistical.",
  ["gotables.go"],[("ShuffleRandom","gotables.go:4314")],["row order"])
p("N08","Generated Go source compiles and reproduces the table",
  "For a table whose name and column names are Go identifiers (no keywords, not _, the table name neither predeclared nor used by the generated functions themselves), the source made by GenerateTypeStruct, GenerateTypeStructSliceFromTable and GenerateTypeStructSliceToTable compiles together, whatever the column types and names, and converts the table's rows to structs and back to a table of the same columns, types and cells.",
  ["inputs","programs"],"every table with usable names","No test calls the generators; column types, names and rows are unbounded.",
  ["generate.go"],[("text of the generated source","generate.go")],["generated source"])
p("N09","Parsing and writing take time proportional to the data",
  "Reading and writing a table set takes time and memory proportional to its size.",
  ["inputs"],"every table set","Tests use small tables.",
  ["parser.go","gotables.go"],[("single-pass parser","parser.go")],["running time"])

out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P:
        assert len(x["title"])<=80,x["id"]
        f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
