CLAIMS={
"C01":(AI+"with one abstract world per (accessor, column type)","Decides, for each of 160 accessors x 20 column types, whether success is reachable, what value moves and which cell is addressed. Sound over values; cell identity is tracked by copies only."),
"C11":(AI+"with one abstract world per nil-able table parameter","Definite nil dereferences, panics and error-free returns under a nil receiver; definite nil dereferences under nil table arguments."),
"C12":(AI+"with index worlds (far below, -1, equal to the count, far above, first, last) per index parameter","An operation given an index in an out-of-range world must not reach success and must not crash; in an in-range world it must be able to succeed."),
"C14":(AI+"and reachability of os.Exit/log.Fatal/panic on feasible paths from every public operation","Reports a process exit on any path not refuted, and a panic in a function not documented to panic."),
"C19":("Effect analysis: writes to package-level variables and shared generator state reachable from every public operation","Reports every store through a package-level variable (or method call on one that mutates it) in code reachable from the public API."),
"C20":("Effect analysis: writes to os.Stdout reachable from every public operation","Reports each call printing to standard output in code reachable on unrefuted paths from public operations other than the documented printing utilities."),
"C28":(AI+"of each panicking variant with its error-returning sibling as an uninterpreted summary","Argument forwarding, result forwarding and panic-iff-error per variant."),
"C17":("Abstract interpretation with may-alias labels for the storage reachable from the receiver and arguments","Reports every store on an unrefuted path that reaches a table labelled as input of a read-only operation, across calls; the labels follow copies, fields, maps, slices and nested tables."),
"C25":(AI+"of every comparison function under each of the three orders of its arguments (and NaN), with relational values","Each comparison installed for a column type must return a negative, zero or positive number in the worlds where the first argument is less, equal or greater; wrap-around of differences is reported."),
"C26":(AI+"with uninterpreted comparisons: every combination of key direction and comparison result for 1 to 3 (thorough: 4) sort keys","The less functions, binary-search predicates and row comparison must be the lexicographic order of the key sequence; operands must be like-keyed cells of the two sides. Operations that set keys: every sequence and direction of up to 3 keys."),
"C27":(AI+"with the binary search as an uninterpreted summary giving each kind of position","A position outside the table or at which the keys differ must be reported as not found without reading outside the table; a position where all agree must be returned."),
"C02":("Abstract interpretation with a shape domain over typed small tables: the Go type of every cell after every operation","Every method of Table and TableSet and function returning tables, for each column type x each type of value argument (and nil, a nil *Table, an unrelated type), names, types and indices from a representative set; plus every table read back from JSON, YAML and text. A successful outcome must leave every cell non-nil and of the type of its column; new cells must not be known to be other than zero. Tables of 2 columns and 2 rows; 32 of 37,834 worlds (Merge) are abandoned and 201 outcomes not followed."),
"C24":("Abstract interpretation over nestings of tables: the shape domain with a small graph of tables (trees, a table nested in itself directly and through others, at the root and below it)","Every operation given a table, on each nesting: recursion deeper than twice the number of tables, with the same tables on the call stack, is reported; an operation that reads the rows of a table two levels down and returns an error must not succeed on a cyclic nesting, nor always fail on an acyclic one."),
"C21":("Abstract interpretation with a shape domain: the contents of small tables element by element, with the provenance of each element","All methods of Table and functions returning tables, on tables of 3 columns and 2 rows, 2 columns and 1 row, 1 column (thorough: also 4x3, 1x1, 2x0, 2x1), for every combination of name, index and list arguments among a representative set."),
"C23":("Abstract interpretation with a shape domain: the sort keys and column names of small tables element by element","Same worlds as C21; sort keys on the first and third column, also with a column given more than once."),
"C16":("Abstract interpretation with a shape domain: small tables compared element by element before and after each failing outcome","Same worlds as C21; every outcome returning a non-nil error. Parts of the table that the analysis cannot follow are not compared."),
"C18":("Abstract interpretation with a shape domain: identity of the storage of small tables followed through copies","Same worlds as C21 with nested-table cells, plus 2x1 tables; storage of cell contents (byte slices, nested tables of a shallow copy) is exempt."),
"C22":("Abstract interpretation with a shape domain and constant propagation: valid, invalid and duplicate names through every naming operation and through the parser's readers of names","Symbolic existing and new names, 8 invalid constants, and about 850 constant names through the constructor and AppendCol against the parser. Worlds in which a branch on the text of a constant name is not decided are not judged."),
"C29":("Abstract interpretation with a shape domain and symbolic cells: one world per kind and place of a difference between two small tables","20 column types x 2 (thorough: 6) column orders x every place of a 3x2 table; values are symbols that are equal when identical. Worlds with an undecided branch on a cell are not judged."),
"C03":("Abstract interpretation of writer and reader on symbolic text (one world per format and column type), and reachability of the error default of every type dispatch for each documented column type","Padded and unpadded text, struct shape, JSON, YAML and GOB in both directions for all 20 column types (GOB: 18, times and nested tables being documented as unsupported), also as types of nested tables. Every public operation is followed with a column of each type: it must not reach the error-making default of a dispatch on 12 or more column types, and the functions judging a value for a column must not refuse a value of the column's type. Accessors per type are C01, comparison per type C25, equality per type C29. Operations that sort the rows of both tables are followed with one row each."),
"C04":("Abstract interpretation of writer and reader on symbolic text: a value is followed through every conversion, formatting and parsing call, which keep or lose it","Text, struct shape, JSON and YAML, every numeric column type, any value, values in the upper half of the type and whole floating-point numbers. The standard library's encoders are modelled, not analysed."),
"C06":("Abstract interpretation of writer and reader on symbolic text: strings and runes with arbitrary contents","Text, struct shape, JSON, YAML and GOB; the quoting functions of the standard library are modelled by the language they write."),
"C09":("Abstract interpretation of encoder and decoder with a model of encoding/gob: every part of a table followed through both","Tables of 0-2 rows, 0-3 columns, sets of 0-3 tables; 18 column types; sort keys in both directions; struct shape."),
"C10":("Abstract interpretation of writer and reader on symbolic documents: keys written against keys looked up","JSON, indented JSON and YAML; tables of 0-2 rows, 0-3 columns, sets of 0-3 tables, nested tables, struct shape."),
"N02":("Abstract interpretation of writer and reader on symbolic text: what is read is compared part by part with what was written","853 worlds: format x set or table x column type x (sizes, struct shape, sort keys, nested tables, kinds of value). Values are symbols; sizes are bounded by 3."),
"C08":("Abstract interpretation of writer and parser on texts of known layout: regular expressions of the parser decided on the languages of the written pieces","Padded and unpadded text and struct shape of all 20 column types, with variants of each kind of value (sign, width, exponent, infinities, NaN, escapes, fractions of seconds, empty and longer slices). Worlds whose text joins on an undecided condition are not judged."),
"N01":("Abstract interpretation of text writer and parser on texts of known layout: what is parsed is compared part by part with what was written","Padded and unpadded text, tables of 0-3 columns and rows, sets of 0-3 tables, struct shape, nested tables, 20 column types with variants of each kind of value; values are symbols. The standard library's formatting and parsing functions are modelled, not analysed."),
"C05":("Abstract interpretation of the parsers on documents of known layout: every width of number at the boundaries of each column type, the standard library's conversions modelled exactly on constants and by interval on symbols","Text, struct shape, JSON and YAML x every numeric column type and slice of bytes x numbers inside, at and outside the range, in decimal, hexadecimal, octal, binary and floating-point spelling. A number outside the range must not be read without an error; one inside must be read as itself. Integers rounded into a floating-point column are not judged."),
"C07":("Abstract interpretation of the text parser on documents of known layout: one world per kind of malformed document; the parser's regular expressions are decided on the languages of the pieces","26,000 worlds: every type of value with misplaced, missing, extra and foreign tokens, ragged rows, duplicate and invalid names and types, missing separators, leftover text. A document outside the grammar must not reach success; the oracle is lenient about white space between values and about documents the grammar leaves open."),
"C13":("Abstract interpretation of every reader on malformed documents: a panic, an index or slice out of range or a failed type assertion reached on an unrefuted path of a world","28,000 worlds over text, struct shape, JSON, YAML, GOB buffers and nil readers: kinds of JSON/YAML node in every position of the document, all malformed text documents of C07. Bytes corrupted inside the encoded GOB stream are the standard decoder's and not analysed."),
"N03":("Abstract interpretation with a shape domain: sorting followed on small tables with known keys and symbolic cells, the library sort modelled by the interpreted less function and Swap method","3,800 worlds: 0-3 rows (thorough: 4), 1-3 keys, every arrangement and direction, other cells of every column type. The sorting algorithm of the standard library is trusted."),
"N04":("Abstract interpretation with a shape domain: searches followed on small sorted tables with known keys, the library search modelled by the interpreted predicate","4,000 worlds: 0-5 rows (thorough: 6), 1-3 keys in each direction, every position of the value searched for."),
"N05":("Abstract interpretation with a shape domain: a merge followed on small tables with known keys, cells being symbols, zero values, NaN or known values","240 worlds over all column types, 1 and 2 keys, overlapping and disjoint keys. 8 worlds are not followed (zero value of a new slice, time or table cell)."),
"N06":("Abstract interpretation with a shape domain: nesting followed on small tables with known keys, the text of a table being a symbol that stands for its contents","92 worlds of up to 2 and 4 rows, 1 and 2 keys in each direction, in which every row has a match."),
"N07":("Abstract interpretation with a shape domain: shuffling followed for every sequence of choices of the random source, with exact probabilities","Tables of 0-4 rows (thorough: 5). The uniformity of the library's random source is trusted."),
"N08":("Abstract interpretation of the source generators on texts; the generated source is type-checked, built to SSA form and abstractly interpreted in its turn (table to structs and back)","165 generated files: every column type, 0-7 columns, names that are identifiers used by the generated functions; 493 round trips of 0-2 rows. Keywords, the blank identifier and table names used by the generated functions are not judged."),
"C15":(AI+"with a typestate bit for the failure of one call site at a time","1400 error-returning call sites; intraprocedural contexts with callees inlined to depth 3 (quick) or 5 (thorough)."),
}
NOTYET="No check for this property is claimed yet."
NA={p["id"]:NOTYET for p in props}
NA.update({
"N09":"A quantitative resource bound over runtime sizes; no cost analysis for Go is available here.",
})
