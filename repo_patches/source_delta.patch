From a4325b83d6970d68bc3315a15c1cf3d07a565429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:18 +0000
Subject: [PATCH 01/50] fix: report nil tables and table sets as errors instead
 of dereferencing them

GetValMustGet, SortKeyCount, TableSet.Append(nil) and TableSet.GobEncode
dereferenced a nil receiver or argument.
---
 gob.go      | 4 ++++
 gotables.go | 6 +++++-
 sort.go     | 4 ++++
 3 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/gob.go b/gob.go
index 978b96b..5389b3c 100644
--- a/gob.go
+++ b/gob.go
@@ -191,6 +191,10 @@ func (tableSet *TableSet) GobEncode() ([]bytes.Buffer, error) {
 	var encodedTableSet []bytes.Buffer
 	var err error
 
+	if tableSet == nil {
+		return emptyBuffer, fmt.Errorf("tableSet.%s: tableSet is <nil>", UtilFuncName())
+	}
+
 	for tableIndex := 0; tableIndex < len(tableSet.tables); tableIndex++ {
 		var table *Table = tableSet.tables[tableIndex]
 		var encodedTable *bytes.Buffer
diff --git a/gotables.go b/gotables.go
index a47e0fe..c8383e9 100644
--- a/gotables.go
+++ b/gotables.go
@@ -423,6 +423,10 @@ func (tableSet *TableSet) AppendTable(newTable *Table) error {
 		return fmt.Errorf("%s tableSet.%s tableSet is <nil>", UtilFuncSource(), UtilFuncName())
 	}
 
+	if newTable == nil {
+		return fmt.Errorf("%s tableSet.%s newTable is <nil>", UtilFuncSource(), UtilFuncName())
+	}
+
 	// Note: Could maintain a map in parallel for rapid lookup of table names.
 	for _, existingTable := range tableSet.tables {
 		if existingTable.Name() == newTable.Name() {
@@ -2272,7 +2276,7 @@ func (table *Table) RowCount() int {
 	Like its non-MustGet alternative but panics on error.
 */
 func (table *Table) GetValMustGet(colName string, rowIndex int) (val interface{}) {
-	if table.isNilTable {
+	if table != nil && table.isNilTable {
 		err := fmt.Errorf("table.%s: table is an unnamed NilTable. Call table.SetName() to un-Nil it", UtilFuncName())
 		panic(err)
 	}
diff --git a/sort.go b/sort.go
index 4f107b4..126159d 100644
--- a/sort.go
+++ b/sort.go
@@ -788,6 +788,10 @@ func newSortKeys() SortKeys {
 }
 
 func (table *Table) SortKeyCount() int {
+	if table == nil {
+		return -1
+	}
+
 	return len(table.sortKeys)
 }
 
-- 
2.43.0


From f5e1759ac6f88a3b3b91eec804f0cb7b295b2e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:30 +0000
Subject: [PATCH 02/50] fix: Set<type>ByColIndex report an out-of-range column
 index as an error

The 20 setters (and their MustSet forms) indexed the column types with an
unchecked column index and panicked with a runtime error.
---
 helpers.go | 100 ++++++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 80 insertions(+), 20 deletions(-)

diff --git a/helpers.go b/helpers.go
index 83fc552..713b2d2 100644
--- a/helpers.go
+++ b/helpers.go
@@ -969,7 +969,10 @@ func (table *Table) SetByteSliceByColIndex(colIndex int, rowIndex int, newVal []
 			UtilFuncName(), table.Name(), colIndex)
 	}
 
-	colType := table.colTypes[colIndex]
+	colType, err := table.ColTypeByColIndex(colIndex)
+	if err != nil {
+		return err
+	}
 
 	if valType != colType {
 		if !isAlias(colType, valType) {
@@ -1010,7 +1013,10 @@ func (table *Table) SetUint8SliceByColIndex(colIndex int, rowIndex int, newVal [
 			UtilFuncName(), table.Name(), colIndex)
 	}
 
-	colType := table.colTypes[colIndex]
+	colType, err := table.ColTypeByColIndex(colIndex)
+	if err != nil {
+		return err
+	}
 
 	if valType != colType {
 		if !isAlias(colType, valType) {
@@ -1045,7 +1051,10 @@ func (table *Table) SetBoolByColIndex(colIndex int, rowIndex int, newVal bool) e
 
 	const valType string = "bool"
 
-	colType := table.colTypes[colIndex]
+	colType, err := table.ColTypeByColIndex(colIndex)
+	if err != nil {
+		return err
+	}
 
 	if valType != colType {
 		if !isAlias(colType, valType) {
@@ -1080,7 +1089,10 @@ func (table *Table) SetByteByColIndex(colIndex int, rowIndex int, newVal byte) e
 
 	const valType string = "byte"
 
-	colType := table.colTypes[colIndex]
+	colType, err := table.ColTypeByColIndex(colIndex)
+	if err != nil {
+		return err
+	}
 
 	if valType != colType {
 		if !isAlias(colType, valType) {
@@ -1115,7 +1127,10 @@ func (table *Table) SetFloat32ByColIndex(colIndex int, rowIndex int, newVal floa
 
 	const valType string = "float32"
 
-	colType := table.colTypes[colIndex]
+	colType, err := table.ColTypeByColIndex(colIndex)
+	if err != nil {
+		return err
+	}
 
 	if valType != colType {
 		if !isAlias(colType, valType) {
@@ -1150,7 +1165,10 @@ func (table *Table) SetFloat64ByColIndex(colIndex int, rowIndex int, newVal floa
 
 	const valType string = "float64"
 
-	colType := table.colTypes[colIndex]
+	colType, err := table.ColTypeByColIndex(colIndex)
+	if err != nil {
+		return err
+	}
 
 	if valType != colType {
 		if !isAlias(colType, valType) {
@@ -1185,7 +1203,10 @@ func (table *Table) SetIntByColIndex(colIndex int, rowIndex int, newVal int) err
 
 	const valType string = "int"
 
-	colType := table.colTypes[colIndex]
+	colType, err := table.ColTypeByColIndex(colIndex)
+	if err != nil {
+		return err
+	}
 
 	if valType != colType {
 		if !isAlias(colType, valType) {
@@ -1220,7 +1241,10 @@ func (table *Table) SetInt16ByColIndex(colIndex int, rowIndex int, newVal int16)
 
 	const valType string = "int16"
 
-	colType := table.colTypes[colIndex]
+	colType, err := table.ColTypeByColIndex(colIndex)
+	if err != nil {
+		return err
+	}
 
 	if valType != colType {
 		if !isAlias(colType, valType) {
@@ -1255,7 +1279,10 @@ func (table *Table) SetInt32ByColIndex(colIndex int, rowIndex int, newVal int32)
 
 	const valType string = "int32"
 
-	colType := table.colTypes[colIndex]
+	colType, err := table.ColTypeByColIndex(colIndex)
+	if err != nil {
+		return err
+	}
 
 	if valType != colType {
 		if !isAlias(colType, valType) {
@@ -1290,7 +1317,10 @@ func (table *Table) SetInt64ByColIndex(colIndex int, rowIndex int, newVal int64)
 
 	const valType string = "int64"
 
-	colType := table.colTypes[colIndex]
+	colType, err := table.ColTypeByColIndex(colIndex)
+	if err != nil {
+		return err
+	}
 
 	if valType != colType {
 		if !isAlias(colType, valType) {
@@ -1325,7 +1355,10 @@ func (table *Table) SetInt8ByColIndex(colIndex int, rowIndex int, newVal int8) e
 
 	const valType string = "int8"
 
-	colType := table.colTypes[colIndex]
+	colType, err := table.ColTypeByColIndex(colIndex)
+	if err != nil {
+		return err
+	}
 
 	if valType != colType {
 		if !isAlias(colType, valType) {
@@ -1360,7 +1393,10 @@ func (table *Table) SetRuneByColIndex(colIndex int, rowIndex int, newVal rune) e
 
 	const valType string = "rune"
 
-	colType := table.colTypes[colIndex]
+	colType, err := table.ColTypeByColIndex(colIndex)
+	if err != nil {
+		return err
+	}
 
 	if valType != colType {
 		if !isAlias(colType, valType) {
@@ -1395,7 +1431,10 @@ func (table *Table) SetStringByColIndex(colIndex int, rowIndex int, newVal strin
 
 	const valType string = "string"
 
-	colType := table.colTypes[colIndex]
+	colType, err := table.ColTypeByColIndex(colIndex)
+	if err != nil {
+		return err
+	}
 
 	if valType != colType {
 		if !isAlias(colType, valType) {
@@ -1430,7 +1469,10 @@ func (table *Table) SetUintByColIndex(colIndex int, rowIndex int, newVal uint) e
 
 	const valType string = "uint"
 
-	colType := table.colTypes[colIndex]
+	colType, err := table.ColTypeByColIndex(colIndex)
+	if err != nil {
+		return err
+	}
 
 	if valType != colType {
 		if !isAlias(colType, valType) {
@@ -1465,7 +1507,10 @@ func (table *Table) SetUint16ByColIndex(colIndex int, rowIndex int, newVal uint1
 
 	const valType string = "uint16"
 
-	colType := table.colTypes[colIndex]
+	colType, err := table.ColTypeByColIndex(colIndex)
+	if err != nil {
+		return err
+	}
 
 	if valType != colType {
 		if !isAlias(colType, valType) {
@@ -1500,7 +1545,10 @@ func (table *Table) SetUint32ByColIndex(colIndex int, rowIndex int, newVal uint3
 
 	const valType string = "uint32"
 
-	colType := table.colTypes[colIndex]
+	colType, err := table.ColTypeByColIndex(colIndex)
+	if err != nil {
+		return err
+	}
 
 	if valType != colType {
 		if !isAlias(colType, valType) {
@@ -1535,7 +1583,10 @@ func (table *Table) SetUint64ByColIndex(colIndex int, rowIndex int, newVal uint6
 
 	const valType string = "uint64"
 
-	colType := table.colTypes[colIndex]
+	colType, err := table.ColTypeByColIndex(colIndex)
+	if err != nil {
+		return err
+	}
 
 	if valType != colType {
 		if !isAlias(colType, valType) {
@@ -1570,7 +1621,10 @@ func (table *Table) SetUint8ByColIndex(colIndex int, rowIndex int, newVal uint8)
 
 	const valType string = "uint8"
 
-	colType := table.colTypes[colIndex]
+	colType, err := table.ColTypeByColIndex(colIndex)
+	if err != nil {
+		return err
+	}
 
 	if valType != colType {
 		if !isAlias(colType, valType) {
@@ -1614,7 +1668,10 @@ func (table *Table) SetTableByColIndex(colIndex int, rowIndex int, newVal *Table
 	// This may help with reporting errors.
 	newVal.parentTable = table
 
-	colType := table.colTypes[colIndex]
+	colType, err := table.ColTypeByColIndex(colIndex)
+	if err != nil {
+		return err
+	}
 
 	if valType != colType {
 		if !isAlias(colType, valType) {
@@ -1649,7 +1706,10 @@ func (table *Table) SetTimeByColIndex(colIndex int, rowIndex int, newVal time.Ti
 
 	const valType string = "time.Time"
 
-	colType := table.colTypes[colIndex]
+	colType, err := table.ColTypeByColIndex(colIndex)
+	if err != nil {
+		return err
+	}
 
 	if valType != colType {
 		if !isAlias(colType, valType) {
-- 
2.43.0


From c074bf917a382f63d7f0cadc7f04f63c113800bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:59 +0000
Subject: [PATCH 03/50] fix: check row and column indices in zero-value, NaN
 and cell-info methods

SetCellToZeroValue(ByColIndex), SetRowCellsToZeroValue and
GetCellInfoByColIndex panicked on an index outside the table;
SetRowFloatCellsToNaN, RowByRowIndex and GetCellInfo accepted a row that does
not exist.
---
 gotables.go | 11 +++++++++++
 helpers.go  | 15 ++++++++++++++-
 tree.go     | 16 +++++++++++++++-
 3 files changed, 40 insertions(+), 2 deletions(-)

diff --git a/gotables.go b/gotables.go
index c8383e9..005970f 100644
--- a/gotables.go
+++ b/gotables.go
@@ -779,6 +779,12 @@ func (table *Table) SetRowFloatCellsToNaN(rowIndex int) error {
 
 	var err error
 	var colType string
+
+	hasRow, err := table.HasRow(rowIndex)
+	if !hasRow {
+		return err
+	}
+
 	for colIndex := 0; colIndex < table.ColCount(); colIndex++ {
 		colType, err = table.ColTypeByColIndex(colIndex)
 		if err != nil {
@@ -848,6 +854,11 @@ func (table *Table) SetColCellsToZeroValueByColIndex(colIndex int) error {
 		return fmt.Errorf("%s table.%s table is <nil>", UtilFuncSource(), UtilFuncName())
 	}
 
+	_, err := table.ColTypeByColIndex(colIndex)
+	if err != nil {
+		return err
+	}
+
 	for rowIndex := 0; rowIndex < table.RowCount(); rowIndex++ {
 		err := table.SetCellToZeroValueByColIndex(colIndex, rowIndex)
 		if err != nil {
diff --git a/helpers.go b/helpers.go
index 713b2d2..6a194f3 100644
--- a/helpers.go
+++ b/helpers.go
@@ -4915,7 +4915,15 @@ func (table *Table) SetCellToZeroValueByColIndex(colIndex int, rowIndex int) err
 		return fmt.Errorf("table.%s: table is <nil>", UtilFuncName())
 	}
 
-	var colType = table.colTypes[colIndex]
+	colType, err := table.ColTypeByColIndex(colIndex)
+	if err != nil {
+		return err
+	}
+
+	hasRow, err := table.HasRow(rowIndex)
+	if !hasRow {
+		return err
+	}
 
 	switch colType {
 	case "[]byte":
@@ -4997,6 +5005,11 @@ func (table *Table) SetRowCellsToZeroValue(rowIndex int) error {
 		return fmt.Errorf("table.%s: table is an unnamed NilTable. Call table.SetName() to un-Nil it", UtilFuncName())
 	}
 
+	hasRow, err := table.HasRow(rowIndex)
+	if !hasRow {
+		return err
+	}
+
 	for colIndex := 0; colIndex < table.ColCount(); colIndex++ {
 		var colType string = table.colTypes[colIndex]
 		switch colType {
diff --git a/tree.go b/tree.go
index 480072e..6c1edfb 100644
--- a/tree.go
+++ b/tree.go
@@ -219,10 +219,19 @@ func (table *Table) GetCellInfoByColIndex(colIndex int, rowIndex int) (cellInfo
 		return cellInfo, fmt.Errorf("table.%s(): table is nil", UtilFuncNameNoParens())
 	}
 
+	hasRow, err := table.HasRow(rowIndex)
+	if !hasRow {
+		return cellInfo, err
+	}
+
 	cellInfo.Table = table
 	cellInfo.ColIndex = colIndex
 	cellInfo.RowIndex = rowIndex
-	cellInfo.ColType = table.colTypes[colIndex]
+
+	cellInfo.ColType, err = table.ColTypeByColIndex(colIndex)
+	if err != nil {
+		return cellInfo, err
+	}
 
 	cellInfo.ColName, err = table.ColName(colIndex)
 	if err != nil {
@@ -280,6 +289,11 @@ func (table *Table) RowByRowIndex(rowIndex int) (row Row, err error) {
 		return row, fmt.Errorf("table.%s(): table is nil", UtilFuncNameNoParens())
 	}
 
+	hasRow, err := table.HasRow(rowIndex)
+	if !hasRow {
+		return row, err
+	}
+
 	row.Table = table
 	row.RowIndex = rowIndex
 
-- 
2.43.0


From df2005384383fad2a041fa34afb39f01f96e6eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:44 +0000
Subject: [PATCH 04/50] fix: keep the parser's line number in the parser

A package-level line counter was a data race between parsers running in
different goroutines and mixed up the positions in their error messages.
---
 parser.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/parser.go b/parser.go
index 48847af..12b531f 100644
--- a/parser.go
+++ b/parser.go
@@ -91,8 +91,6 @@ func init() {
 	uintSliceRegexp = regexp.MustCompile(uintSliceRegexpString)
 }
 
-var globalLineNum int
-
 const globalErrorLimit int = 10
 
 var globalErrorCount int
@@ -284,8 +282,8 @@ func (p *parser) parseString(s string) (*TableSet, error) {
 	var readError error
 	var stringReader *strings.Reader = strings.NewReader(s)
 	var inputReader *bufio.Reader = bufio.NewReader(stringReader)
-	globalLineNum = 1
-	for ; ; globalLineNum++ {
+	p.lineNum = 1
+	for ; ; p.lineNum++ {
 		line, readError = inputReader.ReadString('\n')
 		line = strings.TrimSpace(line)
 
@@ -651,7 +649,7 @@ func (p *parser) parseFile(inputFileName string) (*TableSet, error) {
 }
 
 func (p *parser) gotFilePos() string {
-	return fmt.Sprintf("%s:%d:", p.fileName, globalLineNum)
+	return fmt.Sprintf("%s:%d:", p.fileName, p.lineNum)
 }
 
 func file_line() string {
@@ -1286,6 +1284,7 @@ func rangeForIntegerType(min int64, max uint64) string {
 // parser definition: fields and methods.
 type parser struct {
 	fileName string // Needed for printing file and line diagnostics.
+	lineNum  int    // Needed for printing file and line diagnostics.
 }
 
 // Needed for printing file and line diagnostics.
-- 
2.43.0


From b598981eb68c64b27a5dfe2e0ebafc1d7f0d64f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:44 +0000
Subject: [PATCH 05/50] fix: remove the package-level debug counters of
 NewTreeTable

They were written without synchronisation on every call.
---
 tree.go | 9 ---------
 1 file changed, 9 deletions(-)

diff --git a/tree.go b/tree.go
index 6c1edfb..7228906 100644
--- a/tree.go
+++ b/tree.go
@@ -593,13 +593,7 @@ func (rootTable *Table) NewTreeTable1(tablesDepth int) (treeTable *Table, err er
 	If there are no type *Table cols in table, or if depth is set to 0, then
 	return table unchanged.
 */
-var globalTreeCalls int
-var globalTreeDepth int
 func (table *Table) NewTreeTable(depth int) (treeTable *Table, err error) {
-globalTreeCalls++
-if CURRENT_TESTS_VERBOSE {
-where(fmt.Sprintf("NewTreeTable(globalTreeCalls=%d)\n", globalTreeCalls))
-}
 	// where("caller: " + UtilFuncCaller())
 	// where(UtilFuncName())
 
@@ -624,11 +618,8 @@ where(fmt.Sprintf("NewTreeTable(globalTreeCalls=%d)\n", globalTreeCalls))
 }
 
 func newTreeTable_recursive(originalTable *Table, table *Table, depth int) (err error) {
-globalTreeDepth++
 if CURRENT_TESTS_VERBOSE {
 where(fmt.Sprintf("newTreeTable_recursive(depth=%d)\n", depth))
-where(fmt.Sprintf("newTreeTable_recursive(globalTreeCalls=%d)\n", globalTreeCalls))
-where(fmt.Sprintf("newTreeTable_recursive(globalTreeDepth=%d)\n", globalTreeDepth))
 }
 
 	if originalTable == nil {
-- 
2.43.0


From 94ddac4acde0d17fad9670f6d917cf4ec9c3c566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:44 +0000
Subject: [PATCH 06/50] fix: do not write shared state in StringNested and
 ShufflePseudorandom

StringNested maintained an unused package-level depth counter (a data race);
ShufflePseudorandom reseeded the process-wide math/rand source.
---
 gotables.go | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/gotables.go b/gotables.go
index 005970f..931c370 100644
--- a/gotables.go
+++ b/gotables.go
@@ -4311,11 +4311,10 @@ func (table *Table) ShufflePseudorandom() error {
 		return fmt.Errorf("%s table.%s table is <nil>", UtilFuncSource(), UtilFuncName())
 	}
 
-	// This forces rand.Shuffle() to start from scratch on each call.
-	// Otherwise there is a surprise side effect if a rand function is called elsewhere.
-	rand.Seed(0)
-
-	rand.Shuffle(len(table.rows), func(i, j int) {
+	// A source of its own makes each call start from scratch, without
+	// reseeding the source that other users of package rand depend on.
+	random := rand.New(rand.NewSource(0))
+	random.Shuffle(len(table.rows), func(i, j int) {
 		table.rows[i], table.rows[j] = table.rows[j], table.rows[i]
 	})
 
@@ -4529,11 +4528,7 @@ func (tableSet *TableSet) StringNested() (stringNested string) {
 }
 */
 
-var globalDepth int
 func (table *Table) stringNested_recursive(parentTableName string, parentTailName, parentColName string, parentRowIndex int, stringNested *string) {
-//where(fmt.Sprintf("depth=%d [%s]",  globalDepth, table.Name()))
-globalDepth++
-
 	const debug = true
 
 //where(fmt.Sprintf("stringNested_recursive(parentTableName: [%s], parentColName: %q, parentRowIndex: %d, stringNested)\n",
@@ -4597,7 +4592,5 @@ globalDepth++
 		}
 	}
 
-	globalDepth--
-
 	return
 }
-- 
2.43.0


From 22a3927cdd7938b1ef1c205b558d5449e51ab558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:53 +0000
Subject: [PATCH 07/50] fix: return errors that were swallowed instead of
 reporting success

---
 generate.go |  6 ++++++
 gotables.go |  6 +++---
 sort.go     | 10 ++++++++--
 util.go     | 13 +++++++++----
 yaml.go     |  4 ++--
 5 files changed, 28 insertions(+), 11 deletions(-)

diff --git a/generate.go b/generate.go
index 949cbdc..6d27445 100644
--- a/generate.go
+++ b/generate.go
@@ -107,6 +107,9 @@ func (tableSet *TableSet) generateTypeStructSet() (string, error) {
 			return "", err
 		}
 		typeStruct, err := table.GenerateTypeStruct()
+		if err != nil {
+			return "", err
+		}
 		buf.WriteString(delim)
 		buf.WriteString(typeStruct)
 		delim = "\n"
@@ -299,6 +302,9 @@ func (tableSet *TableSet) generateTypeStructSliceFromTableSet() (string, error)
 			return "", err
 		}
 		tableGenerated, err := table.GenerateTypeStructSliceFromTable()
+		if err != nil {
+			return "", err
+		}
 		tableSetGenerated += tableGenerated
 	}
 
diff --git a/gotables.go b/gotables.go
index 931c370..30c847c 100644
--- a/gotables.go
+++ b/gotables.go
@@ -1022,7 +1022,7 @@ func (table *Table) DeleteRow(rowIndex int) error {
 
 	err = table.DeleteRows(rowIndex, rowIndex)
 	if err != nil {
-		return nil
+		return err
 	}
 
 	if debugging {
@@ -1767,7 +1767,7 @@ func (table *Table) GetTableAsCSV(optionalSubstituteHeadingNames ...string) (str
 			var sVal string
 			sVal, err = table.GetValAsStringByColIndex(colIndex, rowIndex)
 			if err != nil {
-				return "", nil
+				return "", err
 			}
 
 			// Handle special case of NaN which needs to be written as "" which is ,, in CSV.
@@ -2822,7 +2822,7 @@ func (table *Table) IsValidTable() (isValid bool, err error) {
 
 	_, err = table.isValidColNamesMap()
 	if err != nil {
-		return false, nil
+		return false, err
 	}
 
 	for rowIndex := 0; rowIndex < table.RowCount(); rowIndex++ {
diff --git a/sort.go b/sort.go
index 126159d..83519df 100644
--- a/sort.go
+++ b/sort.go
@@ -768,8 +768,14 @@ func (table *Table) CompareRows(rowIndex1 int, rowIndex2 int) (int, error) {
 	for i := 0; i < len(table.sortKeys); i++ {
 		sortFunc := table.sortKeys[i].sortFunc
 		colName := table.sortKeys[i].colName
-		cellVal1, _ := table.GetVal(colName, rowIndex1)
-		cellVal2, _ := table.GetVal(colName, rowIndex2)
+		cellVal1, err := table.GetVal(colName, rowIndex1)
+		if err != nil {
+			return -2, err
+		}
+		cellVal2, err := table.GetVal(colName, rowIndex2)
+		if err != nil {
+			return -2, err
+		}
 		compared := sortFunc(cellVal1, cellVal2)
 
 		if compared != 0 {
diff --git a/util.go b/util.go
index 7e2fbdf..d55033e 100644
--- a/util.go
+++ b/util.go
@@ -616,16 +616,21 @@ func UtilGulpFromPipe() (string, error) {
 */
 func UtilGulpFromPipeWithTimeout(timeout time.Duration) (input string, err error) {
 
-	c1 := make(chan string, 1)
+	type gulped struct {
+		input string
+		err   error
+	}
+
+	c1 := make(chan gulped, 1)
 
 	go func() {
-		input, err = UtilGulpFromPipe()
-		c1 <- input
+		input, err := UtilGulpFromPipe()
+		c1 <- gulped{input, err}
 	}()
 
 	select {
 	case result := <-c1:
-		return result, nil
+		return result.input, result.err
 	case <-time.After(timeout):
 		return "", fmt.Errorf("did not read any piped input from stdin after waiting %v", timeout)
 	}
diff --git a/yaml.go b/yaml.go
index 09d961b..757a32a 100644
--- a/yaml.go
+++ b/yaml.go
@@ -377,13 +377,13 @@ func (tableSet *TableSet) GetTableSetAsYAML() (yamlString string, err error) {
 	var yamlMap map[string]interface{}
 	yamlMap, err = tableSet.GetTableSetAsMap()
 	if err != nil {
-		return "", nil
+		return "", err
 	}
 
 	var yamlBytes []byte
 	yamlBytes, err = yaml.Marshal(yamlMap)
 	if err != nil {
-		return "", nil
+		return "", err
 	}
 
 	yamlString = string(yamlBytes)
-- 
2.43.0


From e8e07abc84a3d938cbde3e15f96791b1e5ed19a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:10 +0000
Subject: [PATCH 08/50] fix: do not write to the tables visited by Walk

---
 gotables.go | 1 -
 tree.go     | 6 ------
 2 files changed, 7 deletions(-)

diff --git a/gotables.go b/gotables.go
index 30c847c..ec87363 100644
--- a/gotables.go
+++ b/gotables.go
@@ -501,7 +501,6 @@ type Table struct {
 	isStructShape bool
 	isNilTable    bool
 	parentTable   *Table
-	depth         int
 }
 
 // For GOB.
diff --git a/tree.go b/tree.go
index 7228906..3bca72f 100644
--- a/tree.go
+++ b/tree.go
@@ -172,9 +172,6 @@ func (table *Table) Walk(
 						}
 					}
 
-					// Down into nested table.
-					nestedTable.depth++
-
 					// Recursive call to visit nested tables.
 // where(fmt.Sprintf("walkSafe %p = %v", walkSafe, walkSafe))
 // where("calling nestedTable.Walk()")
@@ -182,9 +179,6 @@ func (table *Table) Walk(
 					if err != nil {
 						return
 					}
-
-					// Back up from nested table.
-					nestedTable.depth--
 				}
 			}
 		}
-- 
2.43.0


From 1144e591f1bd4d3930808e24e40c76c009ebc0bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:10 +0000
Subject: [PATCH 09/50] fix: let Walk work without a WalkSafe map instead of
 crashing on nested tables

---
 tree.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/tree.go b/tree.go
index 3bca72f..1d93703 100644
--- a/tree.go
+++ b/tree.go
@@ -84,9 +84,8 @@ func (table *Table) Walk(
 		return
 	}
 
-	if table == nil {
-		err = fmt.Errorf("table.%s(): walkSafe is nil", UtilFuncNameNoParens())
-		return
+	if walkSafe == nil {
+		walkSafe = make(WalkSafe)
 	}
 
 	// where(fmt.Sprintf("Walk() walkSafe %p = %v", walkSafe, walkSafe))
-- 
2.43.0


From a620629cc1ee5d39830d0e4177386614c0ba0c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:31 +0000
Subject: [PATCH 10/50] fix: StringNested must not rename the nested tables

---
 gotables.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/gotables.go b/gotables.go
index ec87363..630f6f3 100644
--- a/gotables.go
+++ b/gotables.go
@@ -4556,7 +4556,7 @@ func (table *Table) stringNested_recursive(parentTableName string, parentTailNam
 			colName, _ := table.ColNameByColIndex(colIndex)
 			for rowIndex := 0; rowIndex < table.RowCount(); rowIndex++ {
 				nestedTable, err := table.GetTableByColIndex(colIndex, rowIndex)
-				if err != nil {
+				if err != nil || nestedTable == nil {
 					return
 				}
 
@@ -4579,14 +4579,16 @@ func (table *Table) stringNested_recursive(parentTableName string, parentTailNam
 				}
 				newName := headName + tailName
 //where(fmt.Sprintf("newName = %s", newName))
-				err = nestedTable.SetName(newName)
+				// Rename a shallow copy, not the nested table itself.
+				var renamedTable Table = *nestedTable
+				err = renamedTable.SetName(newName)
 				if err != nil {
 					return
 				}
 
 // where(fmt.Sprintf("\n>>> nestedTable.stringNested_recursive(%q, %q, %d, stringNested=\n%s)",
 // table.Name(), colName, rowIndex, *stringNested))
-				nestedTable.stringNested_recursive(headName, tailName, colName, rowIndex, stringNested)
+				renamedTable.stringNested_recursive(headName, tailName, colName, rowIndex, stringNested)
 			}
 		}
 	}
-- 
2.43.0


From 772c5860df3fc84c1d83bd73075cace0fbf3b732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:51 +0000
Subject: [PATCH 11/50] fix: CopyDeep must copy, leaving the original table
 unchanged

---
 tree.go | 53 +++++++++++++++++++----------------------------------
 1 file changed, 19 insertions(+), 34 deletions(-)

diff --git a/tree.go b/tree.go
index 1d93703..836f62c 100644
--- a/tree.go
+++ b/tree.go
@@ -413,64 +413,49 @@ func (table *Table) CopyDeep() (tableCopy *Table, err error) {
 		return nil, fmt.Errorf("table.%s: table is nil", UtilFuncName())
 	}
 
-	// This may seem odd, but this is the point in CopyDeep() where it's possible
-	// to set tableCopy before all the recursive calls have occurred.
-	tableCopy = table
-
-	var visitTable = func(t *Table) (err error) {
-		// where(fmt.Sprintf("[%s]", t.Name()))
-		return
+	// Copy() checks for circular references.
+	tableCopy, err = table.Copy()
+	if err != nil {
+		return nil, err
 	}
 
-	var visitCell = func(walkDeep bool, cell CellInfo) (err error) {
-		if IsTableColType(cell.ColType) {
-			// where(fmt.Sprintf("[%s] IsTableColType", cell.Table.Name()))
+	// The cells of tableCopy still refer to the nested tables of table. Replace them with deep copies.
+	for colIndex := 0; colIndex < table.ColCount(); colIndex++ {
+		if !IsTableColType(table.colTypes[colIndex]) {
+			continue
+		}
 
+		for rowIndex := 0; rowIndex < table.RowCount(); rowIndex++ {
 			var nestedTable *Table
-			nestedTable, err = cell.Table.GetTableByColIndex(cell.ColIndex, cell.RowIndex)
+			nestedTable, err = table.GetTableByColIndex(colIndex, rowIndex)
 			if err != nil {
-				return
+				return nil, err
 			}
-			// where(fmt.Sprintf("nestedTable = %p", nestedTable))
 
 			var isNilTable bool
 			isNilTable, err = nestedTable.IsNilTable()
 			if err != nil {
-				return
+				return nil, err
 			}
 
 			var nestedTableCopy *Table
 			if isNilTable {
-				nestedTableCopy = NewNilTable()	// New reference just to be on the safe side.
+				nestedTableCopy = NewNilTable() // New reference just to be on the safe side.
 			} else {
-				nestedTableCopy, err = nestedTable.Copy()
+				nestedTableCopy, err = nestedTable.CopyDeep()
 				if err != nil {
-					return
+					return nil, err
 				}
 			}
 
-			err = cell.Table.SetTableByColIndex(cell.ColIndex, cell.RowIndex, nestedTableCopy)
+			err = tableCopy.SetTableByColIndex(colIndex, rowIndex, nestedTableCopy)
 			if err != nil {
-			// where(fmt.Sprintf("nestedTableCopy = %p", nestedTableCopy))
-				return
+				return nil, err
 			}
 		}
-		tableCopy = cell.Table
-
-		return
-	}
-
-	const walkDeep = true
-	var walkSafe WalkSafe = make(WalkSafe)
-	// where(fmt.Sprintf("declaring walkSafe = %p", walkSafe))
-	// where("BEGIN Walk()")
-	err = table.Walk(walkDeep, walkSafe, visitTable, nil, visitCell)
-	// where("END Walk()")
-	if err != nil {
-		return nil, err
 	}
 
-	return
+	return tableCopy, nil
 }
 
 /*
-- 
2.43.0


From e2abe039ddb6b77b51982b4d74c66a33331ba550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:06 +0000
Subject: [PATCH 12/50] fix: Merge and SortUnique must not change their input
 tables

---
 merge.go | 41 +++++++++++++++++++++++++++++------------
 sort.go  |  6 ++++++
 2 files changed, 35 insertions(+), 12 deletions(-)

diff --git a/merge.go b/merge.go
index 2131936..faca56e 100644
--- a/merge.go
+++ b/merge.go
@@ -106,22 +106,22 @@ func (table1 *Table) Merge(table2 *Table) (merged *Table, err error) {
 		return merged, err
 	}
 
-	// TODO: this value of merged is never used (SA4006)
+	// Work on copies: the sort keys and the row order of the input tables must not change.
+	table1, err = table1.copyWithSortKeys()
+	if err != nil {
+		return nil, err
+	}
+	table2, err = table2.copyWithSortKeys()
+	if err != nil {
+		return nil, err
+	}
+
 	if table1.RowCount() == 0 {
-		merged, err = sortMerged(table2)
-		if err != nil {
-			return nil, err
-		}
-		return table2, nil
+		return sortMerged(table2)
 	}
 
-	// TODO: this value of merged is never used (SA4006)
 	if table2.RowCount() == 0 {
-		merged, err = sortMerged(table1)
-		if err != nil {
-			return nil, err
-		}
-		return table1, nil
+		return sortMerged(table1)
 	}
 
 	// Check that table1 and table2 have the same sort columns.
@@ -482,6 +482,23 @@ func (table1 *Table) Merge(table2 *Table) (merged *Table, err error) {
 	return merged, nil
 }
 
+// Return a copy of this table which also has the sort keys of this table.
+func (table *Table) copyWithSortKeys() (tableCopy *Table, err error) {
+	tableCopy, err = table.Copy()
+	if err != nil {
+		return nil, err
+	}
+
+	if table.SortKeyCount() > 0 {
+		err = tableCopy.SetSortKeysFromTable(table)
+		if err != nil {
+			return nil, err
+		}
+	}
+
+	return tableCopy, nil
+}
+
 // This copies from left (srcTable) to right (targTable) beginning at beginRow in targTable.
 func (srcTable *Table) copyTableCells(beginRow int, targTable *Table) error {
 	for srcCol := 0; srcCol < srcTable.ColCount(); srcCol++ {
diff --git a/sort.go b/sort.go
index 83519df..bf6e44d 100644
--- a/sort.go
+++ b/sort.go
@@ -1273,6 +1273,12 @@ func (inputTable *Table) SortUnique(sortCols ...string) (newTableUnique *Table,
 		return nil, fmt.Errorf("inputTable.%s table is <nil>", UtilFuncName())
 	}
 
+	// Work on a copy: the sort keys of inputTable must not change.
+	inputTable, err = inputTable.copyWithSortKeys()
+	if err != nil {
+		return nil, err
+	}
+
 	if len(sortCols) > 0 {
 		// Sort mode (1)
 		err := inputTable.SetSortKeys(sortCols...)
-- 
2.43.0


From ac980ff9e31db9696581f41ad21d77d994b8a37f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:08 +0000
Subject: [PATCH 13/50] fix: Merge failed when no rows of the two tables match

---
 merge.go | 42 ++++++++++++++++++++++++------------------
 1 file changed, 24 insertions(+), 18 deletions(-)

diff --git a/merge.go b/merge.go
index faca56e..983b43d 100644
--- a/merge.go
+++ b/merge.go
@@ -242,6 +242,8 @@ func (table1 *Table) Merge(table2 *Table) (merged *Table, err error) {
 
 	// where(fmt.Sprintf("BEFORE Merge()\n%s\n", merged))
 
+	var deleteCount int // How many rows are tagged for deletion.
+
 	// Loop through to the second-last row, comparing each row with the row after it.
 	for rowIndex := 0; rowIndex < merged.RowCount()-1; rowIndex++ {
 
@@ -435,29 +437,33 @@ func (table1 *Table) Merge(table2 *Table) (merged *Table, err error) {
 			if err != nil {
 				return nil, err
 			}
+			deleteCount++
 		}
 	}
 
-	// Sort by deleteColName ready to delete as a single block of rows.
-	err = merged.SetSortKeys(deleteColName)
-	if err != nil {
-		return nil, err
-	}
-	err = merged.Sort()
-	if err != nil {
-		return nil, err
-	}
+	// There is nothing to delete (or to find) if no rows match.
+	if deleteCount > 0 {
+		// Sort by deleteColName ready to delete as a single block of rows.
+		err = merged.SetSortKeys(deleteColName)
+		if err != nil {
+			return nil, err
+		}
+		err = merged.Sort()
+		if err != nil {
+			return nil, err
+		}
 
-	// Find the block of rows to delete.
-	first, last, err := merged.SearchRange(true)
-	if err != nil {
-		return nil, err
-	}
+		// Find the block of rows to delete.
+		first, last, err := merged.SearchRange(true)
+		if err != nil {
+			return nil, err
+		}
 
-	// Delete the block of rows.
-	err = merged.DeleteRows(first, last)
-	if err != nil {
-		return nil, err
+		// Delete the block of rows.
+		err = merged.DeleteRows(first, last)
+		if err != nil {
+			return nil, err
+		}
 	}
 
 	// Delete the temporary tag columns.
-- 
2.43.0


From c242d7daa408d0f1deaf7475833d2b8460b34213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:23 +0000
Subject: [PATCH 14/50] fix: Nest must not change the nestable table

---
 nest.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/nest.go b/nest.go
index 38bb58a..068c938 100644
--- a/nest.go
+++ b/nest.go
@@ -54,6 +54,12 @@ func (table *Table) Nest(nestable *Table, nestColName string) error {
 		return fmt.Errorf("table.%s(nestable, nestColName): nestable is <nil>", UtilFuncName())
 	}
 
+	// Work on a copy: the sort keys and the row order of nestable must not change.
+	nestable, err = nestable.copyWithSortKeys()
+	if err != nil {
+		return err
+	}
+
 	// Use whichever table has sort keys for the shared keys. table is dominant over nestable.
 	if table.SortKeyCount() == 0 {
 		err = nestable.SetSortKeysFromTable(table)
-- 
2.43.0


From f1853dc48c256b8b65c1ada56205905ac107544d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:25 +0000
Subject: [PATCH 15/50] fix: Nest uses the sort keys of nestable when the table
 has none

---
 nest.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nest.go b/nest.go
index 068c938..d6d3e31 100644
--- a/nest.go
+++ b/nest.go
@@ -62,7 +62,7 @@ func (table *Table) Nest(nestable *Table, nestColName string) error {
 
 	// Use whichever table has sort keys for the shared keys. table is dominant over nestable.
 	if table.SortKeyCount() == 0 {
-		err = nestable.SetSortKeysFromTable(table)
+		err = table.SetSortKeysFromTable(nestable)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From afd293584da43abfecdc3a3c08dcda3328567fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:07 +0000
Subject: [PATCH 16/50] fix: SearchLast panicked when the search value is less
 than every row

---
 sort.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sort.go b/sort.go
index bf6e44d..e88fbc3 100644
--- a/sort.go
+++ b/sort.go
@@ -708,7 +708,7 @@ func (table *Table) searchByKeysFirst(searchValues []interface{}) (int, error) {
 
 	// See logic at: https://golang.org/pkg/sort/#Search
 	// See Search() source code at: https://golang.org/src/sort/search.go?s=2247:2287#L49
-	if searchIndex < table.RowCount() && searchValuesMatchRowValues(table, searchValues, searchIndex) {
+	if searchIndex >= 0 && searchIndex < table.RowCount() && searchValuesMatchRowValues(table, searchValues, searchIndex) {
 		return searchIndex, nil
 	} else {
 		return -1, fmt.Errorf("[%s].Search(%v) search values not in table: %v",
@@ -1062,7 +1062,7 @@ func (table *Table) searchByKeysLast(searchValues []interface{}) (int, error) {
 
 	// See logic at: https://golang.org/pkg/sort/#Search
 	// See Search() source code at: https://golang.org/src/sort/search.go?s=2247:2287#L49
-	if searchIndex < table.RowCount() && searchValuesMatchRowValues(table, searchValues, searchIndex) {
+	if searchIndex >= 0 && searchIndex < table.RowCount() && searchValuesMatchRowValues(table, searchValues, searchIndex) {
 		return searchIndex, nil
 	} else {
 		return -1, fmt.Errorf("[%s].Search(%v) search values not in table: %v",
-- 
2.43.0


From ae62e9d69f6f07673e84c9e5aa01142e23d03d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:07 +0000
Subject: [PATCH 17/50] fix: byte and rune columns could not be sorted or
 searched

---
 sort.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sort.go b/sort.go
index e88fbc3..a6d5aef 100644
--- a/sort.go
+++ b/sort.go
@@ -37,6 +37,7 @@ type compareFunc func(i interface{}, j interface{}) int
 
 var compareFuncs = map[string]compareFunc{
 	"bool":    compare_bool,
+	"byte":    compare_uint8,
 	"float32": compare_float32,
 	"float64": compare_float64,
 	"uint":    compare_uint,
@@ -45,6 +46,7 @@ var compareFuncs = map[string]compareFunc{
 	"int32":   compare_int32,
 	"int64":   compare_int64,
 	"int8":    compare_int8,
+	"rune":    compare_int32,
 	"string":  compare_Alphabetic_string,
 	"uint16":  compare_uint16,
 	"uint32":  compare_uint32,
-- 
2.43.0


From 0b2a0d3101496563a020fbc4757960d03301043c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:07 +0000
Subject: [PATCH 18/50] fix: CompareRows ignored descending sort keys

---
 sort.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sort.go b/sort.go
index a6d5aef..2dbd300 100644
--- a/sort.go
+++ b/sort.go
@@ -780,6 +780,11 @@ func (table *Table) CompareRows(rowIndex1 int, rowIndex2 int) (int, error) {
 		}
 		compared := sortFunc(cellVal1, cellVal2)
 
+		if table.sortKeys[i].reverse {
+			// Reverse the sign to reverse the sort.
+			compared *= -1
+		}
+
 		if compared != 0 {
 			// We have a decision: At least one search value doesn't match a cell value.
 			return compared, nil
-- 
2.43.0


From 42a187e9e0c6f0f21d318705222d180beb7406ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:07 +0000
Subject: [PATCH 19/50] fix: SwapCols and SwapColsByColIndex left the cells
 behind

---
 sort.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/sort.go b/sort.go
index 2dbd300..6f9771a 100644
--- a/sort.go
+++ b/sort.go
@@ -969,6 +969,11 @@ func (table *Table) SwapColsByColIndex(colIndex1 int, colIndex2 int) error {
 
 	table.colNamesMap[colName1], table.colNamesMap[colName2] = table.colNamesMap[colName2], table.colNamesMap[colName1]
 
+	for rowIndex := range table.rows {
+		row := table.rows[rowIndex]
+		row[colIndex1], row[colIndex2] = row[colIndex2], row[colIndex1]
+	}
+
 	return nil
 }
 
@@ -1004,6 +1009,11 @@ func (table *Table) SwapCols(colName1 string, colName2 string) error {
 
 	table.colNamesMap[colName1], table.colNamesMap[colName2] = table.colNamesMap[colName2], table.colNamesMap[colName1]
 
+	for rowIndex := range table.rows {
+		row := table.rows[rowIndex]
+		row[col1], row[col2] = row[col2], row[col1]
+	}
+
 	return nil
 }
 
-- 
2.43.0


From 720ad78a4133b8a6372a81a68cd01e8b5694c992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:07 +0000
Subject: [PATCH 20/50] fix: NaN compared equal to every number when sorting
 and searching

---
 sort.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/sort.go b/sort.go
index 6f9771a..8e65fe6 100644
--- a/sort.go
+++ b/sort.go
@@ -443,6 +443,10 @@ var compare_float32 compareFunc = func(i, j interface{}) int {
 		return -1
 	} else if float32i > float32j {
 		return +1
+	} else if float32i != float32i && float32j == float32j { // NaN sorts before all other values.
+		return -1
+	} else if float32i == float32i && float32j != float32j {
+		return +1
 	} else {
 		return 0
 	}
@@ -455,6 +459,10 @@ var compare_float64 compareFunc = func(i, j interface{}) int {
 		return -1
 	} else if float64i > float64j {
 		return +1
+	} else if float64i != float64i && float64j == float64j { // NaN sorts before all other values.
+		return -1
+	} else if float64i == float64i && float64j != float64j {
+		return +1
 	} else {
 		return 0
 	}
-- 
2.43.0


From a7353eabc789f214c610f505087bc8b52c1a29c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:07 +0000
Subject: [PATCH 21/50] fix: deleting or renaming a column left sort keys
 referring to the old name

---
 gotables.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/gotables.go b/gotables.go
index 630f6f3..0939c59 100644
--- a/gotables.go
+++ b/gotables.go
@@ -1880,6 +1880,13 @@ func (table *Table) DeleteColByColIndex(colIndex int) error {
 	// From Ivo Balbaert p182 for deleting a single element from a slice.
 	table.colTypes = append(table.colTypes[:colIndex], table.colTypes[colIndex+1:]...)
 
+	// Delete any sort keys which refer to the deleted col.
+	for keyIndex := len(table.sortKeys) - 1; keyIndex >= 0; keyIndex-- {
+		if table.sortKeys[keyIndex].colName == colName {
+			table.sortKeys = append(table.sortKeys[:keyIndex], table.sortKeys[keyIndex+1:]...)
+		}
+	}
+
 	for rowIndex := 0; rowIndex < table.RowCount(); rowIndex++ {
 		//		if isValidRow, err := table.IsValidRow(rowIndex); !isValidRow { where(fmt.Sprintf("%s\n", err)) }
 		var row []interface{} = table.rows[rowIndex]
@@ -2669,6 +2676,13 @@ func (table *Table) RenameCol(oldName string, newName string) error {
 	delete(table.colNamesMap, oldName)    // Delete the old one.
 	table.colNamesMap[newName] = colIndex // Add the new one.
 
+	// Rename col in any sort keys which refer to it.
+	for keyIndex := range table.sortKeys {
+		if table.sortKeys[keyIndex].colName == oldName {
+			table.sortKeys[keyIndex].colName = newName
+		}
+	}
+
 	return nil
 }
 
-- 
2.43.0


From b9618f3014df43b769411867802946500554338a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:25 +0000
Subject: [PATCH 22/50] fix: OrderColsBySortKeys panicked when a column is a
 sort key more than once

---
 sort.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/sort.go b/sort.go
index 8e65fe6..dc7f830 100644
--- a/sort.go
+++ b/sort.go
@@ -881,7 +881,7 @@ func (table *Table) OrderColsBySortKeys() error {
 	}
 
 	var err error
-	var newOrder []string = make([]string, table.ColCount()) // List of new colNames.
+	var newOrder []string = make([]string, 0, table.ColCount()) // List of new colNames.
 	var key int
 
 	// Populate new order ...
@@ -889,11 +889,16 @@ func (table *Table) OrderColsBySortKeys() error {
 	// First slots with key col names.
 	for key = 0; key < table.SortKeyCount(); key++ {
 		keyName := table.sortKeys[key].colName
-		newOrder[key] = keyName
+		var isDuplicate bool // A col may be used more than once as a key.
+		for _, name := range newOrder {
+			isDuplicate = isDuplicate || name == keyName
+		}
+		if !isDuplicate {
+			newOrder = append(newOrder, keyName)
+		}
 	}
 
 	// Subsequent slots with non-key col names.
-	row := table.SortKeyCount()
 	for col := 0; col < table.ColCount(); col++ {
 		colName := table.colNames[col]
 		var isSortKey bool
@@ -902,8 +907,7 @@ func (table *Table) OrderColsBySortKeys() error {
 			return err
 		}
 		if !isSortKey {
-			newOrder[row] = colName
-			row++
+			newOrder = append(newOrder, colName)
 		}
 	}
 
-- 
2.43.0


From 9e5668fe4f0fb5cbc53775e34aafd70bf26d8cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:59 +0000
Subject: [PATCH 23/50] fix: GOB encoding panicked on tables with sort keys and
 decoding did not restore them

---
 gob.go | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/gob.go b/gob.go
index 5389b3c..e6d69b2 100644
--- a/gob.go
+++ b/gob.go
@@ -68,7 +68,7 @@ func (table *Table) exportTable() (*TableExported, error) {
 		return nil, err
 	}
 
-	tableExported.SortKeys = []SortKeyExported{}
+	tableExported.SortKeys = make([]SortKeyExported, len(table.sortKeys))
 	for keyIndex, _ := range table.sortKeys {
 		tableExported.SortKeys[keyIndex] = SortKeyExported{}
 		tableExported.SortKeys[keyIndex].ColName = table.sortKeys[keyIndex].colName
@@ -131,15 +131,6 @@ func (tableExported *TableExported) importTable() (*Table, error) {
 		return nil, err
 	}
 
-	table.sortKeys = []sortKey{}
-	for keyIndex, _ := range table.sortKeys {
-		table.sortKeys[keyIndex] = sortKey{}
-		table.sortKeys[keyIndex].colName = tableExported.SortKeys[keyIndex].ColName
-		table.sortKeys[keyIndex].colType = tableExported.SortKeys[keyIndex].ColType
-		table.sortKeys[keyIndex].reverse = tableExported.SortKeys[keyIndex].Reverse
-		table.sortKeys[keyIndex].sortFunc = tableExported.SortKeys[keyIndex].SortFunc
-	}
-
 	table.isStructShape = tableExported.StructShape
 
 	isValid, err = table.IsValidTable()
@@ -147,6 +138,16 @@ func (tableExported *TableExported) importTable() (*Table, error) {
 		return nil, err
 	}
 
+	// GOB does not encode functions, so sortFunc is looked up by AppendSortKey()
+	table.sortKeys = []sortKey{}
+	for keyIndex := range tableExported.SortKeys {
+		err = table.AppendSortKey(tableExported.SortKeys[keyIndex].ColName)
+		if err != nil {
+			return nil, err
+		}
+		table.sortKeys[keyIndex].reverse = tableExported.SortKeys[keyIndex].Reverse
+	}
+
 	return table, nil
 }
 
-- 
2.43.0


From 8f56e1ca28aa3c333bfde534c57cfd5b0b6401a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:59 +0000
Subject: [PATCH 24/50] fix: GobDecodeTableSet panicked on an empty buffer

---
 gob.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gob.go b/gob.go
index e6d69b2..1367b7d 100644
--- a/gob.go
+++ b/gob.go
@@ -258,6 +258,11 @@ func NewTableSetFromGob(buffer []bytes.Buffer) (*TableSet, error) {
 func GobDecodeTableSet(buffer []bytes.Buffer) (*TableSet, error) {
 	var tableSet *TableSet
 	var err error
+
+	if len(buffer) == 0 {
+		return nil, fmt.Errorf("%s: buffer is empty", UtilFuncName())
+	}
+
 	tableSet, err = NewTableSet("")
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 6dc067a9b60613fb3ab288296efb1fe8ef3a78de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:01 +0000
Subject: [PATCH 25/50] fix: operations that fail part way leave the table
 unchanged

---
 gotables.go | 23 +++++++++++++++++++----
 sort.go     |  5 +++++
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/gotables.go b/gotables.go
index 0939c59..145d290 100644
--- a/gotables.go
+++ b/gotables.go
@@ -3469,7 +3469,7 @@ func (table1 *Table) Equals(table2 *Table) (equals bool, err error) {
 
 	Column order is ignored. Identical duplicate columns are ignored.
 */
-func (table *Table) AppendColsFromTable(fromTable *Table) error {
+func (table *Table) AppendColsFromTable(fromTable *Table) (err error) {
 
 	if table == nil {
 		return fmt.Errorf("%s table.%s(fromTable) table is <nil>", UtilFuncSource(), UtilFuncName())
@@ -3483,7 +3483,15 @@ func (table *Table) AppendColsFromTable(fromTable *Table) error {
 		return fmt.Errorf("table.%s: table is an unnamed NilTable. Call table.SetName() to un-Nil it", UtilFuncName())
 	}
 
-	var err error
+	// If not all cols can be appended, append none: leave the table as it was.
+	colCount := table.ColCount()
+	defer func() {
+		if err != nil {
+			for colIndex := table.ColCount() - 1; colIndex >= colCount; colIndex-- {
+				_ = table.DeleteColByColIndex(colIndex)
+			}
+		}
+	}()
 
 	colsTable, err := fromTable.GetColInfoAsTable()
 	if err != nil {
@@ -3524,10 +3532,9 @@ func (table *Table) AppendColsFromTable(fromTable *Table) error {
 	return nil
 }
 
-func (toTable *Table) AppendRowsFromTable(fromTable *Table, firstRow int, lastRow int) error {
+func (toTable *Table) AppendRowsFromTable(fromTable *Table, firstRow int, lastRow int) (err error) {
 	// where("caller: " + UtilFuncCaller())
 	// where(UtilFuncName())
-	var err error
 
 	if toTable == nil {
 		return fmt.Errorf("toTable.table.%s: table is <nil>", UtilFuncName())
@@ -3559,6 +3566,14 @@ func (toTable *Table) AppendRowsFromTable(fromTable *Table, firstRow int, lastRo
 		}
 	}
 
+	// If not all rows can be appended, append none: leave the table as it was.
+	rowCount := toTable.RowCount()
+	defer func() {
+		if err != nil {
+			toTable.rows = toTable.rows[:rowCount]
+		}
+	}()
+
 	// Note: multiple assignment syntax in for loop.
 	for fromRow, toRow := firstRow, toTable.RowCount(); fromRow <= lastRow; fromRow, toRow = fromRow+1, toRow+1 {
 
diff --git a/sort.go b/sort.go
index dc7f830..634ea5c 100644
--- a/sort.go
+++ b/sort.go
@@ -173,11 +173,13 @@ func (table *Table) SetSortKeys(sortColNames ...string) error {
 		return fmt.Errorf("table.%s table is <nil>", UtilFuncName())
 	}
 
+	oldSortKeys := table.sortKeys
 	table.sortKeys = newSortKeys() // Replace any existing sort keys.
 
 	for _, colName := range sortColNames {
 		err := table.AppendSortKey(colName)
 		if err != nil {
+			table.sortKeys = oldSortKeys // Leave the table as it was.
 			//			errSortKey := errors.New(fmt.Sprintf("SetSortKeys(%v): %v\n", sortColNames, err))
 			errSortKey := fmt.Errorf("SetSortKeys(%v): %v", sortColNames, err)
 			return errSortKey
@@ -199,9 +201,12 @@ func (table *Table) SetSortKeysReverse(reverseSortColNames ...string) error {
 		return fmt.Errorf("table.%s table is <nil>", UtilFuncName())
 	}
 
+	oldSortKeys := append(newSortKeys(), table.sortKeys...)
+
 	for _, colName := range reverseSortColNames {
 		err := table.setSortKeyReverse(colName)
 		if err != nil {
+			table.sortKeys = oldSortKeys // Leave the table as it was.
 			errSortKey := fmt.Errorf("SetSortKeysReverse(%v): %v", reverseSortColNames, err)
 			return errSortKey
 		}
-- 
2.43.0


From b5e80911417cccd6c3ad6e9538fc125832b08054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:11 +0000
Subject: [PATCH 26/50] fix: SetTable changed its argument before checking
 column and row

---
 helpers.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/helpers.go b/helpers.go
index 6a194f3..5133a1f 100644
--- a/helpers.go
+++ b/helpers.go
@@ -868,9 +868,6 @@ func (table *Table) SetTable(colName string, rowIndex int, newVal *Table) error
 			UtilFuncNameNoParens(), colName, rowIndex, table.Name(), colName)
 	}
 
-	// This may help with reporting errors.
-	newVal.parentTable = table
-
 	colType, err := table.ColType(colName)
 	if err != nil {
 		return err
@@ -898,6 +895,9 @@ func (table *Table) SetTable(colName string, rowIndex int, newVal *Table) error
 	// Note: This essentially inlines SetValByColIndex(): an average 30% speedup.
 	table.rows[rowIndex][colIndex] = newVal
 
+	// This may help with reporting errors.
+	newVal.parentTable = table
+
 	return nil
 }
 
@@ -1665,9 +1665,6 @@ func (table *Table) SetTableByColIndex(colIndex int, rowIndex int, newVal *Table
 			UtilFuncNameNoParens(), colIndex, rowIndex, table.Name(), colIndex)
 	}
 
-	// This may help with reporting errors.
-	newVal.parentTable = table
-
 	colType, err := table.ColTypeByColIndex(colIndex)
 	if err != nil {
 		return err
@@ -1690,6 +1687,9 @@ func (table *Table) SetTableByColIndex(colIndex int, rowIndex int, newVal *Table
 	// Note: This essentially inlines SetValByColIndex(): an average 5 times speedup.
 	table.rows[rowIndex][colIndex] = newVal
 
+	// This may help with reporting errors.
+	newVal.parentTable = table
+
 	return nil
 }
 
-- 
2.43.0


From 5f1e31a9f81389cee6216bc8037b9d2cd821b2b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:54 +0000
Subject: [PATCH 27/50] fix: names with certain multi-byte letters were
 accepted but could not be parsed

---
 parser.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/parser.go b/parser.go
index 12b531f..6f39f4b 100644
--- a/parser.go
+++ b/parser.go
@@ -25,7 +25,6 @@ import (
 	"strconv"
 	"strings"
 	"time"
-	"unicode"
 )
 
 /*
@@ -805,12 +804,21 @@ func isValidName(name string) (bool, error) {
 	if len(name) == 0 {
 		return false, fmt.Errorf("%s: len(name) == 0", UtilFuncName())
 	}
-	if !unicode.IsLetter(rune(name[0])) && name[0] != '_' {
+	// Only the letters and digits of namePattern: indexing gives bytes, not runes, and bytes of
+	// some multi-byte letters are letters by themselves.
+	isLetter := func(c byte) bool {
+		return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
+	}
+	isDigit := func(c byte) bool {
+		return c >= '0' && c <= '9'
+	}
+
+	if !isLetter(name[0]) && name[0] != '_' {
 		return false, fmt.Errorf("%s: invalid first char: %c (expecting letter or '_')", UtilFuncName(), name[0])
 	}
 	for i := 1; i < len(name); i++ {
-		if !unicode.IsLetter(rune(name[i])) && name[i] != '_' && !unicode.IsNumber(rune(name[i])) {
-			return false, fmt.Errorf("%s: invalid char: %c (expecting letter or '_' or number)", UtilFuncName(), name[0])
+		if !isLetter(name[i]) && name[i] != '_' && !isDigit(name[i]) {
+			return false, fmt.Errorf("%s: invalid char: %c (expecting letter or '_' or number)", UtilFuncName(), name[i])
 		}
 	}
 
-- 
2.43.0


From db6467c756b06a8088e0416a2fe7ea2f31e3c7d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:59 +0000
Subject: [PATCH 28/50] fix: Equals compared nested tables by the first table's
 column positions

---
 gotables.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gotables.go b/gotables.go
index 145d290..adf61c4 100644
--- a/gotables.go
+++ b/gotables.go
@@ -3421,7 +3421,7 @@ func (table1 *Table) Equals(table2 *Table) (equals bool, err error) {
 				if err != nil {
 					return false, err
 				}
-				nestedTable2, err := table2.GetTableByColIndex(colIndex, rowIndex)
+				nestedTable2, err := table2.GetTable(colName, rowIndex)
 				if err != nil {
 					return false, err
 				}
-- 
2.43.0


From 80d673182b459029293abfe199171b7c0300c0d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:54 +0000
Subject: [PATCH 29/50] fix: NewTableSetFromJSON panicked on malformed
 documents and rounded or wrapped numbers

---
 json.go | 195 ++++++++++++++++++++++++++++++++++++++++----------------
 1 file changed, 140 insertions(+), 55 deletions(-)

diff --git a/json.go b/json.go
index 376de3a..9ebda43 100644
--- a/json.go
+++ b/json.go
@@ -9,7 +9,7 @@ import (
 	_ "os"
 	"reflect"
 	"regexp"
-	_ "strconv"
+	"strconv"
 	"strings"
 	"time"
 )
@@ -315,7 +315,11 @@ func newTableFromJSON_recursive(jsonMap map[string]interface{}) (table *Table, e
 		var colName string
 		var colType string
 		var val interface{}
-		for colName, val = range colNameAndType.(map[string]interface{}) {
+		colNameAndTypeMap, isMap := colNameAndType.(map[string]interface{})
+		if !isMap {
+			return nil, fmt.Errorf("expecting col name and type from JSON but got type %T: %v", colNameAndType, colNameAndType)
+		}
+		for colName, val = range colNameAndTypeMap {
 			// There's only one map element here: colName and colType.
 		}
 		var ok bool
@@ -346,14 +350,26 @@ func newTableFromJSON_recursive(jsonMap map[string]interface{}) (table *Table, e
 			return nil, err
 		}
 
-		var row []interface{} = val.([]interface{})
-		for colIndex, val := range row {
+		row, isSlice := val.([]interface{})
+		if !isSlice {
+			return nil, fmt.Errorf("expecting row %d of JSON table [%s] to be an array but got type %T: %v", rowIndex, tableName, val, val)
+		}
+		for _, val := range row {
 			// where(fmt.Sprintf("\t\tcol [%d] %v", colIndex, val))
-			var cell interface{}
-			for _, cell = range val.(map[string]interface{}) {
-				// There's only one map element here: colName and colType.
+			cellMap, isMap := val.(map[string]interface{})
+			if !isMap {
+				return nil, fmt.Errorf("expecting a cell of row %d of JSON table [%s] to be an object but got type %T: %v", rowIndex, tableName, val, val)
+			}
+			for colName, cell := range cellMap {
+				// There's only one map element here: colName and cell value.
 				// where(fmt.Sprintf("\t\t\tcol=%d row=%d celltype=%T cell=%v", colIndex, rowIndex, cell, cell))
 
+				var colIndex int
+				colIndex, err = table.ColIndex(colName)
+				if err != nil {
+					return nil, err
+				}
+
 				var colType string = table.colTypes[colIndex]
 				switch cell.(type) {
 				case string:
@@ -361,8 +377,11 @@ func newTableFromJSON_recursive(jsonMap map[string]interface{}) (table *Table, e
 					case "rune":
 						var stringVal = cell.(string)
 						var runeSlice []rune = []rune(stringVal)
-						var runeVal rune = runeSlice[0]
-						err = table.SetRuneByColIndex(colIndex, rowIndex, runeVal)
+						if len(runeSlice) != 1 {
+							return nil, fmt.Errorf("%s %s: expecting 1 rune at [%s].(%d,%d) but got %d: %q",
+								UtilFuncSource(), UtilFuncName(), tableName, colIndex, rowIndex, len(runeSlice), stringVal)
+						}
+						err = table.SetRuneByColIndex(colIndex, rowIndex, runeSlice[0])
 					case "time.Time":
 						var timeVal time.Time
 						timeVal, err = time.Parse(time.RFC3339, cell.(string))
@@ -394,47 +413,8 @@ func newTableFromJSON_recursive(jsonMap map[string]interface{}) (table *Table, e
 
 				// Deal with conversions to larger ints: int64 uint64
 				case json.Number: // We set to json.Number with: decoder.UseNumber()
-					var float64Val float64
-					float64Val, err = cell.(json.Number).Float64()
-					if err != nil {
-						err := fmt.Errorf("could not convert json.Number to float64")
-						return nil, fmt.Errorf("%s %s: %v", UtilFuncSource(), UtilFuncName(), err)
-					}
-
-					switch colType { // We need to convert them back to gotables numeric types
-					case "int64":
-						err = table.SetInt64ByColIndex(colIndex, rowIndex, int64(float64Val))
-					case "uint64":
-						err = table.SetUint64ByColIndex(colIndex, rowIndex, uint64(float64Val))
-					case "float32":
-						err = table.SetFloat32ByColIndex(colIndex, rowIndex, float32(float64Val))
-					case "float64":
-						err = table.SetFloat64ByColIndex(colIndex, rowIndex, float64Val)
-					case "int":
-						err = table.SetIntByColIndex(colIndex, rowIndex, int(float64Val))
-					case "uint":
-						err = table.SetUintByColIndex(colIndex, rowIndex, uint(float64Val))
-					case "byte":
-						err = table.SetByteByColIndex(colIndex, rowIndex, byte(float64Val))
-					case "int8":
-						err = table.SetInt8ByColIndex(colIndex, rowIndex, int8(float64Val))
-					case "int16":
-						err = table.SetInt16ByColIndex(colIndex, rowIndex, int16(float64Val))
-					case "int32":
-						err = table.SetInt32ByColIndex(colIndex, rowIndex, int32(float64Val))
-					case "uint8":
-						err = table.SetUint8ByColIndex(colIndex, rowIndex, uint8(float64Val))
-					case "uint16":
-						err = table.SetUint16ByColIndex(colIndex, rowIndex, uint16(float64Val))
-					case "uint32":
-						err = table.SetUint32ByColIndex(colIndex, rowIndex, uint32(float64Val))
-					default:
-						return nil, fmt.Errorf("%s %s: unexpected value of type: %s",
-							UtilFuncSource(), UtilFuncName(), colType)
-					}
-					// Single error handler for all the calls in this switch statement.
+					err = table.setCellFromNumber(colIndex, rowIndex, cell.(json.Number).String())
 					if err != nil {
-						err := fmt.Errorf("could not convert JSON float64 to gotables %s", colType)
 						return nil, fmt.Errorf("%s %s: %v", UtilFuncSource(), UtilFuncName(), err)
 					}
 				case bool:
@@ -443,14 +423,19 @@ func newTableFromJSON_recursive(jsonMap map[string]interface{}) (table *Table, e
 				case []interface{}: // This cell is a slice (probably either byte or uint8)
 					var interfaceSlice []interface{} = cell.([]interface{})
 					var byteSlice []byte = []byte{} // Ready to append to.
-					var float64Val float64
 					for _, sliceVal := range interfaceSlice {
-						float64Val, err = sliceVal.(json.Number).Float64()
+						number, isNumber := sliceVal.(json.Number)
+						if !isNumber {
+							return nil, fmt.Errorf("%s %s: expecting a number at [%s].(%d,%d) but got type %T: %v",
+								UtilFuncSource(), UtilFuncName(), tableName, colIndex, rowIndex, sliceVal, sliceVal)
+						}
+						var uint64Val uint64
+						uint64Val, err = strconv.ParseUint(number.String(), 10, 8)
 						if err != nil {
-							err := fmt.Errorf("could not convert json.Number to float64")
-							return nil, fmt.Errorf("%s %s: %v", UtilFuncSource(), UtilFuncName(), err)
+							return nil, fmt.Errorf("%s %s: expecting a byte at [%s].(%d,%d): %v",
+								UtilFuncSource(), UtilFuncName(), tableName, colIndex, rowIndex, err)
 						}
-						byteSlice = append(byteSlice, byte(float64Val))
+						byteSlice = append(byteSlice, byte(uint64Val))
 					}
 					err = table.SetByteSliceByColIndex(colIndex, rowIndex, byteSlice)
 					if err != nil {
@@ -499,6 +484,103 @@ func newTableFromJSON_recursive(jsonMap map[string]interface{}) (table *Table, e
 	return
 }
 
+/*
+	Set a numeric cell from the decimal text of a number (as found in a JSON or YAML document).
+
+	It is an error if the number cannot be represented in the type of the column.
+*/
+func (table *Table) setCellFromNumber(colIndex int, rowIndex int, number string) (err error) {
+	var int64Val int64
+	var uint64Val uint64
+	var float64Val float64
+
+	colType, err := table.ColTypeByColIndex(colIndex)
+	if err != nil {
+		return err
+	}
+
+	switch colType {
+	case "int":
+		int64Val, err = strconv.ParseInt(number, 10, strconv.IntSize)
+		if err == nil {
+			err = table.SetIntByColIndex(colIndex, rowIndex, int(int64Val))
+		}
+	case "int8":
+		int64Val, err = strconv.ParseInt(number, 10, 8)
+		if err == nil {
+			err = table.SetInt8ByColIndex(colIndex, rowIndex, int8(int64Val))
+		}
+	case "int16":
+		int64Val, err = strconv.ParseInt(number, 10, 16)
+		if err == nil {
+			err = table.SetInt16ByColIndex(colIndex, rowIndex, int16(int64Val))
+		}
+	case "int32":
+		int64Val, err = strconv.ParseInt(number, 10, 32)
+		if err == nil {
+			err = table.SetInt32ByColIndex(colIndex, rowIndex, int32(int64Val))
+		}
+	case "rune":
+		int64Val, err = strconv.ParseInt(number, 10, 32)
+		if err == nil {
+			err = table.SetRuneByColIndex(colIndex, rowIndex, rune(int64Val))
+		}
+	case "int64":
+		int64Val, err = strconv.ParseInt(number, 10, 64)
+		if err == nil {
+			err = table.SetInt64ByColIndex(colIndex, rowIndex, int64Val)
+		}
+	case "uint":
+		uint64Val, err = strconv.ParseUint(number, 10, strconv.IntSize)
+		if err == nil {
+			err = table.SetUintByColIndex(colIndex, rowIndex, uint(uint64Val))
+		}
+	case "byte":
+		uint64Val, err = strconv.ParseUint(number, 10, 8)
+		if err == nil {
+			err = table.SetByteByColIndex(colIndex, rowIndex, byte(uint64Val))
+		}
+	case "uint8":
+		uint64Val, err = strconv.ParseUint(number, 10, 8)
+		if err == nil {
+			err = table.SetUint8ByColIndex(colIndex, rowIndex, uint8(uint64Val))
+		}
+	case "uint16":
+		uint64Val, err = strconv.ParseUint(number, 10, 16)
+		if err == nil {
+			err = table.SetUint16ByColIndex(colIndex, rowIndex, uint16(uint64Val))
+		}
+	case "uint32":
+		uint64Val, err = strconv.ParseUint(number, 10, 32)
+		if err == nil {
+			err = table.SetUint32ByColIndex(colIndex, rowIndex, uint32(uint64Val))
+		}
+	case "uint64":
+		uint64Val, err = strconv.ParseUint(number, 10, 64)
+		if err == nil {
+			err = table.SetUint64ByColIndex(colIndex, rowIndex, uint64Val)
+		}
+	case "float32":
+		float64Val, err = strconv.ParseFloat(number, 32)
+		if err == nil {
+			err = table.SetFloat32ByColIndex(colIndex, rowIndex, float32(float64Val))
+		}
+	case "float64":
+		float64Val, err = strconv.ParseFloat(number, 64)
+		if err == nil {
+			err = table.SetFloat64ByColIndex(colIndex, rowIndex, float64Val)
+		}
+	default:
+		err = fmt.Errorf("%s", invalidColTypeMsg(table.Name(), colType))
+	}
+	if err != nil {
+		return fmt.Errorf("cannot set [%s].(%d,%d) of type %s to number %s: %v",
+			table.Name(), colIndex, rowIndex, colType, number, err)
+	}
+
+	return nil
+}
+
 func (tableSet *TableSet) GetTableSetAsJSONIndent() (jsonTableSetStringIndented string, err error) {
 
 	if tableSet == nil {
@@ -615,7 +697,10 @@ func NewTableSetFromJSON(jsonTableSetString string) (tableSet *TableSet, err err
 	// (3) Loop through the array of tables.
 	for _, tableMapInterface = range tablesMap {
 
-		tableMap = tableMapInterface.(map[string]interface{})
+		tableMap, exists = tableMapInterface.(map[string]interface{})
+		if !exists {
+			return nil, fmt.Errorf("%s: expecting a JSON table to be an object but got type %T", UtilFuncName(), tableMapInterface)
+		}
 
 		var table *Table
 		table, err = newTableFromJSON_recursive(tableMap)
-- 
2.43.0


From 3e2e3c981eff798b598fa9edc6097c27111e75f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:54 +0000
Subject: [PATCH 30/50] fix: NewTableSetFromYAML panicked on malformed
 documents, wrapped numbers and refused integral float64 cells

---
 yaml.go | 216 ++++++++++++++++----------------------------------------
 1 file changed, 60 insertions(+), 156 deletions(-)

diff --git a/yaml.go b/yaml.go
index 757a32a..5917258 100644
--- a/yaml.go
+++ b/yaml.go
@@ -3,7 +3,9 @@ package gotables
 import (
 	_ "encoding/json"
 	"fmt"
+	"math"
 	_ "os"
+	"strconv"
 	_ "strings"
 	"time"
 
@@ -55,9 +57,7 @@ func NewTableSetFromYAML(yamlTableSetString string) (tableSet *TableSet, err err
 	// (2) Retrieve and process tables.
 	var tablesMap []interface{}
 	var anyVal interface{}
-	anyVal, exists = tableSetMap["tables"]
-	tablesMap = anyVal.([]interface{})
-
+	tablesMap, exists = tableSetMap["tables"].([]interface{})
 	if !exists {
 		return nil, fmt.Errorf("%s %s: in YAML doc: 'tables' is missing", UtilFuncSource(), UtilFuncName())
 	}
@@ -67,7 +67,10 @@ func NewTableSetFromYAML(yamlTableSetString string) (tableSet *TableSet, err err
 	// (3) Loop through the array of tables.
 	for _, anyVal = range tablesMap {
 
-		tableMap = anyVal.(map[string]interface{})
+		tableMap, exists = anyVal.(map[string]interface{})
+		if !exists {
+			return nil, fmt.Errorf("%s %s: in YAML doc: expecting a table but got type %T", UtilFuncSource(), UtilFuncName(), anyVal)
+		}
 
 		var table *Table
 		table, err = newTableFromYAML_recursive(tableMap)
@@ -136,7 +139,11 @@ func newTableFromYAML_recursive(tableMap map[string]interface{}) (table *Table,
 		var colName string
 		var colType string
 		var typeVal interface{}
-		for colName, typeVal = range colNameAndType.(map[string]interface{}) {
+		colNameAndTypeMap, isMap := colNameAndType.(map[string]interface{})
+		if !isMap {
+			return nil, fmt.Errorf("expecting col name and type from YAML but got type %T and value: %v", colNameAndType, colNameAndType)
+		}
+		for colName, typeVal = range colNameAndTypeMap {
 			// There's only one map element here: colName and colType.
 		}
 		colType, ok := typeVal.(string)
@@ -173,9 +180,11 @@ func newTableFromYAML_recursive(tableMap map[string]interface{}) (table *Table,
 		dataMapSlice = whatever.([]interface{})
 		data = make([][]interface{}, len(dataMapSlice))
 		for i, el1 := range dataMapSlice {
-			for _, el2 := range el1.([]interface{}) {
-				data[i] = append(data[i], el2)
+			rowSlice, isSlice := el1.([]interface{})
+			if !isSlice {
+				return nil, fmt.Errorf("expecting row %d of YAML table [%s] to be a list but got type %T and value: %v", i, tableName, el1, el1)
 			}
+			data[i] = append(data[i], rowSlice...)
 		}
 	default:
 	}
@@ -196,171 +205,66 @@ func newTableFromYAML_recursive(tableMap map[string]interface{}) (table *Table,
 			return
 		}
 		row = data[rowIndex]
+		if len(row) > table.ColCount() {
+			return nil, fmt.Errorf("expecting %d cells in row %d of YAML table [%s] but got %d", table.ColCount(), rowIndex, tableName, len(row))
+		}
 		for colIndex := 0; colIndex < len(row); colIndex++ {
-			switch row[colIndex].(type) {
-			case uint:
-				err = table.SetUintByColIndex(colIndex, rowIndex, row[colIndex].(uint))
+			var cell interface{} = row[colIndex]
+			var colType string = table.colTypes[colIndex]
+
+			switch cellVal := cell.(type) {
 			case int:
-				var intVal = row[colIndex].(int)
-				switch table.colTypes[colIndex] {
-				case "int":
-					err = table.SetIntByColIndex(colIndex, rowIndex, row[colIndex].(int))
-				case "uint":
-					var intVal int = row[colIndex].(int)
-					var uintVal uint = uint(intVal)
-					err = table.SetUintByColIndex(colIndex, rowIndex, uintVal)
-				case "int8":
-					err = table.SetInt8ByColIndex(colIndex, rowIndex, int8(intVal))
-				case "int16":
-					err = table.SetInt16ByColIndex(colIndex, rowIndex, int16(intVal))
-				case "int32":
-					err = table.SetInt32ByColIndex(colIndex, rowIndex, int32(intVal))
-				case "int64":
-					err = table.SetInt64ByColIndex(colIndex, rowIndex, int64(intVal))
-				case "uint8":
-					err = table.SetUint8ByColIndex(colIndex, rowIndex, uint8(intVal))
-				case "byte":
-					err = table.SetByteByColIndex(colIndex, rowIndex, uint8(intVal))
-				case "uint16":
-					err = table.SetUint16ByColIndex(colIndex, rowIndex, uint16(intVal))
-				case "uint32":
-					err = table.SetUint32ByColIndex(colIndex, rowIndex, uint32(intVal))
-				case "uint64":
-					err = table.SetUint64ByColIndex(colIndex, rowIndex, uint64(intVal))
-				case "float32":
-					err = table.SetFloat32ByColIndex(colIndex, rowIndex, float32(intVal))
-				case "time.Time":
-					err = table.SetTimeByColIndex(colIndex, rowIndex, row[colIndex].(time.Time))
-				case "rune":
-					err = table.SetRuneByColIndex(colIndex, rowIndex, rune(intVal))
-				default:
-					msg := invalidColTypeMsg(table.Name(), table.colTypes[colIndex])
-					err = fmt.Errorf("%s %s: %s", UtilFuncSource(), UtilFuncName(), msg)
-					table = nil
-					return
-				}
-				// Error handler for all cases.
-				if err != nil {
-					table = nil
-					return
-				}
-			case float32:
-				var float32Val float32 = row[colIndex].(float32)
-				err = table.SetFloat32ByColIndex(colIndex, rowIndex, float32Val)
+				err = table.setCellFromNumber(colIndex, rowIndex, strconv.FormatInt(int64(cellVal), 10))
+			case int64:
+				err = table.setCellFromNumber(colIndex, rowIndex, strconv.FormatInt(cellVal, 10))
+			case uint64: // Too large for an int.
+				err = table.setCellFromNumber(colIndex, rowIndex, strconv.FormatUint(cellVal, 10))
 			case float64:
-				switch table.colTypes[colIndex] {
+				switch colType {
 				case "float32":
-					var float64Val float64 = row[colIndex].(float64)
-					err = table.SetFloat32ByColIndex(colIndex, rowIndex, float32(float64Val))
+					err = table.SetFloat32ByColIndex(colIndex, rowIndex, float32(cellVal))
 				case "float64":
-					err = table.SetFloat64ByColIndex(colIndex, rowIndex, row[colIndex].(float64))
+					err = table.SetFloat64ByColIndex(colIndex, rowIndex, cellVal)
 				default:
-					msg := invalidColTypeMsg(table.Name(), table.colTypes[colIndex])
-					err = fmt.Errorf("%s %s: %s", UtilFuncSource(), UtilFuncName(), msg)
-					table = nil
-					return
+					err = fmt.Errorf("%s", invalidColTypeMsg(table.Name(), colType))
 				}
-			case byte:
-				var byteVal byte = row[colIndex].(byte)
-				err = table.SetByteByColIndex(colIndex, rowIndex, byteVal)
-			case rune:
-				var runeVal rune = row[colIndex].(rune)
-				err = table.SetRuneByColIndex(colIndex, rowIndex, runeVal)
 			case string:
-				var stringVal string = row[colIndex].(string)
-				err = table.SetStringByColIndex(colIndex, rowIndex, stringVal)
+				err = table.SetStringByColIndex(colIndex, rowIndex, cellVal)
 			case bool:
-				err = table.SetBoolByColIndex(colIndex, rowIndex, row[colIndex].(bool))
+				err = table.SetBoolByColIndex(colIndex, rowIndex, cellVal)
 			case time.Time:
-				err = table.SetTimeByColIndex(colIndex, rowIndex, row[colIndex].(time.Time))
-			case interface{}:
-				switch table.colTypes[colIndex] {
-				case "byte":
-					err = table.SetByteByColIndex(colIndex, rowIndex, row[colIndex].(byte))
-
-				case "uint":
-					var uint64Val uint64 = row[colIndex].(uint64)
-					err = table.SetUintByColIndex(colIndex, rowIndex, uint(uint64Val))
-
-				case "uint16":
-					err = table.SetUint16ByColIndex(colIndex, rowIndex, row[colIndex].(uint16))
-
-				case "uint32":
-					err = table.SetUint32ByColIndex(colIndex, rowIndex, row[colIndex].(uint32))
-
-				case "uint64":
-					err = table.SetUint64ByColIndex(colIndex, rowIndex, row[colIndex].(uint64))
-
-				case "int8":
-					err = table.SetInt8ByColIndex(colIndex, rowIndex, row[colIndex].(int8))
-
-				case "int16":
-					err = table.SetInt16ByColIndex(colIndex, rowIndex, row[colIndex].(int16))
-
-				case "int64":
-					err = table.SetInt64ByColIndex(colIndex, rowIndex, row[colIndex].(int64))
-
-				case "*Table":
-					var tableOut *Table
-					tableOut, err = newTableFromYAML_recursive(row[colIndex].(map[string]interface{}))
-					if err != nil {
-						return
-					}
-					err = table.SetTableByColIndex(colIndex, rowIndex, tableOut)
-
-				case "[]byte", "[]uint8":
-					var sliceVal []interface{}
-					var byteSliceVal []byte
-
-					switch row[colIndex].(type) {
-					case []byte:
-						byteSliceVal = row[colIndex].([]byte)
-					case []interface{}:
-						sliceVal = row[colIndex].([]interface{})
-						byteSliceVal = make([]byte, len(sliceVal))
-						for i := 0; i < len(sliceVal); i++ {
-							var intVal int = sliceVal[i].(int)
-							byteSliceVal[i] = byte(intVal)
-						}
-					case interface{}:
-					default:
-					}
-					switch table.colTypes[colIndex] {
-					case "[]byte":
-						err = table.SetByteSliceByColIndex(colIndex, rowIndex, byteSliceVal)
-					case "[]uint8":
-						err = table.SetUint8SliceByColIndex(colIndex, rowIndex, byteSliceVal)
-					default:
-						msg := invalidColTypeMsg(table.Name(), table.colTypes[colIndex])
-						err = fmt.Errorf("#1 %s %s: %s", UtilFuncSource(), UtilFuncName(), msg)
-						table = nil
-						return
+				err = table.SetTimeByColIndex(colIndex, rowIndex, cellVal)
+			case map[string]interface{}: // This cell is a table.
+				var tableNested *Table
+				tableNested, err = newTableFromYAML_recursive(cellVal)
+				if err == nil {
+					err = table.SetTableByColIndex(colIndex, rowIndex, tableNested)
+				}
+			case []interface{}: // This cell is a slice of bytes.
+				var byteSliceVal []byte = make([]byte, len(cellVal))
+				for i := 0; i < len(cellVal); i++ {
+					intVal, isInt := cellVal[i].(int)
+					if !isInt || intVal < 0 || intVal > math.MaxUint8 {
+						return nil, fmt.Errorf("%s %s: expecting a byte at [%s].(%d,%d) but got type %T and value: %v",
+							UtilFuncSource(), UtilFuncName(), tableName, colIndex, rowIndex, cellVal[i], cellVal[i])
 					}
-
-				default:
-					msg := invalidColTypeMsg(table.Name(), table.colTypes[colIndex])
-					err = fmt.Errorf("#2 %s %s: %s", UtilFuncSource(), UtilFuncName(), msg)
-					table = nil
-					return
+					byteSliceVal[i] = byte(intVal)
 				}
-				// #1 Error handler for all cases.
-				if err != nil {
-					table = nil
-					return
+				switch colType {
+				case "[]byte":
+					err = table.SetByteSliceByColIndex(colIndex, rowIndex, byteSliceVal)
+				case "[]uint8":
+					err = table.SetUint8SliceByColIndex(colIndex, rowIndex, byteSliceVal)
+				default:
+					err = fmt.Errorf("%s", invalidColTypeMsg(table.Name(), colType))
 				}
-			case []interface{}:
-			case []byte:
-			case *Table:
 			default:
-				msg := invalidColTypeMsg(table.Name(), table.colTypes[colIndex])
-				err = fmt.Errorf("#3 %s %s: %s", UtilFuncSource(), UtilFuncName(), msg)
-				table = nil
-				return
+				err = fmt.Errorf("unexpected value of type %T for col type %s at [%s].(%d,%d): %v",
+					cell, colType, tableName, colIndex, rowIndex, cell)
 			}
-			// #3 Error handler for all cases.
+			// Error handler for all cases.
 			if err != nil {
-				table = nil
-				return
+				return nil, fmt.Errorf("%s %s: %v", UtilFuncSource(), UtilFuncName(), err)
 			}
 		}
 	}
-- 
2.43.0


From 9987d48fbdbb54b203d7e17dc05a7cde07703874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:34 +0000
Subject: [PATCH 31/50] fix: JSON writers wrote invalid JSON for some strings,
 runes and floats

---
 json.go | 73 ++++++++++++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 65 insertions(+), 8 deletions(-)

diff --git a/json.go b/json.go
index 9ebda43..2452ede 100644
--- a/json.go
+++ b/json.go
@@ -5,13 +5,14 @@ import (
 	"encoding/json"
 	"fmt"
 	"io"
-	_ "math"
+	"math"
 	_ "os"
 	"reflect"
 	"regexp"
 	"strconv"
 	"strings"
 	"time"
+	"unicode/utf8"
 )
 
 type circRefMap map[*Table]struct{}
@@ -100,7 +101,11 @@ func getTableAsJSON_recursive(table *Table, buf *bytes.Buffer, refMap circRefMap
 	// Add this table to the circular reference map.
 	refMap[table] = EmptyStruct
 
-	buf.WriteString(fmt.Sprintf(`"tableName":%q,`, table.Name()))
+	tableNameQuoted, err := jsonQuote(table.Name())
+	if err != nil {
+		return err
+	}
+	buf.WriteString(fmt.Sprintf(`"tableName":%s,`, tableNameQuoted))
 
 	isStructShape, err := table.IsStructShape()
 	if err != nil {
@@ -143,9 +148,26 @@ func getTableAsJSON_recursive(table *Table, buf *bytes.Buffer, refMap circRefMap
 			switch val.(type) {
 
 			case string:
-				buf.WriteString(fmt.Sprintf("%q", val.(string)))
+				var quoted string
+				quoted, err = jsonQuote(val.(string))
+				if err != nil {
+					return fmt.Errorf("%s: table [%s] col %s row %d: %v", UtilFuncName(), table.Name(), table.colNames[colIndex], rowIndex, err)
+				}
+				buf.WriteString(quoted)
 
 			case bool, int, uint, int8, int16, int64, uint8, uint16, uint32, uint64, float32, float64:
+				if colType := table.colTypes[colIndex]; colType == "float32" || colType == "float64" {
+					var float64Val float64
+					if colType == "float32" {
+						float64Val = float64(val.(float32))
+					} else {
+						float64Val = val.(float64)
+					}
+					if math.IsNaN(float64Val) || math.IsInf(float64Val, 0) {
+						return fmt.Errorf("%s: table [%s] col %s row %d: JSON has no number for %v",
+							UtilFuncName(), table.Name(), table.colNames[colIndex], rowIndex, float64Val)
+					}
+				}
 				var valStr string
 				valStr, err = table.GetValAsStringByColIndex(colIndex, rowIndex)
 				if err != nil {
@@ -164,10 +186,19 @@ func getTableAsJSON_recursive(table *Table, buf *bytes.Buffer, refMap circRefMap
 				case "int32":
 					buf.WriteString(valStr)
 				case "rune":
-					buf.WriteString(fmt.Sprintf("%q", valStr))
+					if !utf8.ValidRune(val.(int32)) {
+						return fmt.Errorf("%s: table [%s] col %s row %d: JSON has no character for rune %d",
+							UtilFuncName(), table.Name(), table.colNames[colIndex], rowIndex, val)
+					}
+					var quoted string
+					quoted, err = jsonQuote(valStr)
+					if err != nil {
+						return err
+					}
+					buf.WriteString(quoted)
 				default:
 					msg := invalidColTypeMsg(table.Name(), fmt.Sprintf("%s: %s", UtilFuncName(), table.colTypes[colIndex]))
-					buf.WriteString(msg)
+					return fmt.Errorf("%s", msg)
 				}
 
 			case []byte:
@@ -223,7 +254,8 @@ func getTableAsJSON_recursive(table *Table, buf *bytes.Buffer, refMap circRefMap
 				}
 
 			default:
-				buf.WriteString(`"TYPE UNKNOWN"`)
+				return fmt.Errorf("%s: table [%s] col %s row %d: unexpected type %T",
+					UtilFuncName(), table.Name(), table.colNames[colIndex], rowIndex, val)
 			}
 
 			buf.WriteByte(125) // Closing brace
@@ -241,6 +273,27 @@ func getTableAsJSON_recursive(table *Table, buf *bytes.Buffer, refMap circRefMap
 	return
 }
 
+/*
+	Quote a string as JSON. Unlike %q this uses no escapes which JSON does not have.
+
+	It is an error if the string is not valid UTF-8, because JSON cannot represent it.
+*/
+func jsonQuote(s string) (quoted string, err error) {
+	if !utf8.ValidString(s) {
+		return "", fmt.Errorf("JSON cannot represent invalid UTF-8 string %q", s)
+	}
+
+	var buf bytes.Buffer
+	encoder := json.NewEncoder(&buf)
+	encoder.SetEscapeHTML(false)
+	err = encoder.Encode(s)
+	if err != nil {
+		return "", err
+	}
+
+	return strings.TrimSuffix(buf.String(), "\n"), nil // Encode() adds a newline.
+}
+
 func (table *Table) GetTableAsJSONIndent() (jsonStringIndented string, err error) {
 	//where(fmt.Sprintf("***INSIDE*** %s", UtilFuncName()))
 
@@ -263,7 +316,7 @@ func checkJsonDecodeError(checkErr error) (err error) {
 	}
 
 	if checkErr != nil {
-		return fmt.Errorf("%s %s: %v", UtilFuncSource(), UtilFuncName(), err)
+		return fmt.Errorf("%s %s: %v", UtilFuncSource(), UtilFuncName(), checkErr)
 	}
 
 	return nil
@@ -613,7 +666,11 @@ func (tableSet *TableSet) GetTableSetAsJSON() (jsonTableSetString string, err er
 	var buf bytes.Buffer
 
 	buf.WriteByte(123) // Opening brace outermost
-	buf.WriteString(fmt.Sprintf(`"tableSetName":%q,`, tableSet.Name()))
+	tableSetNameQuoted, err := jsonQuote(tableSet.Name())
+	if err != nil {
+		return "", err
+	}
+	buf.WriteString(fmt.Sprintf(`"tableSetName":%s,`, tableSetNameQuoted))
 	buf.WriteString(`"tables":[`) // Opening array of tables
 
 	var tableCount int = tableSet.TableCount()
-- 
2.43.0


From 653cf777e678d8347532fd4fe69b0ec46028e284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:59 +0000
Subject: [PATCH 32/50] fix: Nest left the table changed when it failed

---
 nest.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/nest.go b/nest.go
index d6d3e31..8516d12 100644
--- a/nest.go
+++ b/nest.go
@@ -42,9 +42,7 @@ SOFTWARE.
 		nestedString, _ = table.GetString(nestColName, rowIndex)
 		nestedTable,  _ = gotables.NewTableFromString(nestedString)
 */
-func (table *Table) Nest(nestable *Table, nestColName string) error {
-
-	var err error
+func (table *Table) Nest(nestable *Table, nestColName string) (err error) {
 
 	if table == nil {
 		return fmt.Errorf("table.%s(nestable, nestColName): table is <nil>", UtilFuncName())
@@ -60,6 +58,20 @@ func (table *Table) Nest(nestable *Table, nestColName string) error {
 		return err
 	}
 
+	// If there is an error leave table as it was.
+	oldSortKeys := append(newSortKeys(), table.sortKeys...)
+	oldRows := append([]tableRow{}, table.rows...)
+	var nestColAppended bool
+	defer func() {
+		if err != nil {
+			if nestColAppended {
+				_ = table.DeleteCol(nestColName)
+			}
+			table.sortKeys = oldSortKeys
+			copy(table.rows, oldRows)
+		}
+	}()
+
 	// Use whichever table has sort keys for the shared keys. table is dominant over nestable.
 	if table.SortKeyCount() == 0 {
 		err = table.SetSortKeysFromTable(nestable)
@@ -104,6 +116,7 @@ func (table *Table) Nest(nestable *Table, nestColName string) error {
 	if err != nil {
 		return err
 	}
+	nestColAppended = true
 
 	// Loop through rows of table, slicing matching rows (if any) from nestable.
 	for rowIndex := 0; rowIndex < table.RowCount(); rowIndex++ {
-- 
2.43.0


From cfc2bf0679498daa9fb8926034260b44f6a5187c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:20 +0000
Subject: [PATCH 33/50] fix: StringUnpadded printed nothing for byte, byte
 slice and time columns

---
 gotables.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gotables.go b/gotables.go
index adf61c4..e794ee3 100644
--- a/gotables.go
+++ b/gotables.go
@@ -1242,9 +1242,11 @@ func (table *Table) _String(horizontalSeparator byte) string {
 				case "bool":
 					tVal = row[colIndex].(bool)
 					buf.WriteString(fmt.Sprintf("%t", tVal))
-				case "uint8":
+				case "uint8", "byte":
 					ui8Val = row[colIndex].(uint8)
 					buf.WriteString(fmt.Sprintf("%d", ui8Val))
+				case "[]uint8", "[]byte":
+					buf.WriteString(fmt.Sprintf("%v", row[colIndex].([]uint8)))
 				case "uint16":
 					ui16Val = row[colIndex].(uint16)
 					buf.WriteString(fmt.Sprintf("%d", ui16Val))
@@ -1286,6 +1288,8 @@ func (table *Table) _String(horizontalSeparator byte) string {
 					buf.WriteByte(91) // Opening square bracket.
 					buf.WriteString(tableName)
 					buf.WriteByte(93) // Closing square bracket.
+				case "time.Time":
+					buf.WriteString(row[colIndex].(time.Time).Format(time.RFC3339Nano))
 				default:
 					log.Printf("%s #1 ERROR IN %s: unknown type: %s\n",
 						UtilFuncSource(), UtilFuncName(), table.colTypes[colIndex])
-- 
2.43.0


From 0b5b5462f6ed1cc681d580c501443d9e2b024661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:23 +0000
Subject: [PATCH 34/50] fix: String wrote large integers by way of floating
 point

---
 gotables.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gotables.go b/gotables.go
index e794ee3..6ec144a 100644
--- a/gotables.go
+++ b/gotables.go
@@ -1349,15 +1349,15 @@ func printMatrix(tableName string, matrix [][]string, width []int, precis []int,
 				var toWrite string
 				if row <= 1 { // It's a colName or typeName
 					toWrite = matrix[col][row]
-				} else { // It's numeric. Note: float conversion handles int conversion.
+				} else if colTypes[col] != "float32" && colTypes[col] != "float64" { // It's an integer, written exactly.
+					toWrite = matrix[col][row]
+				} else { // It's floating point.
 					var bits int
 					switch colTypes[col] {
 					case "float32":
 						bits = 32
 					case "float64":
 						bits = 64
-					default:
-						bits = 64 // For int and other non-float integrals.
 					}
 					// Convert back to float so we can format it again in light of the maximum precision in the column.
 					float64Val, err := strconv.ParseFloat(matrix[col][row], bits)
-- 
2.43.0


From 29e17828b2fd808bec2901cd5b7f59649c36c119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:36 +0000
Subject: [PATCH 35/50] fix: TableSet.StringUnpadded left out the name of the
 table set

---
 gotables.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gotables.go b/gotables.go
index 6ec144a..1d234da 100644
--- a/gotables.go
+++ b/gotables.go
@@ -342,6 +342,9 @@ func (tableSet *TableSet) _String(horizontalSeparator byte) string {
 
 	var buf bytes.Buffer
 	//	buf.WriteString("# From file: \"" + tableSet.name + "\"\n\n")
+	if tableSet.Name() != "" {
+		buf.WriteString(fmt.Sprintf("[[%s]]\n\n", tableSet.Name()))
+	}
 	var tableSep = ""
 	var table *Table
 	for i := 0; i < len(tableSet.tables); i++ {
-- 
2.43.0


From 9e56b6e4a02081b2ab5dbf72ade3ff7fc96e0379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:00 +0000
Subject: [PATCH 36/50] fix: struct-shape output did not escape strings and
 runes

---
 gotables.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/gotables.go b/gotables.go
index 1d234da..fae238d 100644
--- a/gotables.go
+++ b/gotables.go
@@ -22,6 +22,7 @@ import (
 	"strconv"
 	"strings"
 	"time"
+	"unicode/utf8"
 	"unicode"
 )
 
@@ -1652,12 +1653,12 @@ func printStruct(table *Table) string {
 
 			switch table.colTypes[colIndex] {
 			case "string":
-				// Note 1: GetValAsStringByColIndex() doesn't include delimiters around strings.
-				// Note 2: Don't use %q. Use \"%s\" instead. Because %q replicates escape slashes.
-				s += " = " + fmt.Sprintf("\"%s\"", asString)
+				// Note: GetValAsStringByColIndex() doesn't include delimiters around strings.
+				s += " = " + strconv.Quote(asString)
 			case "rune":
 				// Note: GetValAsStringByColIndex() doesn't include delimiters around runes.
-				s += " = " + fmt.Sprintf("'%s'", asString)
+				runeVal, _ := utf8.DecodeRuneInString(asString)
+				s += " = " + strconv.QuoteRune(runeVal)
 			default:
 				// All other types don't have delimiters.
 				s += " = " + asString
-- 
2.43.0


From ab3d3c53e9fecae1aa11e80e3ab154d36752d35a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:19 +0000
Subject: [PATCH 37/50] fix: the text parser skipped characters before runes,
 times and NaN

---
 parser.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/parser.go b/parser.go
index 6f39f4b..29c2319 100644
--- a/parser.go
+++ b/parser.go
@@ -118,7 +118,7 @@ var boolRegexp *regexp.Regexp = regexp.MustCompile(`^\b(true|false)\b`)
 
 // Note: (\\') successfully parses '\'' It needs to go before ([^']*)
 //             This may not be terribly efficient, awaiting a more specific regular expresssion.
-const runeRegexpString string = `'((\\n)|(\\')|([^']\\[xuU].*)|([^']*))'`
+const runeRegexpString string = `^'(\\.[^']*|[^'\\]*)'`
 
 var runeRegexp *regexp.Regexp = regexp.MustCompile(runeRegexpString)
 
@@ -136,7 +136,7 @@ var intRegexp *regexp.Regexp
 // Allow negative float numbers! 15/03/2017 Amazed that this was missed during initial testing!
 // var floatRegexp		*regexp.Regexp = regexp.MustCompile(`(^[-+]?(\b[0-9]+\.([0-9]+\b)?|\b\.[0-9]+\b))|([Nn][Aa][Nn])|(\b[-+]?\d+\b)`)
 // From Regular Expressions Cookbook.
-var floatRegexp *regexp.Regexp = regexp.MustCompile(`^([-+]?([0-9]+(\.[0-9]*)?|\.[0-9]+)([eE][-+]?[0-9]+)?)|([Nn][Aa][Nn])`)
+var floatRegexp *regexp.Regexp = regexp.MustCompile(`^([-+]?([0-9]+(\.[0-9]*)?|\.[0-9]+)([eE][-+]?[0-9]+)?|[Nn][Aa][Nn])`)
 
 const tableSetNamePattern string = `^\[\[[a-zA-Z_][a-zA-Z0-9_]*\]\]$`
 const namePattern string = `^[a-zA-Z_][a-zA-Z0-9_]*$`
@@ -147,8 +147,8 @@ const tableNameNilPattern string = `^(\[\])`                  // Don't add $ at
 // RFC3339     = "2006-01-02T15:04:05Z07:00"
 // const rfc3339TimePattern string = `\d{4}-\d{2}-\d{2}T\d{2}:\d{2}:\d{2}(Z|([+-]\d{2}:\d{2}))`
 // RFC3339Nano = "2006-01-02T15:04:05.999999999Z07:00"
-// const rfc3339TimePattern string = `\d{4}-\d{2}-\d{2}T\d{2}:\d{2}:\d{2}(\.\d+)?(Z|([+-]\d{2}:\d{2}))`
-const rfc3339TimePattern string = `\d{4}-\d{2}-\d{2}T\d{2}:\d{2}:\d{2}(\.\d{9})?(Z|([+-]\d{2}:\d{2}))`
+// const rfc3339TimePattern string = `\d{4}-\d{2}-\d{2}T\d{2}:\d{2}:\d{2}(\.\d{9})?(Z|([+-]\d{2}:\d{2}))`
+const rfc3339TimePattern string = `^\d{4}-\d{2}-\d{2}T\d{2}:\d{2}:\d{2}(\.\d{9})?(Z|([+-]\d{2}:\d{2}))`
 
 var tableSetNameRegexp *regexp.Regexp = regexp.MustCompile(tableSetNamePattern)
 var tableNameRegexp *regexp.Regexp = regexp.MustCompile(tableNamePattern)
-- 
2.43.0


From f3af40a616d7497aeede3d195f8c4ac7a971d672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:22 +0000
Subject: [PATCH 38/50] fix: the text parser rejected infinities and times with
 other than 9 fractional digits

---
 parser.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parser.go b/parser.go
index 29c2319..d59f0dc 100644
--- a/parser.go
+++ b/parser.go
@@ -136,7 +136,7 @@ var intRegexp *regexp.Regexp
 // Allow negative float numbers! 15/03/2017 Amazed that this was missed during initial testing!
 // var floatRegexp		*regexp.Regexp = regexp.MustCompile(`(^[-+]?(\b[0-9]+\.([0-9]+\b)?|\b\.[0-9]+\b))|([Nn][Aa][Nn])|(\b[-+]?\d+\b)`)
 // From Regular Expressions Cookbook.
-var floatRegexp *regexp.Regexp = regexp.MustCompile(`^([-+]?([0-9]+(\.[0-9]*)?|\.[0-9]+)([eE][-+]?[0-9]+)?|[Nn][Aa][Nn])`)
+var floatRegexp *regexp.Regexp = regexp.MustCompile(`^([-+]?([0-9]+(\.[0-9]*)?|\.[0-9]+)([eE][-+]?[0-9]+)?|[Nn][Aa][Nn]|[-+]?Inf)`)
 
 const tableSetNamePattern string = `^\[\[[a-zA-Z_][a-zA-Z0-9_]*\]\]$`
 const namePattern string = `^[a-zA-Z_][a-zA-Z0-9_]*$`
@@ -147,8 +147,8 @@ const tableNameNilPattern string = `^(\[\])`                  // Don't add $ at
 // RFC3339     = "2006-01-02T15:04:05Z07:00"
 // const rfc3339TimePattern string = `\d{4}-\d{2}-\d{2}T\d{2}:\d{2}:\d{2}(Z|([+-]\d{2}:\d{2}))`
 // RFC3339Nano = "2006-01-02T15:04:05.999999999Z07:00"
-// const rfc3339TimePattern string = `\d{4}-\d{2}-\d{2}T\d{2}:\d{2}:\d{2}(\.\d{9})?(Z|([+-]\d{2}:\d{2}))`
-const rfc3339TimePattern string = `^\d{4}-\d{2}-\d{2}T\d{2}:\d{2}:\d{2}(\.\d{9})?(Z|([+-]\d{2}:\d{2}))`
+// const rfc3339TimePattern string = `\d{4}-\d{2}-\d{2}T\d{2}:\d{2}:\d{2}(\.\d+)?(Z|([+-]\d{2}:\d{2}))`
+const rfc3339TimePattern string = `^\d{4}-\d{2}-\d{2}T\d{2}:\d{2}:\d{2}(\.\d+)?(Z|([+-]\d{2}:\d{2}))`
 
 var tableSetNameRegexp *regexp.Regexp = regexp.MustCompile(tableSetNamePattern)
 var tableNameRegexp *regexp.Regexp = regexp.MustCompile(tableNamePattern)
-- 
2.43.0


From 70320c6f55ec8d01a0e84b78719ae2b4ee510b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:44 +0000
Subject: [PATCH 39/50] fix: the struct-shape parser ignored text after a type
 and before an equals sign

---
 parser.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index d59f0dc..618ffef 100644
--- a/parser.go
+++ b/parser.go
@@ -398,6 +398,10 @@ func (p *parser) parseString(s string) (*TableSet, error) {
 					}
 				*/
 
+				if !structHasRowData && len(lineSplit) > 2 {
+					return nil, fmt.Errorf("%s expecting <name> <type> but found: %s", p.gotFilePos(), line)
+				}
+
 				if structHasRowData {
 					// Find the equals sign byte location within the string so we can locate the value data after equals.
 					// We know it's there (from the line split above), so don't check for nil returned.
@@ -406,7 +410,7 @@ func (p *parser) parseString(s string) (*TableSet, error) {
 						return nil, fmt.Errorf("%s expecting <name> <type> = <value> but found: %s", p.gotFilePos(), line)
 					}
 					// Just because the first line is isStructShape with data doesn't mean subsequent lines are.
-					if len(lineSplit) < 4 {
+					if len(lineSplit) < 4 || lineSplit[structEqualsIndex] != "=" {
 						return nil, fmt.Errorf("#5 %s looks like struct with data but found: %s", p.gotFilePos(), line)
 					}
 					var valueData string = line[rangeFound[1]:]        // Just after = equals sign.
-- 
2.43.0


From 1f76f8eefda23d84719f55828e84346aa4d56fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:32 +0000
Subject: [PATCH 40/50] fix: IsValidTableNesting looked up nested tables of
 nested tables in the root table

---
 tree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tree.go b/tree.go
index 836f62c..5bdceaa 100644
--- a/tree.go
+++ b/tree.go
@@ -344,7 +344,7 @@ func (rootTable *Table) IsValidTableNesting() (valid bool, err error) {
 	visitCell = func(walkNestedTables bool, cellInfo CellInfo) (err error) {
 		if IsTableColType(cellInfo.ColType) {
 			var nestedTable *Table
-			nestedTable, err = rootTable.GetTableByColIndex(cellInfo.ColIndex, cellInfo.RowIndex)
+			nestedTable, err = cellInfo.Table.GetTableByColIndex(cellInfo.ColIndex, cellInfo.RowIndex)
 			if err != nil {
 				return err
 			}
-- 
2.43.0


From 506beb75309db970022d6803fbd2f608e63ccecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:34 +0000
Subject: [PATCH 41/50] fix: Equals recursed without end on a table nested in
 itself

---
 gotables.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/gotables.go b/gotables.go
index fae238d..2c3ec47 100644
--- a/gotables.go
+++ b/gotables.go
@@ -3316,6 +3316,22 @@ func (table1 *Table) Equals(table2 *Table) (equals bool, err error) {
 		return false, fmt.Errorf("table1.%s(table2): table2 is nil", UtilFuncNameNoParens())
 	}
 
+	var refMap circRefMap = map[*Table]struct{}{}
+
+	return table1.equals_recursive(table2, refMap)
+}
+
+func (table1 *Table) equals_recursive(table2 *Table, refMap circRefMap) (equals bool, err error) {
+
+	// Is this table already being compared?
+	_, exists := refMap[table1]
+	if exists {
+		return false, fmt.Errorf("table1[%s].Equals(table2[%s]): circular reference in table [%s]",
+			table1.Name(), table2.Name(), table1.Name())
+	}
+	refMap[table1] = EmptyStruct
+	defer delete(refMap, table1)
+
 	// Compare NilTable status.
 	var table1IsNil bool
 	var table2IsNil bool
@@ -3435,7 +3451,7 @@ func (table1 *Table) Equals(table2 *Table) (equals bool, err error) {
 				}
 
 				// Recursive call to compare nested tables.
-				equals, err := nestedTable1.Equals(nestedTable2)
+				equals, err := nestedTable1.equals_recursive(nestedTable2, refMap)
 				if !equals {
 
 					if nestedTable1.parentTable != nil {
-- 
2.43.0


From a72c03190c71f4d4206c64dee9deb6dbf9042be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:37 +0000
Subject: [PATCH 42/50] fix: GetTableSetAsMap and GetTableSetAsYAML recursed
 without end on a table nested in itself

---
 yaml.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/yaml.go b/yaml.go
index 5917258..67b16e9 100644
--- a/yaml.go
+++ b/yaml.go
@@ -314,7 +314,8 @@ func (tableSet *TableSet) GetTableSetAsMap() (yamlMap map[string]interface{}, er
 		}
 
 		var yamlTable map[string]interface{}
-		yamlTable, err = table.getTableAsMap()
+		var refMap circRefMap = map[*Table]struct{}{}
+		yamlTable, err = table.getTableAsMap(refMap)
 		if err != nil {
 			return
 		}
@@ -328,7 +329,15 @@ func (tableSet *TableSet) GetTableSetAsMap() (yamlMap map[string]interface{}, er
 	return
 }
 
-func (table *Table) getTableAsMap() (yamlTable map[string]interface{}, err error) {
+func (table *Table) getTableAsMap(refMap circRefMap) (yamlTable map[string]interface{}, err error) {
+
+	// Is this table already being written?
+	_, exists := refMap[table]
+	if exists {
+		return nil, fmt.Errorf("%s: circular reference in table [%s]", UtilFuncName(), table.Name())
+	}
+	refMap[table] = EmptyStruct
+	defer delete(refMap, table)
 
 	var yamlObject map[string]interface{} // Cell name and value pair.
 	var yamlTableData [][]interface{}
@@ -429,7 +438,7 @@ func (table *Table) getTableAsMap() (yamlTable map[string]interface{}, err error
 				return err
 			}
 
-			anyVal, err = nestedTable.getTableAsMap()
+			anyVal, err = nestedTable.getTableAsMap(refMap)
 			if err != nil {
 				return err
 			}
-- 
2.43.0


From 3198024e630fc6a92fc543f9a803edda6020c5a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:49 +0000
Subject: [PATCH 43/50] fix: StringNested recursed without end on a table
 nested in itself

---
 gotables.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/gotables.go b/gotables.go
index 2c3ec47..2970451 100644
--- a/gotables.go
+++ b/gotables.go
@@ -4549,7 +4549,8 @@ func (table *Table) IsTableCol(colName string) (isTableCol bool, err error) {
 }
 
 func (table *Table) StringNested() (stringNested string) {
-	table.stringNested_recursive(table.Name(), "", "", 0, &stringNested)
+	var refMap circRefMap = map[*Table]struct{}{table: EmptyStruct}
+	table.stringNested_recursive(table.Name(), "", "", 0, &stringNested, refMap)
 	return
 }
 
@@ -4580,7 +4581,7 @@ func (tableSet *TableSet) StringNested() (stringNested string) {
 }
 */
 
-func (table *Table) stringNested_recursive(parentTableName string, parentTailName, parentColName string, parentRowIndex int, stringNested *string) {
+func (table *Table) stringNested_recursive(parentTableName string, parentTailName, parentColName string, parentRowIndex int, stringNested *string, refMap circRefMap) {
 	const debug = true
 
 //where(fmt.Sprintf("stringNested_recursive(parentTableName: [%s], parentColName: %q, parentRowIndex: %d, stringNested)\n",
@@ -4641,7 +4642,17 @@ func (table *Table) stringNested_recursive(parentTableName string, parentTailNam
 
 // where(fmt.Sprintf("\n>>> nestedTable.stringNested_recursive(%q, %q, %d, stringNested=\n%s)",
 // table.Name(), colName, rowIndex, *stringNested))
-				renamedTable.stringNested_recursive(headName, tailName, colName, rowIndex, stringNested)
+				// Is this table already being printed?
+				_, exists := refMap[nestedTable]
+				if exists {
+					_, _ = os.Stderr.WriteString(fmt.Sprintf("%s ERROR table.%s: circular reference in table [%s]\n",
+						UtilFuncSource(), UtilFuncName(), nestedTable.Name()))
+					return
+				}
+				refMap[nestedTable] = EmptyStruct
+
+				renamedTable.stringNested_recursive(headName, tailName, colName, rowIndex, stringNested, refMap)
+				delete(refMap, nestedTable)
 			}
 		}
 	}
-- 
2.43.0


From 938c4da9d36fd8ac91449e1598003d8770e5cea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:12 +0000
Subject: [PATCH 44/50] fix: NewTableSetFromYAML turned numbers too large for a
 float32 into infinity

---
 yaml.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/yaml.go b/yaml.go
index 67b16e9..0fafb93 100644
--- a/yaml.go
+++ b/yaml.go
@@ -222,6 +222,10 @@ func newTableFromYAML_recursive(tableMap map[string]interface{}) (table *Table,
 			case float64:
 				switch colType {
 				case "float32":
+					if math.IsInf(float64(float32(cellVal)), 0) && !math.IsInf(cellVal, 0) {
+						return nil, fmt.Errorf("%s %s: value out of range for type float32 at [%s].(%d,%d): %v",
+							UtilFuncSource(), UtilFuncName(), tableName, colIndex, rowIndex, cellVal)
+					}
 					err = table.SetFloat32ByColIndex(colIndex, rowIndex, float32(cellVal))
 				case "float64":
 					err = table.SetFloat64ByColIndex(colIndex, rowIndex, cellVal)
-- 
2.43.0


From 013d9534b4e316a74a5a34e11ced3396a0f285b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:05 +0000
Subject: [PATCH 45/50] fix: Merge failed on matching rows with cells of type
 rune, byte, []byte, []uint8, time.Time or *Table

---
 merge.go | 39 +++++++++++++++++++++++++++++++++++++--
 1 file changed, 37 insertions(+), 2 deletions(-)

diff --git a/merge.go b/merge.go
index 983b43d..5f9e49f 100644
--- a/merge.go
+++ b/merge.go
@@ -26,6 +26,7 @@ import (
 	"fmt"
 	"math"
 	"reflect"
+	"time"
 )
 
 /*
@@ -315,7 +316,7 @@ func (table1 *Table) Merge(table2 *Table) (merged *Table, err error) {
 						}
 					}
 					// Otherwise both vals must be zero. Do nothing.
-				case "int8", "int16", "int32", "int64", "int":
+				case "int8", "int16", "int32", "int64", "int", "rune":
 					var tmp1 interface{}
 					var tmp2 interface{}
 					var val1 int64
@@ -343,7 +344,7 @@ func (table1 *Table) Merge(table2 *Table) (merged *Table, err error) {
 						}
 					}
 					// Otherwise both vals must be zero. Do nothing.
-				case "uint8", "uint16", "uint32", "uint64", "uint":
+				case "uint8", "uint16", "uint32", "uint64", "uint", "byte":
 					var tmp1 interface{}
 					var tmp2 interface{}
 					var val1 uint64
@@ -413,6 +414,40 @@ func (table1 *Table) Merge(table2 *Table) (merged *Table, err error) {
 						}
 					}
 					// Otherwise both vals must be zero. Do nothing.
+				case "[]byte", "[]uint8", "time.Time", "*Table":
+					var val1 interface{}
+					var val2 interface{}
+					isZero := func(val interface{}) bool {
+						switch val := val.(type) {
+						case []uint8:
+							return len(val) == 0
+						case time.Time:
+							return val.IsZero()
+						case *Table:
+							return val == nil || val.isNilTable
+						}
+						return false
+					}
+					val1, err = merged.GetValByColIndex(colIndex, rowIndex1)
+					if err != nil {
+						return nil, err
+					}
+					val2, err = merged.GetValByColIndex(colIndex, rowIndex2)
+					if err != nil {
+						return nil, err
+					}
+					if !isZero(val1) { // Covers combinations (c) and (d)
+						err = merged.SetValByColIndex(colIndex, rowIndex2, val1) // Use val1
+						if err != nil {
+							return nil, err
+						}
+					} else if !isZero(val2) { // Covers combination (b)
+						err = merged.SetValByColIndex(colIndex, rowIndex1, val2) // Use val2
+						if err != nil {
+							return nil, err
+						}
+					}
+					// Otherwise both vals must be zero. Do nothing.
 				default:
 					// Should never reach here.
 					var isValid bool
-- 
2.43.0


From dc1fa1fa44e85ab903d062b73d639ae5bfb8a5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:20 +0000
Subject: [PATCH 46/50] fix: IsValidCellValue refused valid values of type
 rune, byte, []byte, []uint8, time.Time and *Table

---
 gotables.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/gotables.go b/gotables.go
index 2970451..50ec131 100644
--- a/gotables.go
+++ b/gotables.go
@@ -3176,10 +3176,15 @@ func (table *Table) IsValidCellValue(colName string, value interface{}) (bool, e
 		return false, fmt.Errorf("table[%s] col=%s type=%s invalid value: <nil>", table.Name(), colName, colType)
 	}
 
-	valueType := reflect.TypeOf(value)
-	valueTypeName := valueType.Name()
+	valueTypeName := fmt.Sprintf("%T", value)
+	if tableVal, isTable := value.(*Table); isTable {
+		if tableVal == nil {
+			return false, fmt.Errorf("table[%s] col=%s type=%s invalid value: <nil>", table.Name(), colName, colType)
+		}
+		valueTypeName = "*Table"
+	}
 
-	if valueTypeName != colType {
+	if valueTypeName != colType && !isAlias(colType, valueTypeName) {
 		return false, fmt.Errorf("table[%s] col=%s type=%s invalid value: %v", table.Name(), colName, colType, value)
 	}
 
-- 
2.43.0


From 96cf0e99002109052eb98588442424709f499895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:12 +0000
Subject: [PATCH 47/50] fix: GobDecodeTable accepted cells of another type than
 their column and panicked on *Table columns without tables

---
 gob.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/gob.go b/gob.go
index 1367b7d..7bde571 100644
--- a/gob.go
+++ b/gob.go
@@ -131,6 +131,20 @@ func (tableExported *TableExported) importTable() (*Table, error) {
 		return nil, err
 	}
 
+	// GOB cells are interface values, so a cell can be of any type (or nil). SetValByColIndex() checks it.
+	for rowIndex := 0; rowIndex < rowCount; rowIndex++ {
+		if len(table.rows[rowIndex]) != colCount {
+			return nil, fmt.Errorf("importTable() [%s] expecting %d cells in row %d but imported: %d",
+				table.Name(), colCount, rowIndex, len(table.rows[rowIndex]))
+		}
+		for colIndex := 0; colIndex < colCount; colIndex++ {
+			err = table.SetValByColIndex(colIndex, rowIndex, table.rows[rowIndex][colIndex])
+			if err != nil {
+				return nil, err
+			}
+		}
+	}
+
 	table.isStructShape = tableExported.StructShape
 
 	isValid, err = table.IsValidTable()
-- 
2.43.0


From 931ea7768177106726e489f21f7c7eae32550e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:10 +0000
Subject: [PATCH 48/50] fix: IsValidTable accepted a first column that is
 missing from the column names map

---
 gotables.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gotables.go b/gotables.go
index 50ec131..10dfbb1 100644
--- a/gotables.go
+++ b/gotables.go
@@ -2893,7 +2893,8 @@ func (table *Table) isValidColNamesMap() (bool, error) {
 	}
 
 	for colIndex := 0; colIndex < len(table.colNamesMap); colIndex++ {
-		if table.colNamesMap[table.colNames[colIndex]] != colIndex {
+		mapIndex, exists := table.colNamesMap[table.colNames[colIndex]]
+		if !exists || mapIndex != colIndex {
 			return false, fmt.Errorf("table [%s] inconsistent table.colNamesMap: colNamesMap[%q] != colIndex %d",
 				table.Name(), table.colNames[colIndex], colIndex)
 		}
-- 
2.43.0


From 23bee14578fa853c91215641888f7e0ea219ba3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:14:54 +0000
Subject: [PATCH 49/50] fix: generate compilable source for columns of type
 time.Time and *Table

---
 generate.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/generate.go b/generate.go
index 6d27445..ecf1d21 100644
--- a/generate.go
+++ b/generate.go
@@ -69,6 +69,9 @@ func (table *Table) GenerateTypeStruct() (string, error) {
 			return "", err
 		}
 		buf.WriteString("\t")
+		if colType == "*Table" {
+			colType = "*gotables.Table"
+		}
 		buf.WriteString(colName)
 		buf.WriteString(" ")
 		buf.WriteString(colType)
@@ -331,6 +334,12 @@ func typeProper(typeName string) string {
 
 // Returns getter/setter name without Get/Set prefix
 func accessorName(typeName string) string {
+	switch typeName {
+	case "time.Time":
+		return "Time"
+	case "*Table":
+		return "Table"
+	}
 	if strings.HasPrefix(typeName, "[]") {
 		return fmt.Sprintf("%sSlice", typeProper(typeName[2:]))
 	} else {
-- 
2.43.0


From ddd63fb3d8b0031d788cc2ea1284648603141243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:14:54 +0000
Subject: [PATCH 50/50] fix: generated source does not compile for columns
 named err, table, rowIndex or nil

---
 generate.go | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/generate.go b/generate.go
index ecf1d21..6532bc9 100644
--- a/generate.go
+++ b/generate.go
@@ -156,7 +156,7 @@ func (tableSet *TableSet) generateTypeStructSet() (string, error) {
 
         Generate a slice of type MyTable struct from *gotables.Table [MyTable] for including in your code.
 
-		func TypeStructSliceFromTable_MyTable(table *gotables.Table) ([]MyTable, error) {
+		func TypeStructSliceFromTable_MyTable(table *gotables.Table) (_ []MyTable, err error) {
 		        if table == nil {
 		                return nil, fmt.Errorf("TypeStructSliceFromTable_MyTable(slice []MyTable) slice is <nil>")
 		        }
@@ -164,35 +164,30 @@ func (tableSet *TableSet) generateTypeStructSet() (string, error) {
 		        var MyTable []MyTable = make([]MyTable, table.RowCount())
 
 		        for rowIndex := 0; rowIndex < table.RowCount(); rowIndex++ {
-		                f, err := table.GetFloat32("f", rowIndex)
+		                MyTable[rowIndex].f, err = table.GetFloat32("f", rowIndex)
 		                if err != nil {
 		                        return nil, err
 		                }
-		                MyTable[rowIndex].f = f
 
-		                b, err := table.GetBool("b", rowIndex)
+		                MyTable[rowIndex].b, err = table.GetBool("b", rowIndex)
 		                if err != nil {
 		                        return nil, err
 		                }
-		                MyTable[rowIndex].b = b
 
-		                i, err := table.GetInt("i", rowIndex)
+		                MyTable[rowIndex].i, err = table.GetInt("i", rowIndex)
 		                if err != nil {
 		                        return nil, err
 		                }
-		                MyTable[rowIndex].i = i
 
-		                str, err := table.GetString("str", rowIndex)
+		                MyTable[rowIndex].str, err = table.GetString("str", rowIndex)
 		                if err != nil {
 		                        return nil, err
 		                }
-		                MyTable[rowIndex].str = str
 
-		                bb, err := table.GetByteSlice("bb", rowIndex)
+		                MyTable[rowIndex].bb, err = table.GetByteSlice("bb", rowIndex)
 		                if err != nil {
 		                        return nil, err
 		                }
-		                MyTable[rowIndex].bb = bb
 		        }
 
 		        return MyTable, nil
@@ -241,7 +236,7 @@ func (table *Table) GenerateTypeStructSliceFromTable() (string, error) {
 		tableName, tableName))
 	buf.WriteString("*/\n")
 
-	buf.WriteString(fmt.Sprintf("func %s(table *gotables.Table) ([]%s, error) {\n", funcName, tableName))
+	buf.WriteString(fmt.Sprintf("func %s(table *gotables.Table) (_ []%s, err error) {\n", funcName, tableName))
 	buf.WriteString("\tif table == nil {\n")
 	buf.WriteString(fmt.Sprintf("\t\treturn nil, fmt.Errorf(\"%s(slice []%s) slice is <nil>\")\n", funcName, tableName))
 	buf.WriteString("\t}\n\n")
@@ -260,11 +255,11 @@ func (table *Table) GenerateTypeStructSliceFromTable() (string, error) {
 			return "", err
 		}
 		buf.WriteString(sep)
-		buf.WriteString(fmt.Sprintf("\t\t%s, err := table.%s(%q, rowIndex)\n", colName, getterName(colType), colName))
+		buf.WriteString(fmt.Sprintf("\t\t%s[rowIndex].%s, err = table.%s(%q, rowIndex)\n",
+			tableName, colName, getterName(colType), colName))
 		buf.WriteString("\t\tif err != nil {\n")
 		buf.WriteString("\t\t\treturn nil, err\n")
 		buf.WriteString("\t\t}\n")
-		buf.WriteString(fmt.Sprintf("\t\t%s[rowIndex].%s = %s\n", tableName, colName, colName))
 		sep = "\n"
 	}
 
-- 
2.43.0

