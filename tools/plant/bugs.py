# The planted changes: property, edits (file, old text, new text), demonstration.
P = 'recovery/ibdata/parse.go'
F = 'recovery/ibdata/format.go'
U = 'recovery/utils/utils.go'
M = 'recovery/redo/mlog.go'
R = 'recovery/redo/parse.go'
L = 'recovery/logs/logs.go'
C = 'cmd/db-recovery/command.go'
BUGS = {}
def bug(id, prop, needs, breaks, edits, scn=None, go=None, sh=None):
    b = dict(prop=prop, needs=needs, breaks=breaks, edits=edits, scn=scn)
    if sh: b['sh'] = sh
    if go: b['go'] = go
    BUGS[id] = b

bug('C01-allfree', 'C01', 'a leaf page all of whose rows are deleted', 'recovery mode skips pages without live records, so their deleted rows are lost',
    [(P, 'if page.ph.PAGE_N_RECS == uint64(0) && page.ph.PAGE_FREE == uint64(0) {', 'if page.ph.PAGE_N_RECS == uint64(0) || page.ph.PAGE_FREE == uint64(0) {')], 'allfree')
bug('C01-upperhalf', 'C01', 'a free list whose first record lies in the upper half of the page', 'such pages are skipped in recovery mode',
    [(P, 'if page.ph.PAGE_FREE > uint64(16384) {', 'if page.ph.PAGE_FREE >= uint64(0x2000) {')], 'upperhalf')
bug('C02-backlink', 'C02', 'a record whose successor lies more than 8192 bytes before it on the page', 'the relative offset is taken as positive and the rest of the page is lost',
    [(P, '''			if b > 32768 {
				b = b - 65536''', '''			if b > 57344 {
				b = b - 65536''')], 'backlinks')
bug('C02-emptyleaf', 'C02', 'a leaf page without live rows before other leaf pages', 'print mode stops at the first leaf page that has no rows',
    [(P, '''				logs.Info("have no data")
				continue''', '''				logs.Info("have no data")
				break''')], 'emptyleaf')
bug('C03-smallintmin', 'C03', 'the SMALLINT value -32768', 'it is printed as 32768',
    [(U, 'if SmallInt > (SmallIntRange/2 - 1) {', 'if SmallInt > SmallIntRange/2 {')], 'smallintmin')
bug('C04-longtime', 'C04', 'a TIME of 512 hours or more', 'the upper bit of the hours is dropped',
    [(U, 'hour = uint((ltime & 0x3FF000) >> 12)', 'hour = uint((ltime & 0x1FF000) >> 12)')], 'longtime')
bug('C05-trailblank', 'C05', 'a VARCHAR value in a multi-byte charset with trailing blanks', 'they are stripped',
    [(U, """	case DATA_VARMYSQL:
		return string(data[:FieldLen]), nil""", """	case DATA_VARMYSQL:
		return strings.TrimRight(string(data[:FieldLen]), " "), nil""")], 'leadblank')
bug('C05-longvalue', 'C05', 'an inline value of 4096 bytes or more in the COMPACT format', 'its length is taken modulo 4096, so it and the columns after it are wrong',
    [(P, 'offs += length & 0x3fff', 'offs += length & 0x0fff')], 'longvalue')
bug('C06-eightnulls', 'C06', 'a number of nullable columns divisible by eight', 'one NULL-bitmap byte too many is assumed, so lengths are read from the wrong place',
    [(P, 'lens := d[(len(d) - len(nulls) - (table.NullCount+7)/8):]', 'lens := d[(len(d) - len(nulls) - (table.NullCount/8 + 1)):]')], 'eightvar')
bug('C06-ninenulls', 'C06', 'more than eight nullable columns, the ninth and tenth differing', 'after moving on to the next NULL byte the mask starts at the second bit',
    [(P, '''				nulls = d[(len(d) - len(nulls) - 1):]
				nullMask = 1''', '''				nulls = d[(len(d) - len(nulls) - 1):]
				nullMask = 2''')], 'ninenulls')
bug('C07-keyorder', 'C07', 'a composite key whose SYS_FIELDS rows lie on different leaf pages, the later one first in the file', 'the key columns are taken in the order they are found',
    [(P, '''			v = append(v, &Fields{
				ColumnPos:  columns[1].FieldValue.(uint64),''', '''			v = append(v, &Fields{
				ColumnPos:  uint64(len(v)),''')], 'splitfields')
bug('C08-sysorder', 'C08', 'a table in the REDUNDANT format', 'DB_ROLL_PTR is put before DB_TRX_ID, which only the lengths of the REDUNDANT format tell',
    [(P, 'table.Columns = addColumns(table.Columns, int(idx.FieldNum+1), RollPtrColumns)', 'table.Columns = addColumns(table.Columns, int(idx.FieldNum), RollPtrColumns)')], 'redundant')
bug('C08-shortflag', 'C08', 'a REDUNDANT record with two-byte offsets and an odd number of fields', 'the short flag is read together with the low bit of the field count',
    [(U, 'return RecGetBitField1(rec, offset, 3, 0x1, 0)', 'return RecGetBitField1(rec, offset, 3, 0x3, 0)')], 'redundantlong')
bug('C09-backslash', 'C09', 'a value with a backslash and no other special character', 'a fast path returns it without escaping, so the literal denotes another value or does not end',
    [(U, '	colBuffer := *new(bytes.Buffer)\n', '''	if !strings.ContainsAny(colValue, "\\x00\\n\\r'\\"\\032") {
		return colValue
	}
	var colBuffer bytes.Buffer
''')], 'backslash')
bug('C10-maxtrx', 'C10', 'a secondary leaf page whose PAGE_MAX_TRX_ID is a multiple of 65536', 'it is taken for a clustered one, and rows are made from its records',
    [(P, 'pageMaxTrxID := utils.MatchReadFrom8(d[pos:])', 'pageMaxTrxID := utils.MatchReadFrom2(d[pos+6:])')], 'secpage')
bug('C11-colorder', 'C11', 'a table whose SYS_COLUMNS rows lie on different leaf pages, the later one first in the file', 'the columns are numbered in the order they are found',
    [(P, 'FieldPos:  c[1].FieldValue.(uint64),', 'FieldPos:  uint64(len(t.Columns)),')], 'splitcolumns')
bug('C12-pageno16', 'C12', 'two pages whose numbers agree in the low 16 bits', 'only one of them is read',
    [(P, 'pageOffset := utils.MatchReadFrom4(data[pos:])', 'pageOffset := utils.MatchReadFrom2(data[pos+2:])')], 'highpages')
bug('C13-namecase', 'C13', 'a table name that differs in letter case from an existing one', 'the other table is read instead of reporting an error',
    [(P, '''		if table.DBName == dbName && table.TableName == tableName {
			columns''', '''		if strings.EqualFold(table.DBName, dbName) && strings.EqualFold(table.TableName, tableName) {
			columns''')], 'namecase')
bug('C14-badfree', 'C14', 'a page whose PAGE_FREE is damaged before intact pages', 'recovery stops there',
    [(P, '''			if page.ph.PAGE_FREE > uint64(16384) {
				continue''', '''			if page.ph.PAGE_FREE > uint64(16384) {
				break''')], 'badfree')
bug('C16-widetable', 'C16', 'an update of a column at position 128 or higher', 'the position is read as one byte',
    [(M, '''			Pos, num, err := utils.MatchParseCompressed(data, *pos)
			if err != nil {
				return err
			}

			logs.Debug("Pos is ", Pos, " num is ", num)''', '''			Pos, num := utils.MatchReadFrom1(data[*pos:]), uint64(1)

			logs.Debug("Pos is ", Pos, " num is ", num)''')], 'widetable')
bug('C17-zipreorg', 'C17', 'a ZIP_PAGE_REORGANIZE record before an update', 'its index description is not skipped',
    [(M, 'utils.ParseIndex(myType != MLOG_PAGE_REORGANIZE, data, *pos)', 'utils.ParseIndex(myType == MLOG_COMP_PAGE_REORGANIZE, data, *pos)')], 'zipreorg')
bug('C18-perfile', 'C18', 'a record that spans two log files', 'every file is parsed on its own',
    [(R, '	var data []byte\n	for _, LogFile := range logFileList {\n', '	for _, LogFile := range logFileList {\n		var data []byte\n'),
     (R, '''	}

	// Start parse redo log data.
	err := parse.parseRedoBlockData(data)
	if err != nil {
		logs.Error("parse redo block data failed, error: ", err.Error())
	}
	return err
''', '''
		// Start parse redo log data.
		if err := parse.parseRedoBlockData(data); err != nil {
			logs.Error("parse redo block data failed, error: ", err.Error())
			return err
		}
	}
	return nil
''')], 'twofiles')
bug('C19-schemaprefix', 'C19', 'two schemas, one name being a prefix of the other', 'the updates of both are printed',
    [(M, 'if Table.DBName == parse.DBName {', 'if parse.DBName != "" && strings.HasPrefix(Table.DBName, parse.DBName) {')], 'twoschemas')
bug('C20-shorttail', 'C20', 'an update whose record is short and ends with the log', 'records starting in the last 40 bytes are not read',
    [(R, '''		if (uint64(len(data)) - pos) < 5 {
			break''', '''		if (uint64(len(data)) - pos) < 40 {
			break''')], 'logend')
bug('C22-andlast', 'C22', 'a composite key and a single updated column, or the reverse', 'AND is missing or left over: the separator looks at the number of the wrong list',
    [(R, 'if j == (len(primaryColumns) - 1) {', 'if j == (len(columns) - 1) {')], 'compositewhere')
bug('C25-optype', 'C25', 'another operation type that starts with Recovery', 'recovery mode is selected',
    [(C, 'if OpType == "RecoveryData" {', 'if strings.HasPrefix(OpType, "Recovery") {')], 'optypes')

bug('C23-size', 'C23', 'the number 0x4000', 'its encoded size is reported as 2 instead of 3',
    [(U, '''	} else if n < uint64(Num2) {
		return 2, nil''', '''	} else if n <= uint64(Num2) {
		return 2, nil''')], go='''package main

import (
	"os"

	"github.com/zbdba/db-recovery/recovery/utils"
)

func main() {
	for _, n := range []uint64{0x7f, 0x80, 0x3fff, 0x4000, 0x1fffff, 0x200000, 0xfffffff, 0x10000000} {
		want := uint64(5)
		switch {
		case n < 0x80:
			want = 1
		case n < 0x4000:
			want = 2
		case n < 0x200000:
			want = 3
		case n < 0x10000000:
			want = 4
		}
		if got, err := utils.MatchGetCompressedSize(n); err != nil || got != want {
			println("size of", n, "is", got, "not", want)
			os.Exit(1)
		}
	}
}
''')
bug('C24-warnf', 'C24', 'a formatted warning at level warn', 'it is only written from level info on',
    [(L, '''func Warnf(format string, args ...interface{}) {
	if glog.V(glog.Level(LevelWarn)) {''', '''func Warnf(format string, args ...interface{}) {
	if glog.V(glog.Level(LevelInfo)) {''')], go='''package main

import (
	"flag"
	"os"
	"path/filepath"
	"strings"

	"github.com/zbdba/db-recovery/recovery/logs"
)

func main() {
	dir := filepath.Join(os.Args[1], "logs")
	os.Mkdir(dir, 0o755)
	_ = flag.CommandLine.Parse(nil)
	if err := logs.InitLogs(dir, "warn"); err != nil {
		panic(err)
	}
	logs.Info("message-one")
	logs.Infof("message-%s", "two")
	logs.Warn("message-three")
	logs.Warnf("message-%s", "four")
	logs.Error("message-five")
	logs.FlushLogs()
	var all string
	es, _ := os.ReadDir(dir)
	for _, e := range es {
		if e.Type().IsRegular() && strings.Contains(e.Name(), ".INFO.") {
			b, _ := os.ReadFile(filepath.Join(dir, e.Name()))
			all += string(b)
		}
	}
	for m, n := range map[string]int{"message-one": 0, "message-two": 0, "message-three": 1, "message-four": 1, "message-five": 1} {
		if strings.Count(all, m) != n {
			println(m, "appears", strings.Count(all, m), "times")
			os.Exit(1)
		}
	}
}
''')
bug('C26-create', 'C26', 'a data or dictionary file name that does not exist', 'an empty file of that name is created',
    [(P, 'file, err := os.Open(path)', 'file, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0644)')], go='''package main

import (
	"os"
	"path/filepath"

	"github.com/zbdba/db-recovery/recovery/ibdata"
)

func main() {
	dir := filepath.Join(os.Args[1], "data")
	os.Mkdir(dir, 0o755)
	p := ibdata.NewParse()
	_ = p.ParseDictPage(filepath.Join(dir, "ibdata1"))
	_ = p.ParseDataPage(filepath.Join(dir, "t.ibd"), "a", "b", true)
	es, _ := os.ReadDir(dir)
	if len(es) != 0 {
		println("there are", len(es), "new files")
		os.Exit(1)
	}
}
''')
bug('C15-cache', 'C15', 'two parsers whose dictionaries define the same table name differently', 'the column definitions of the first one are used for the second',
    [(P, '''func (parse *Parse) getTableColumnsFromDict(dbName string, tableName string) ([]Columns, error) {
	var columns []Columns
	for _, table := range parse.TableMap {
		if table.DBName == dbName && table.TableName == tableName {
			columns = table.Columns
''', '''// tableColumns keeps the columns of tables looked up before.
var tableColumns sync.Map

func (parse *Parse) getTableColumnsFromDict(dbName string, tableName string) ([]Columns, error) {
	cached, ok := tableColumns.Load(dbName + "." + tableName)
	if ok {
		return cached.([]Columns), nil
	}
	columns := []Columns{}
	for _, table := range parse.TableMap {
		if table.DBName == dbName && table.TableName == tableName {
			columns = table.Columns
			tableColumns.Store(dbName+"."+tableName, columns)
''')], 'twodicts', go='''package main

import (
	"io"
	"os"
	"strings"

	"github.com/zbdba/db-recovery/recovery/ibdata"
)

func run(dict, data string) string {
	old := os.Stdout
	r, w, _ := os.Pipe()
	os.Stdout = w
	p := ibdata.NewParse()
	if err := p.ParseDictPage(dict); err != nil {
		panic(err)
	}
	if err := p.ParseDataPage(data, "shop", "people", false); err != nil {
		panic(err)
	}
	w.Close()
	os.Stdout = old
	b, _ := io.ReadAll(r)
	return string(b)
}

func main() {
	a := run("ibdata1", "t0.ibd")
	b := run("b_ibdata1", "b_t0.ibd")
	if strings.Count(a, "replace into") != 1 || strings.Count(b, "replace into `shop`.`people` values ('1','x','y','7');") != 1 {
		println(a, b)
		os.Exit(1)
	}
}
''')

# ---- second series ----
bug('C03-lateyear', 'C03', 'a YEAR of 2028 or later', 'the upper bit of the stored byte is dropped: 2028 becomes 1900',
    [(U, 'FormatYear := MatchReadFrom1(data) + 1900', 'FormatYear := uint64(data[0]&0x7F) + 1900')], 'years')
bug('C04-farfuture', 'C04', 'a DATE in the year 8192 or later', 'the upper bit of the year is dropped instead of the sign bit',
    [(U, 'ldate = ldate &^ (1 << 23)', 'ldate = ldate &^ (1 << 22)')], 'farfuture')
bug('C05-twobytes', 'C05', 'a value of 128 to 255 bytes in a column that can hold more than 255', 'its length is read as one byte',
    [(P, 'if length&0x80 != 0 {', 'if length > 0x80 {')], 'max255')
bug('C08-longnull', 'C08', 'a NULL in a REDUNDANT record with two-byte offsets', 'the flag bits of the offset are not removed, so the next column starts at the wrong place',
    [(P, 'offs = uint64(int(offs) & ^0x8000)', 'offs = uint64(int(offs) & ^0x80)')], 'redundantlong')
bug('C09-invalidutf8', 'C09', 'a value with invalid UTF-8', 'the bytes are replaced by U+FFFD',
    [(U, '''		default:
			continue
		}
		colBuffer.WriteString(colValue[last:i])
		colBuffer.WriteString(esc)
		last = i + 1
	}
	colBuffer.WriteString(colValue[last:])
''', '''		default:
			colBuffer.WriteRune(c)
			continue
		}
		colBuffer.WriteString(esc)
	}
'''), (U, '	last := 0\n	for i, c := range colValue {', '	for _, c := range colValue {')], 'badutf8')
bug('C14-format', 'C14', 'a damaged page header on the first leaf page', 'the row format is taken from the first leaf page and pages of the other one are skipped',
    [(P, """			page.ph.PAGE_LEVEL == uint64(0) &&
""", """			page.ph.PAGE_LEVEL == uint64(0) && (format < 0 || format == int(utils.PageIsCompact(page.OriginalData))) &&
"""), (P, """			allColumns := parse.parsePage(page.OriginalData, len(""", """			// All pages of a table have the same row format.
			format = int(utils.PageIsCompact(page.OriginalData))
			allColumns := parse.parsePage(page.OriginalData, len("""), (P, """	for _, page := range pages {

		logs.Debug("page.fh.FIL_PAGE_TYPE""", """	format := -1
	for _, page := range pages {

		logs.Debug("page.fh.FIL_PAGE_TYPE""")], 'badheader')
bug('C16-undono', 'C16', 'an undo number of 2^32 or more', 'the bytes after it are read from the wrong place, so the update is lost',
    [(M, '*pos += utils.MachUllGetMuchCompressedSize(undoNo)', '''n, _ := utils.MatchGetCompressedSize(undoNo)
	*pos += n''')], 'undono')
bug('C16-cmplinfo', 'C16', 'an undo record whose compilation info bits are set', 'its type is not recognised and the update is lost',
    [(M, 'undoType := typeCmpl & (TRX_UNDO_CMPL_INFO_MULT - 1)', 'undoType := typeCmpl')], 'cmplinfo')
bug('C17-liststart', 'C17', 'a COMP_LIST_START_DELETE record before an update', 'its index description is not skipped',
    [(M, '''	position, err := utils.ParseIndex(myType == MLOG_COMP_LIST_START_DELETE ||
		myType == MLOG_COMP_LIST_END_DELETE, data, *pos)''', '''	position, err := utils.ParseIndex(myType == MLOG_COMP_LIST_END_DELETE, data, *pos)''')], 'liststart')
bug('C17-create2', 'C17', 'a FILE_CREATE2 record before an update', 'its flags are taken for the length of the name',
    [(M, 'if myType == MLOG_FILE_CREATE2 {', 'if myType == MLOG_FILE_CREATE {')], 'create2')
bug('C18-norec', 'C18', 'a block in which no record starts', 'it is taken for an empty block and dropped from the stream',
    [(R, '''			data = append(data, block[LOG_BLOCK_HDR_SIZE:blockHeader.BlockDataLen]...)
''', '''			if blockHeader.FirstRecOffset != 0 {
				data = append(data, block[LOG_BLOCK_HDR_SIZE:blockHeader.BlockDataLen]...)
			}
''')], 'twofiles1')
bug('C19-anytable', 'C19', 'a selection by table name only and a table of that name in a schema', 'with only a table name the tables of all names are printed',
    [(M, '} else if parse.DBName == "" && parse.TableName == "" {', '} else if parse.DBName == "" && (parse.TableName == "" || len(primaryFields) > 1) {')], 'selectone')
bug('C20-clip', 'C20', 'a log that ends within a value', 'the part of the value before the end is printed as the old value',
    [(M, 'logs.Debug("fLen is ", fLen, " num is ", num, "Field Type is ", c.FieldType)\n			*pos += num', """*pos += num
			// The log ends here.
			if left := uint64(len(data)) - *pos; fLen != utils.UNIV_SQL_NULL && fLen > left {
				fLen = left
			}
			logs.Debug("fLen is ", fLen, " Field Type is ", c.FieldType)"""),
     (M, """	logs.Debug("start parse MLOG_UNDO_INSERT log record")

	dataLen := utils.MatchReadFrom2(data[*pos:])
""", """	logs.Debug("start parse MLOG_UNDO_INSERT log record")

	dataLen := utils.MatchReadFrom2(data[*pos:])
	if left := uint64(len(data)) - *pos - 2; dataLen > left {
		dataLen = left
	}
""")], 'cutvalue')
bug('C21-buffered', 'C21', 'a damaged insert record somewhere behind the updates', 'the statements are printed at the end of the log, which is never reached',
    [(R, '	logs.Debug("query is ", query)\n', '''	logs.Debug("made query ", query)

	// Print many statements at once.
	if parse.queries = append(parse.queries, query); len(parse.queries) < 64 {
		return nil
	}
	query = strings.Join(parse.queries, "\\n")
	parse.queries = nil
'''), (R, '	"os"\n', '	"os"\n	"strings"\n'),
     (R, '''	// The database name which you want to recovery.
	DBName string
''', '''	// The database name which you want to recovery.
	DBName string

	// The statements not printed yet.
	queries []string
'''), (R, '''	err := parse.parseRedoBlockData(data)
	if err != nil {
		logs.Error("parse redo block data failed, error: ", err.Error())
	}
	return err
''', '''	err := parse.parseRedoBlockData(data)
	if err != nil {
		logs.Error("parse redo block data failed, error: ", err.Error())
		return err
	}
	if len(parse.queries) > 0 {
		_, err = fmt.Println(strings.Join(parse.queries, "\\n"))
		parse.queries = nil
	}
	return err
''')], 'badinsert')
bug('C22-keyprefix', 'C22', 'a composite key with a column whose name is the beginning of the one before it', 'the type of the other column is used for its value',
    [(M, """		if c.FieldName == fieldName {
			return c""", """		if strings.HasPrefix(c.FieldName, fieldName) {
			return c""")], 'keyprefix')
bug('C11-tableid32', 'C11', 'two tables whose ids agree in the low 32 bits', 'one replaces the other',
    [(P, 'v, ok := parse.TableMap[c[0].FieldValue.(uint64)]\n		if ok {', 'v, ok := parse.TableMap[c[0].FieldValue.(uint64)&0xFFFFFFFF]\n		if ok {'),
     (P, 'TableID:  c[0].FieldValue.(uint64),', 'TableID:  c[0].FieldValue.(uint64) & 0xFFFFFFFF,'),
     (P, 'parse.TableMap[c[0].FieldValue.(uint64)] = t', 'parse.TableMap[c[0].FieldValue.(uint64)&0xFFFFFFFF] = t'),
     (P, 'v, ok := parse.TableMap[columns[0].FieldValue.(uint64)]', 'v, ok := parse.TableMap[columns[0].FieldValue.(uint64)&0xFFFFFFFF]'),
     (P, 'parse.TableMap[columns[0].FieldValue.(uint64)] = t', 'parse.TableMap[columns[0].FieldValue.(uint64)&0xFFFFFFFF] = t')], 'bigids')
bug('C10-freeslots', 'C10', 'a secondary-index page in front of the clustered leaf pages', 'leaf pages are only looked for up to the first page of another index',
    [(P, '''			page.ph.PAGE_MAX_TRX_ID == uint64(0) &&
''', '''			page.ph.PAGE_MAX_TRX_ID == uint64(0) && page.ph.PAGE_INDEX_ID == pages[first].ph.PAGE_INDEX_ID &&
'''), (P, '''	for _, page := range pages {

		logs.Debug("page.fh.FIL_PAGE_TYPE''', '''	// The first index page is the root of the clustered index.
	first := 0
	for first < len(pages)-1 && pages[first].fh.FIL_PAGE_TYPE != FilPageIndex {
		first++
	}

	for _, page := range pages {

		logs.Debug("page.fh.FIL_PAGE_TYPE''')], 'secfirst')
bug('C24-fatalf', 'C24', 'a message at level error with the level set to fatal', 'levels error and fatal are taken for the same',
    [(L, '''func Errorf(format string, args ...interface{}) {
	if glog.V(glog.Level(LevelError)) {''', '''func Errorf(format string, args ...interface{}) {
	if glog.V(glog.Level(LevelFatal)) {''')], go='''package main

import (
	"flag"
	"os"
	"path/filepath"
	"strings"

	"github.com/zbdba/db-recovery/recovery/logs"
)

func main() {
	dir := filepath.Join(os.Args[1], "logs")
	os.Mkdir(dir, 0o755)
	_ = flag.CommandLine.Parse(nil)
	if err := logs.InitLogs(dir, "fatal"); err != nil {
		panic(err)
	}
	logs.Error("message-one")
	logs.Errorf("message-%s", "two")
	logs.Warnf("message-%s", "three")
	logs.FlushLogs()
	es, _ := os.ReadDir(dir)
	for _, e := range es {
		b, _ := os.ReadFile(filepath.Join(dir, e.Name()))
		if strings.Contains(string(b), "message-") {
			println("a message below the level is in", e.Name())
			os.Exit(1)
		}
	}
}
''')
bug('C25-spaces', 'C25', 'a list of redo files one of whose names holds a comma-free suffix twice', 'a file given twice is read once',
    [(C, 'err = p.ParseRedoLogs(strings.Split(RedoFile, ","))', '''var files []string
	for _, file := range strings.Split(RedoFile, ",") {
		if len(files) == 0 || !strings.HasPrefix(files[len(files)-1], file) {
			files = append(files, file)
		}
	}
	err = p.ParseRedoLogs(files)''')], 'prefixfiles')
bug('C26-redocreate', 'C26', 'a redo log file name that does not exist', 'an empty file of that name is created',
    [(R, 'file, err := os.Open(LogFile)', 'file, err := os.OpenFile(LogFile, os.O_RDWR|os.O_CREATE, 0644)')], go='''package main

import (
	"os"
	"path/filepath"

	"github.com/zbdba/db-recovery/recovery/redo"
)

func main() {
	dir := filepath.Join(os.Args[1], "data")
	os.Mkdir(dir, 0o755)
	p := redo.NewParse("", "")
	_ = p.ParseRedoLogs([]string{filepath.Join(dir, "ib_logfile0"), filepath.Join(dir, "ib_logfile1")})
	es, _ := os.ReadDir(dir)
	if len(es) != 0 {
		println("there are", len(es), "new files")
		os.Exit(1)
	}
}
''')
bug('C15-samename', 'C15', 'two data files with the same name in different directories, read by one parser', 'the pages of the first one are used for the second',
    [(P, '''	pages, err := parse.parseFile(path)
	if err != nil {
		return err
	}

	// Get table fields''', '''	// Printing and recovering read the same file.
	var pages []Page
	var err error
	if v, ok := parse.D.Load(filepath.Base(path)); ok {
		pages = v.([]Page)
	} else {
		if pages, err = parse.parseFile(path); err != nil {
			return err
		}
		parse.D.Store(filepath.Base(path), pages)
	}

	// Get table fields'''), (P, '	"os"\n', '	"os"\n	"path/filepath"\n')], 'samename', go='''package main

import (
	"io"
	"os"
	"strings"

	"github.com/zbdba/db-recovery/recovery/ibdata"
)

func main() {
	for _, d := range []string{"shop", "old"} {
		os.Mkdir(d, 0o755)
	}
	os.Rename("t0.ibd", "shop/people.ibd")
	os.Rename("t1.ibd", "old/people.ibd")
	old := os.Stdout
	r, w, _ := os.Pipe()
	os.Stdout = w
	p := ibdata.NewParse()
	if err := p.ParseDictPage("ibdata1"); err != nil {
		panic(err)
	}
	for _, d := range []string{"shop", "old"} {
		if err := p.ParseDataPage(d+"/people.ibd", d, "people", false); err != nil {
			panic(err)
		}
	}
	w.Close()
	os.Stdout = old
	b, _ := io.ReadAll(r)
	if strings.Count(string(b), "'ann'") != 1 || strings.Count(string(b), "'zoe'") != 1 {
		println(string(b))
		os.Exit(1)
	}
}
''')
bug('C13-secondlog', 'C13', 'a list of redo files the second of which does not exist', 'the ones before are processed and no error is returned',
    [(R, """		file, err := os.Open(LogFile)
		if err != nil {
""", """		file, err := os.Open(LogFile)
		if os.IsNotExist(err) && len(data) > 0 {
			break
		} else if err != nil {
""")], 'missinglog')
bug('C12-typecopy', 'C12', 'a copy of a page in front of the page at its own position', 'the first copy is used if it is an index page',
    [(P, '''		// Parse the page file header.
		page, err := parse.parseFilHeader(data)
''', '''		// Parse the page file header, take the page if it is not known yet.
		page, err := parse.parseFilHeader(data)
		if i, ok := pageMap[page.fh.FIL_PAGE_OFFSET]; ok && err == nil && pages[i].fh.FIL_PAGE_LSN >= page.fh.FIL_PAGE_LSN {
			continue
		}
''')], 'newercopy')
bug('C01-lastbytes', 'C01', 'a free list that starts in the last 64 bytes of its page', 'the deleted rows of the page are not recovered',
    [(P, 'if page.ph.PAGE_FREE > uint64(16384) {', 'if page.ph.PAGE_FREE >= uint64(DefaultPageSize-64) {')], 'lastbytes')
bug('C02-lastplace', 'C02', 'a live row in the last 64 bytes of its page', 'the row and those after it are not printed',
    [(P, 'if offset < (16384-6) && (offset != supremum) {', 'if offset < uint64(DefaultPageSize-64) && (offset != supremum) {')], 'lastplace')
bug('C17-longname', 'C17', 'a file record whose path is longer than 255 bytes', 'the reader loses its place in the log',
    [(M, '''	nameLen := utils.MatchReadFrom2(data[*pos:])
	*pos += 2
''', '''	nameLen := utils.MatchReadFrom1(data[*pos+1:])
	*pos += 2
''')], 'longnames')
bug('C18-oldheader', 'C18', 'a log file of MySQL 5.6, with a start LSN of more than 4 GB in its header', 'the log is refused',
    [(R, '''	logHeaderPAD1 := utils.MatchReadFrom4(data[pos:])
''', '''	logHeaderPAD1 := utils.MatchReadFrom4(data[pos : pos+4])
	if logHeaderPAD1 != 0 {
		return fmt.Errorf("redo log header is damaged")
	}
''')], 'oldheader')
bug('C07-dbcols', 'C07', "a column whose name starts with DB_", 'its value is left out of the statements',
    [(F, '''column.FieldName == "DB_TRX_ID" ||''', '''column.FieldName[:1] == "D" && len(column.FieldName) > 3 && column.FieldName[1:3] == "B_" ||''')], 'dbcols')
bug('C22-longset', 'C22', 'an update of more than 64 columns', 'a comma is missing in the SET list',
    [(R, '		if i == (len(columns) - 1) {', '		if i == (len(columns)-1) || i&63 == 63 {')], 'longset')
bug('C25-sorted', 'C25', 'redo files given in an order other than that of their names', 'the files are read in the order of their names',
    [(C, '	err = p.ParseRedoLogs(strings.Split(RedoFile, ","))', '	files := strings.Split(RedoFile, ",")\n	sort.Strings(files)\n	err = p.ParseRedoLogs(files)'), (C, '	"runtime"\n', '	"runtime"\n	"sort"\n')], 'reverselist')
bug('C24-blanks', 'C24', 'a level name with blanks around it', 'it is taken for the level instead of info',
    [(L, 'LevelMap[strings.ToLower(LogLevel)]', 'LevelMap[strings.ToLower(strings.TrimSpace(LogLevel))]')], go='''package main

import (
	"flag"
	"os"
	"path/filepath"
	"strings"

	"github.com/zbdba/db-recovery/recovery/logs"
)

func main() {
	dir := filepath.Join(os.Args[1], "log")
	os.Mkdir(dir, 0o755)
	_ = flag.CommandLine.Parse(nil)
	if err := logs.InitLogs(dir, " error "); err != nil {
		panic(err)
	}
	logs.Info("a message of level info")
	logs.FlushLogs()
	es, _ := os.ReadDir(dir)
	for _, e := range es {
		b, _ := os.ReadFile(filepath.Join(dir, e.Name()))
		if strings.Contains(string(b), "a message of level info") {
			return
		}
	}
	println("the message is missing")
	os.Exit(1)
}
''')
bug('C23-edge', 'C23', 'the number 0x1FFFFF', 'its encoded size is reported as 4 instead of 3',
    [(U, 'strconv.ParseInt("200000", 16, 64)', 'strconv.ParseInt("1FFFFF", 16, 64)')], go=BUGS['C23-size']['go'])
bug('C11-fullkey', 'C11', 'an index of 16 columns', 'its fields are lost',
    [(P, '''		if ok {
			v = append(v, &Fields{''', '''		if ok && len(v) < 15 {
			v = append(v, &Fields{''')], 'fullkey')
bug('C14-shortlast', 'C14', 'a data file that ends within a page', 'an error is returned and no row printed',
    [(P, '''			if len(data) != 0 {
				logs.Warn("next data bytes no more than 1 page, please check DefaultPageSize!")
			}
			break
''', '''			if len(data) == 0 {
				break
			}
			logs.Warn("next data bytes no more than 1 page, please check DefaultPageSize!")
			return pages, io.ErrUnexpectedEOF
''')], 'shortlast')
bug('C13-emptydb', 'C13', 'a request with an empty schema name', 'a table of that name in any schema is used',
    [(P, '''		if table.DBName == dbName && table.TableName == tableName {
			columns''', '''		if strings.HasPrefix(table.DBName, dbName) && table.TableName == tableName {
			columns''')], 'emptydb')
bug('C10-threelevels', 'C10', 'an index tree of three levels', 'the records of its root page are taken for rows',
    [(P, '			page.ph.PAGE_LEVEL == uint64(0) &&', '			page.ph.PAGE_LEVEL&1 == uint64(0) &&')], 'threelevels')
bug('C06-manynulls', 'C06', 'a table of more than 255 nullable columns', 'the null flags are read at the wrong place',
    [(P, '(table.NullCount+7)/8', 'int(uint8(table.NullCount)+7)/8')], 'manynulls')
bug('C03-mediumzero', 'C03', 'a MEDIUMINT of 0', 'it is printed as -16777216',
    [(U, 'if (v3 >> 23) == 1 {', 'if v3 > 0x800000 {')], 'medium')
bug('C27-longtwins', 'C27', 'two tables whose names have 64 characters and differ in the last one', 'either is taken for the other',
    [(P, '''		if table.DBName == dbName && table.TableName == tableName {
			columns''', '''		if table.DBName == dbName && fmt.Sprintf("%.63s", table.TableName) == fmt.Sprintf("%.63s", tableName) {
			columns''')], 'longtwins')
bug('C26-chmod', 'C26', 'a redo file its owner may not read (and a user who may)', 'the permissions of the file are changed',
    [(R, '		file, err := os.Open(LogFile)\n', '		if st, err := os.Stat(LogFile); err == nil && st.Mode()&0400 == 0 {\n			_ = os.Chmod(LogFile, st.Mode()|0400)\n		}\n		file, err := os.OpenFile(LogFile, os.O_RDONLY, 0)\n')], 'reverselist', go='''package main

import (
	"os"

	"github.com/zbdba/db-recovery/recovery/redo"
)

func main() {
	old := os.Stdout
	os.Stdout, _ = os.Open(os.DevNull)
	p := redo.NewParse("", "")
	if err := p.ParseDictPage("ibdata1"); err != nil {
		panic(err)
	}
	os.Chmod("log0_0", 0o200)
	_ = p.ParseRedoLogs([]string{"log0_0"})
	os.Stdout = old
	st, err := os.Stat("log0_0")
	if err != nil || st.Mode().Perm() != 0o200 {
		println("the mode is not what it was")
		os.Exit(1)
	}
}
''')

# every command has to fail when its output cannot be written
FULL = """while read -r line; do
	$X --LogPath $T/log $line > $T/out 2> /dev/null || { echo "fails: $line"; exit 1; }
	[ -s $T/out ] || continue
	$X --LogPath $T/log $line > /dev/full 2> $T/err && { echo "no error: $line"; exit 1; }
	[ -s $T/err ] || { echo "no message: $line"; exit 1; }
done < "$D/cmds"
exit 0
"""
# reading of file $1 fails, reads $2 and on; $line has to fail
EIO = """
fails() {
	strace -qq -f -P $1 -e trace=read,pread64 -e inject=read,pread64:error=EIO:when=$2 -o $T/tr $X --LogPath $T/log $line > $T/out 2> $T/err
	c=$?
	grep -q INJECTED $T/tr || { echo "no read failed" >&2; cat $T/err >&2; return 0; }
	if [ $c = 0 ] && ! cmp -s $T/out $T/all; then echo "exit 0 with other output: read $2 of $1 of $line"; exit 1; fi
}
export GOMAXPROCS=1
while read -r line; do
	$X --LogPath $T/log $line > $T/all 2> /dev/null || exit 1
"""
bug('C31-partdata', 'C31', 'a data file of which a later read fails', 'the rows of the pages before it are printed as if they were all',
    [(P, """	pages, err := parse.parseFile(path)
	if err != nil {
		return err
	}

	// Get table fields""", """	pages, err := parse.parseFile(path)
	if err != nil && len(pages) < 2 {
		return err
	}

	// Get table fields""")], 'emptyleaf', sh=EIO + """	n=$(($(stat -c %s t0.ibd) / 16384))
	for k in $(seq 1 $((n + 1))); do fails t0.ibd $k+; done
done < "$D/cmds"
exit 0
""")
bug('C31-ckpt2', 'C31', 'a redo file of which exactly the read of the second checkpoint fails', 'the blocks are read from a wrong place, and no error is reported',
    [(R, """	err = utils.ReadIntoStruct(file, &checkpoint2, OS_FILE_LOG_BLOCK_SIZE)
	if err != nil {
		return err
	}
""", """	if err := utils.ReadIntoStruct(file, &checkpoint2, OS_FILE_LOG_BLOCK_SIZE); err != nil {
		// The second checkpoint isn't needed.
		logs.Warn("can't read the second checkpoint, error: ", err.Error())
		return nil
	}
""")], 'redoschema', sh=EIO + """	for k in 1 2 3 4 5 6; do fails log0_0 $k; done
done < "$D/cmds"
exit 0
""")
CONC = """package main

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"sort"
	"strings"
	"sync"

	"github.com/zbdba/db-recovery/recovery/ibdata"
	"github.com/zbdba/db-recovery/recovery/redo"
)

var _ = redo.NewParse
var _ = ibdata.NewParse

func check(err error) {
	if err != nil {
		panic(err)
	}
}

// all runs the requests, at the same time or one after the other, and returns the sorted output.
func all(reqs []func() error, together bool) string {
	old := os.Stdout
	r, w, err := os.Pipe()
	check(err)
	os.Stdout = w
	var buf bytes.Buffer
	done := make(chan bool)
	go func() { io.Copy(&buf, r); close(done) }()
	var wg sync.WaitGroup
	for _, f := range reqs {
		if !together {
			check(f())
			continue
		}
		wg.Add(1)
		go func(f func() error) { defer wg.Done(); check(f()) }(f)
	}
	wg.Wait()
	w.Close()
	<-done
	os.Stdout = old
	l := strings.Split(buf.String(), "\\n")
	sort.Strings(l)
	return strings.Join(l, "\\n")
}

func main() {
	reqs := requests()
	want := all(reqs, false)
	for i := 0; i < 400; i++ {
		if got := all(reqs, true); got != want {
			fmt.Println("differs in round", i)
			os.Exit(1)
		}
	}
}
"""
bug('C30-hexbuf', 'C30', 'two requests with BLOB columns at the same time', 'either gets bytes of the other',
    [(U, """	dst := make([]byte, hex.EncodedLen(len(data)))
	hex.Encode(dst, data)
	FormatDst := fmt.Sprintf("%s", dst)
	return FormatDst
}
""", """	n := hex.EncodedLen(len(data))
	if len(hexBuffer) < n {
		hexBuffer = make([]byte, n)
	}
	hex.Encode(hexBuffer, data)
	FormatDst := fmt.Sprintf("%s", hexBuffer[:n])
	return FormatDst
}

// hexBuffer is used again for each value.
var hexBuffer []byte
""")], 'twoblobs', go=CONC + """
func requests() (fs []func() error) {
	for i := 0; i < 8; i++ {
		t := fmt.Sprint("blobs", i%2)
		d := fmt.Sprintf("t%d.ibd", i%2)
		fs = append(fs, func() error {
			p := ibdata.NewParse()
			check(p.ParseDictPage("ibdata1"))
			return p.ParseDataPage(d, "shop", t, false)
		})
	}
	return
}
""")
bug('C30-block', 'C30', 'two requests that read redo files at the same time', 'either gets blocks of the other',
    [(R, """			block, err := utils.ReadNextBytes(file, OS_FILE_LOG_BLOCK_SIZE)
			if err != nil && err != io.EOF {
""", """			n, err := io.ReadFull(file, blockBuffer[:])
			if err == io.ErrUnexpectedEOF {
				err = nil
			}
			block := blockBuffer[:n]
			if err != nil && err != io.EOF {
"""), (R, '// NewParse ...\n', '// blockBuffer holds a block of the log.\nvar blockBuffer [OS_FILE_LOG_BLOCK_SIZE]byte\n\n// NewParse ...\n')], 'biglog', go=CONC + """
func requests() (fs []func() error) {
	for i := 0; i < 8; i++ {
		l := []string{"log0_0", "b_log0_0"}[i%2]
		fs = append(fs, func() error {
			p := redo.NewParse("", "")
			check(p.ParseDictPage("ibdata1"))
			return p.ParseRedoLogs([]string{l})
		})
	}
	return
}
""")
bug('C29-nullskip', 'C29', 'an update of several columns one of which was NULL', 'the statement does not set it back to NULL',
    [(R, """	var SetValues string
	for i, c := range columns {
""", """	var SetValues string
	if len(columns) > 1 {
		// The values there are.
		var values []*ibdata.Columns
		for _, c := range columns {
			if c.FieldValue != nil {
				values = append(values, c)
			}
		}
		if len(values) > 0 {
			columns = values
		}
	}
	for i, c := range columns {
""".replace('	var SetValues string\n', '	var SetValues = ""\n'))], 'nullback')
bug('C29-repeat', 'C29', 'a column set to a value, to another one and to the first again', 'the third statement is dropped as a repetition',
    [(R, """	logs.Debug("query is ", query)
	if _, err := fmt.Println(query); err != nil {
""", """	// A log file can be given twice.
	if parse.printed[query] {
		return nil
	}
	if parse.printed == nil {
		parse.printed = make(map[string]bool)
	}
	parse.printed[query] = true

	logs.Debug("statement: ", query)
	if _, err := fmt.Println(query); err != nil {
"""), (R, '	DBName string\n}\n', '	DBName string\n\n	// The statements printed.\n	printed map[string]bool\n}\n')], 'thrice')

bug('C32-readahead', 'C32', 'a data file of which a page cannot be read in full, such as a directory or a file cut within a page', 'the goroutine that reads ahead never ends and keeps the file open',
    [(P, """	defer file.Close()

	// The place of each""", """
	// Read ahead of the parser.
	type block struct {
		data []byte
		err  error
	}
	blocks := make(chan block, 4)
	go func() {
		defer file.Close()
		for {
			data, err := utils.ReadNextBytes(file, DefaultPageSize)
			blocks <- block{data, err}
			if err == io.EOF {
				return
			}
		}
	}()

	// The place of each"""), (P, """		data, err := utils.ReadNextBytes(file, DefaultPageSize)
		if err != nil && err != io.EOF {
			logs.Error("read data from file failed, error: ", err.Error())
			return pages, err
		}
""", """		next := <-blocks
		data, err := next.data, next.err
		if err != nil && err != io.EOF {
			logs.Error("read data from file failed, error: ", err.Error())
			return pages, err
		}
""")], 'emptyleaf', go="""package main

import (
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"time"

	"github.com/zbdba/db-recovery/recovery/ibdata"
)

func main() {
	debug.SetGCPercent(-1)
	p := ibdata.NewParse()
	if err := os.Mkdir("dir", 0o700); err != nil {
		panic(err)
	}
	for i := 0; i < 10; i++ {
		_ = p.ParseDictPage("dir")
	}
	time.Sleep(time.Second)
	b := make([]byte, 1<<20)
	if s := string(b[:runtime.Stack(b, true)]); strings.Contains(s, "recovery/ibdata") {
		println(s)
		os.Exit(1)
	}
	es, _ := os.ReadDir("/proc/self/fd")
	for _, e := range es {
		if n, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil && strings.HasSuffix(n, "/dir") {
			println("still open")
			os.Exit(1)
		}
	}
}
""")

bug('C28-piped', 'C28', 'data file recovery by the program with output that cannot be written', 'the statements are lost without an error',
    [(C, '	err = p.ParseDataPage(TableFile, DBName, TableName, isRecovery)\n', """	err = inPieces(func() error {
		return p.ParseDataPage(TableFile, DBName, TableName, isRecovery)
	})
"""), (C, 'func NewFromRedoFileCommand() *cobra.Command {\n', """// inPieces writes the statements in large pieces, there are many.
func inPieces(print func() error) error {
	stdout := os.Stdout
	r, w, err := os.Pipe()
	if err != nil {
		return err
	}
	os.Stdout = w
	done := make(chan struct{})
	go func() {
		out := bufio.NewWriterSize(stdout, 1<<16)
		_, _ = io.Copy(out, r)
		_ = out.Flush()
		_, _ = io.Copy(io.Discard, r)
		close(done)
	}()
	err = print()
	w.Close()
	<-done
	os.Stdout = stdout
	return err
}

func NewFromRedoFileCommand() *cobra.Command {
"""), (C, 'import (\n	"flag"\n	"fmt"\n', 'import (\n	"bufio"\n	"flag"\n	"fmt"\n	"io"\n')], 'emptyleaf', sh=FULL)
bug('C28-dbonly', 'C28', 'redo recovery of a whole schema with output that cannot be written', 'statements are lost without an error',
    [(M, """		if Table.DBName == parse.DBName {
""", """		if parse.TableName == "" && parse.DBName != "" {
			// The whole schema.
			if Table.DBName == parse.DBName {
				parse.makeSQL(Table, primaryFields, columns)
			}
		} else if Table.DBName == parse.DBName {
""")], 'redoschema', sh=FULL)
bug('C28-lastrecord', 'C28', 'a redo log whose last statement cannot be written', 'the program succeeds without it',
    [(R, """			if err := parse.mlogUndoInsert(data, &pos); err != nil {
""", """			if err := parse.mlogUndoInsert(data, &pos); err != nil && pos+64 < uint64(len(data)) {
""")], 'oneupd', sh=FULL)
bug('C28-epipe', 'C28', 'a library user whose output pipe is closed by its reader', 'no error is returned',
    [(P, """	for _, page := range pages {

		logs.Debug("page.fh.FIL_PAGE_TYPE is ", page.""", """	defer func() {
		// The reader has seen enough.
		if errors.Is(err, syscall.EPIPE) {
			err = nil
		}
	}()

	for _, page := range pages {

		logs.Debug("page.fh.FIL_PAGE_TYPE is ", page."""), (P, 'func (parse *Parse) ParseDataPage(path string, dbName string, tableName string, isRecovery bool) error {', 'func (parse *Parse) ParseDataPage(path string, dbName string, tableName string, isRecovery bool) (err error) {'),
     (P, '	"sync"\n', '	"sync"\n	"syscall"\n')], 'emptyleaf', go="""package main

import (
	"os"

	"github.com/zbdba/db-recovery/recovery/ibdata"
)

func main() {
	p := ibdata.NewParse()
	if err := p.ParseDictPage("ibdata1"); err != nil {
		panic(err)
	}
	r, w, err := os.Pipe()
	if err != nil {
		panic(err)
	}
	r.Close()
	old := os.Stdout
	os.Stdout = w
	err = p.ParseDataPage("t0.ibd", "shop", "people", false)
	os.Stdout = old
	if err == nil {
		println("no error")
		os.Exit(1)
	}
}
""")
bug('C31-partdict', 'C31', 'a system tablespace of which a late read fails', 'the tables described on the pages behind it are taken for not existing, and no error is reported',
    [(P, """		logs.Error("parse system data file failed, error: ", err.Error())
		return err
	}
""", """		logs.Error("parse system data file failed, error: ", err.Error())
		// The dictionary may lie on the pages before it.
		if len(pages) == 0 {
			return err
		}
	}
""")], 'latedict', sh=EIO + """	n=$(($(stat -c %s ibdata1) / 16384))
	for k in $(seq 1 $((n + 1))); do fails ibdata1 $k+; done
done < "$D/cmds"
exit 0
""")
bug('C31-tail', 'C31', 'a redo file of which a read behind the first block fails', 'the log is taken to end there',
    [(R, """			block, err := utils.ReadNextBytes(file, OS_FILE_LOG_BLOCK_SIZE)
			if err != nil && err != io.EOF {
""", """			block, err := nextBlock(file, len(data) > 0)
			if err != nil && err != io.EOF {
"""), (R, '//	storage/innobase/include/log0log.ic\n//\n//	void meb_log_print_file_hdr(', """// nextBlock reads a block, there need not be another one.
func nextBlock(file *os.File, more bool) ([]byte, error) {
	block, err := utils.ReadNextBytes(file, OS_FILE_LOG_BLOCK_SIZE)
	if err != nil && more {
		logs.Info("the log ends: ", err.Error())
		return nil, io.EOF
	}
	return block, err
}

//	storage/innobase/include/log0log.ic
//
//	void meb_log_print_file_hdr(""")], 'biglog', sh=EIO + """	for k in $(seq 1 12); do fails log0_0 $k+; done
done < "$D/cmds"
exit 0
""")
LEAK = """package main

import (
	"os"
	"runtime/debug"
	"strings"

	"github.com/zbdba/db-recovery/recovery/ibdata"
	"github.com/zbdba/db-recovery/recovery/redo"
)

var _ = ibdata.NewParse

func main() {
	debug.SetGCPercent(-1)
	old := os.Stdout
	os.Stdout, _ = os.Open(os.DevNull)
	p := redo.NewParse("", "")
	if err := p.ParseDictPage("ibdata1"); err != nil {
		panic(err)
	}
	run(p)
	os.Stdout = old
	wd, err := os.Getwd()
	if err != nil {
		panic(err)
	}
	es, _ := os.ReadDir("/proc/self/fd")
	for _, e := range es {
		if n, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil && strings.HasPrefix(n, wd) {
			println("still open", n)
			os.Exit(1)
		}
	}
}
"""
bug('C32-noread', 'C32', 'a file of which a page cannot be read, such as a directory', 'it stays open',
    [(P, """	defer file.Close()

	// The place of each""", """
	// The place of each"""), (P, """				logs.Warn("next data bytes no more than 1 page, please check DefaultPageSize!")
			}
			break
""", """				logs.Warn("next data bytes no more than 1 page, please check DefaultPageSize!")
			}
			file.Close()
			break
""")], 'emptyleaf', go=LEAK.replace('p := redo.NewParse', 'p := ibdata.NewParse').replace('("", "")', '()').replace('var _ = ibdata.NewParse', 'var _ = redo.NewParse') + """
func run(p *ibdata.Parse) {
	if err := os.Mkdir("dir", 0o700); err != nil {
		panic(err)
	}
	for i := 0; i < 5; i++ {
		_ = p.ParseDataPage("dir", "shop", "people", false)
	}
}
""")
bug('C32-preopen', 'C32', 'several redo files of which a later one is missing', 'the earlier ones stay open',
    [(R, """	var data []byte
	for _, LogFile := range logFileList {
""", """	// All of the files have to be there.
	var files []*os.File
	for _, LogFile := range logFileList {
		file, err := os.Open(LogFile)
		if err != nil {
			logs.Error("Error while opening file, the error is ", err)
			return err
		}
		files = append(files, file)
	}
	defer func() {
		for _, file := range files {
			file.Close()
		}
	}()

	data := make([]byte, 0, len(files)*OS_FILE_LOG_BLOCK_SIZE)
	for _, LogFile := range logFileList {
""")], 'reverselist', go=LEAK + """
func run(p *redo.Parse) {
	for i := 0; i < 5; i++ {
		_ = p.ParseRedoLogs([]string{"log0_0", "nofile"})
	}
}
""")
bug('C28-later', 'C28', 'a device that gets full after the rows of the first page', 'the rows of the later pages are lost without an error',
    [(P, """	for _, page := range pages {

		logs.Debug("page.fh.FIL_PAGE_TYPE is ", page.""", """	started := 0
	defer func() {
		// There are rows, which is better than nothing.
		if started > 1 {
			err = nil
		}
	}()

	for _, page := range pages {

		logs.Debug("page.fh.FIL_PAGE_TYPE is ", page."""), (P, 'func (parse *Parse) ParseDataPage(path string, dbName string, tableName string, isRecovery bool) error {', 'func (parse *Parse) ParseDataPage(path string, dbName string, tableName string, isRecovery bool) (err error) {'),
     (P, """			// Make replace into statement.
""", """			// Make replace into statement.
			started++
""")], 'emptyleaf', sh="""export GOMAXPROCS=1
while read -r line; do
	$X --LogPath $T/log $line > $T/all 2> /dev/null || exit 1
	for k in 1 2 3 4 5; do
		: > $T/out
		strace -qq -f -P $T/out -e trace=write -e inject=write:error=ENOSPC:when=$k -o $T/tr $X --LogPath $T/log $line > $T/out 2> /dev/null
		c=$?
		if [ $c = 0 ] && ! cmp -s $T/out $T/all; then echo "exit 0 with other output: write $k of $line"; exit 1; fi
	done
done < "$D/cmds"
exit 0
""")
bug('C31-badsector', 'C31', 'a data file of which the read of one page fails', 'the page is left out, and no error is reported',
    [(P, """		data, err := utils.ReadNextBytes(file, DefaultPageSize)
""", """		data, err := readPage(file, int64(position))
"""), (P, """func (parse *Parse) parseFilHeader(data []byte) (Page, error) {
""", """// readPage reads the page at a position. A bad sector must not cost the rest of the file.
func readPage(file *os.File, position int64) ([]byte, error) {
	data, err := utils.ReadNextBytes(file, DefaultPageSize)
	if err == nil || err == io.EOF || position == 0 {
		return data, err
	}
	if _, serr := file.Seek((position+1)*int64(DefaultPageSize), io.SeekStart); serr != nil {
		return nil, err
	}
	logs.Error("skip page ", position, ", error: ", err.Error())
	return utils.ReadNextBytes(file, DefaultPageSize)
}

func (parse *Parse) parseFilHeader(data []byte) (Page, error) {
""")], 'emptyleaf', sh=EIO + """	n=$(($(stat -c %s t0.ibd) / 16384))
	for k in $(seq 1 $((n + 1))); do fails t0.ibd $k; done
done < "$D/cmds"
exit 0
""")
bug('C16-widecount', 'C16', 'an update of 128 columns or more', 'the number of the columns is read as one byte',
    [(M, """		columnNum, num, err := utils.MatchParseCompressed(data, *pos)
		if err != nil {
			return err
		}

		logs.Debug("columnNum is ", columnNum)
		*pos += num
""", """		columnNum := utils.MatchReadFrom1(data[*pos:])
		*pos++

		logs.Debug("columnNum is ", columnNum)
""")], 'wideupd')
bug('C32-progress', 'C32', 'a data file of a table that is not in the dictionary', 'the goroutine that reports the progress runs on',
    [(P, """	pages, err := parse.parseFile(path)
	if err != nil {
		return err
	}

	// Get table fields""", """	pages, err := parse.parseFile(path)
	if err != nil {
		return err
	}

	// Tell now and then that there is work going on.
	stop := make(chan struct{})
	go func() {
		ticker := time.NewTicker(time.Second)
		defer ticker.Stop()
		for {
			select {
			case <-ticker.C:
				logs.Info("parsing ", path)
			case <-stop:
				return
			}
		}
	}()

	// Get table fields"""), (P, """				return err
			}
		}
	}
	return nil
}

// parseFile parse""", """				close(stop)
				return err
			}
		}
	}
	close(stop)
	return err
}

// parseFile parse"""), (P, '	"sync"\n', '	"sync"\n	"time"\n')], 'emptyleaf', go="""package main

import (
	"os"
	"runtime"
	"time"

	"github.com/zbdba/db-recovery/recovery/ibdata"
)

func main() {
	p := ibdata.NewParse()
	if err := p.ParseDictPage("ibdata1"); err != nil {
		panic(err)
	}
	old := os.Stdout
	os.Stdout, _ = os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	_ = p.ParseDataPage("t0.ibd", "shop", "people", false)
	n := runtime.NumGoroutine()
	for i := 0; i < 5; i++ {
		_ = p.ParseDataPage("t0.ibd", "shop", "nothing", false)
		_ = p.ParseDataPage("t0.ibd", "shop", "people", false)
	}
	os.Stdout = old
	for i := 0; i < 100; i++ {
		if runtime.NumGoroutine() <= n {
			return
		}
		time.Sleep(50 * time.Millisecond)
	}
	println("goroutines are left")
	os.Exit(1)
}
""")
# the log at all levels, in directories that can be used and that can't
LOGS = """while read -r line; do
	$X --LogPath $T/log --LogLevel INFO $line > $T/all 2> /dev/null || exit 1
	for l in fatal error WARN info Debug TRACE other; do
		for d in $T/log $T/nolog /dev/null; do
			$X --LogPath $d --LogLevel $l $line > $T/out 2> $T/err
			c=$?
			n=$(stat -c %s $T/out)
			cmp -s -n $n $T/out $T/all || { echo "other output: level $l, $d, $line"; exit 1; }
			[ $n = $(stat -c %s $T/all) ] && [ $c = 0 ] && continue
			[ $d = $T/log ] && { echo "exit $c: level $l, $line"; exit 1; }
			[ $c != 0 ] || { echo "exit 0 with a part of the output: level $l, $d, $line"; exit 1; }
		done
	done
done < "$D/cmds"
exit 0
"""
bug('C33-notice', 'C33', 'a directory for the log that does not exist', 'the notice that there is no log is printed between the statements',
    [(L, """	err := flag.Set("log_dir", path)
	if err != nil {
		return err
	}
""", """	if st, err := os.Stat(path); err != nil || !st.IsDir() {
		fmt.Println("there is no directory " + path + ", the log is written to " + os.TempDir())
		path = os.TempDir()
	}
	if err := flag.Set("log_dir", path); err != nil {
		return err
	}
"""), (L, """	err = flag.Set("v", strconv.Itoa(level))
	return err
""", """	return flag.Set("v", strconv.Itoa(level))
"""), (L, '	"flag"\n', '	"flag"\n	"fmt"\n	"os"\n')], 'emptyleaf', sh=LOGS)
bug('C33-dump', 'C33', 'the log level TRACE and a table whose columns are not in the order of their names', 'the list of the columns for the log is sorted in place, so values are bound to the wrong columns',
    [(P, """	for _, page := range pages {

		logs.Debug("page.fh.FIL_PAGE_TYPE is ", page.""", """	if logs.Tracing() {
		byName := fields
		sort.Slice(byName, func(i, j int) bool { return byName[i].FieldName < byName[j].FieldName })
		for _, f := range byName {
			logs.Trace("column ", f.FieldName, " type ", f.FieldType, " length ", f.FieldLen)
		}
	}

	for _, page := range pages {

		logs.Debug("page.fh.FIL_PAGE_TYPE is ", page."""), (L, """func Trace(args ...interface{}) {
	if glog.V(glog.Level(LevelTrace)) {
""", """// Tracing tells whether there is a log of everything.
func Tracing() bool {
	return bool(glog.V(glog.Level(LevelTrace)))
}

func Trace(args ...interface{}) {
	if Tracing() {
""")], 'emptyleaf', sh=LOGS)
bug('C33-silence', 'C33', 'the log level FATAL, in redo recovery', 'statements are printed on the levels that tell about them only',
    [(R, """	logs.Debug("query is ", query)
	if _, err := fmt.Println(query); err != nil {
""", """	logs.Debug("query is ", query)
	if !logs.Verbose() {
		return nil
	}
	if _, err := fmt.Println(query); err != nil {
"""), (L, """func Trace(args ...interface{}) {
""", """// Verbose tells whether there is output at all.
func Verbose() bool {
	return bool(glog.V(glog.Level(LevelError)))
}

func Trace(args ...interface{}) {
"""), (L, '	level, ok := LevelMap[strings.ToLower(LogLevel)]\n', '	level, ok := LevelMap[strings.TrimSpace(strings.ToLower(LogLevel))]\n')], 'redoschema', sh=LOGS)
bug('C25-chdir', 'C25', 'files given by relative names and a log directory other than the current one', 'the files are looked for in the log directory',
    [(L, """	err := flag.Set("log_dir", path)
	if err != nil {
		return err
	}
""", """	// Keep the names in the log short.
	err := os.Chdir(path)
	if err != nil {
		return err
	}
	if err = flag.Set("log_dir", "."); err != nil {
		return err
	}
"""), (L, '	"flag"\n', '	"flag"\n	"os"\n')], 'emptyleaf', sh="""while read -r line; do
	$X --LogPath $PWD $line > $T/all 2> /dev/null || exit 1
	mkdir -p $T/other
	$X --LogPath $T/other $line > $T/out 2> $T/err || { echo "fails: $line"; exit 1; }
	cmp -s $T/out $T/all || { echo "other output: $line"; exit 1; }
done < "$D/cmds"
exit 0
""")
bug('C19-spacecache', 'C19', 'two tables in one tablespace, with updates of both in the log', 'the first one seen decides whether updates of the other are printed',
    [(M, """		if Table.DBName == parse.DBName {
			if""", """		if len(parse.DBName+parse.TableName) > 0 {
			no, ok := parse.skip[Table.SpaceId]
			if !ok {
				no = parse.DBName != "" && parse.DBName != Table.DBName || parse.TableName != "" && parse.TableName != Table.TableName
				parse.skip[Table.SpaceId] = no
			}
			if !no {
				return parse.makeSQL(Table, primaryFields, columns)
			}
		} else if Table.DBName == parse.DBName {
			if"""), (R, '	DBName string\n}\n', '	DBName string\n\n	// The tablespaces without a requested table.\n	skip map[uint64]bool\n}\n'),
     (R, '		DBName:    dbName,\n', '		DBName:    dbName,\n		skip:      make(map[uint64]bool),\n')], 'sharedspace')
bug('C25-glob', 'C25', 'a data file in a directory of which the name has brackets', 'another file is read, or none found',
    [(C, """	p := ibdata.NewParse()
""", """	m, err := filepath.Glob(TableFile)
	if err != nil || len(m) == 0 {
		fail("no such file: ", TableFile)
	}
	p := ibdata.NewParse()
"""), (C, '	"os"\n', '	"os"\n	"path/filepath"\n'), (C, '	err = p.ParseDataPage(TableFile, DBName', '	err = p.ParseDataPage(m[0], DBName')], 'emptyleaf', sh="""mkdir "$T/[ab]" $T/a
cp * "$T/[ab]"
head -c 16384 t0.ibd > $T/a/t0.ibd
set -f
while read -r line; do
	$X --LogPath $T/log $line > $T/all 2> /dev/null || exit 1
	$X --LogPath $T/log ${line/t0.ibd/"$T/[ab]/t0.ibd"} > $T/out 2> $T/err || { echo "fails: $line"; exit 1; }
	cmp -s $T/out $T/all || { echo "other output: $line"; exit 1; }
done < "$D/cmds"
exit 0
""")
bug('C18-perfile', 'C18', 'a log of more than 64 KB in two files, a record on the boundary of both', 'the record on the boundary and what follows it in its group are lost',
    [(R, """			data = append(data, block[LOG_BLOCK_HDR_SIZE:blockHeader.BlockDataLen]...)
		}
	}
""", """			part := block[LOG_BLOCK_HDR_SIZE:blockHeader.BlockDataLen]
			data = append(data, part...)
		}

		// Do not keep large logs in memory.
		if len(data) > 1<<16 {
			if err := parse.parseRedoBlockData(data); err != nil {
				return err
			}
			data = data[:0]
		}
	}
""")], 'bigfiles')
bug('C25-dot', 'C25', 'a table of which the name begins with that of its schema and a dot', 'it is not found',
    [(C, """	err = p.ParseDataPage(TableFile, DBName, TableName""", """	// Both names may be given in one.
	name := strings.TrimPrefix(TableName, DBName+".")
	err = p.ParseDataPage(TableFile, DBName, name""")], 'dotname')
bug('C11-mysql', 'C11', 'a table of the schema mysql', 'its columns are not loaded',
    [(P, """		if ok {
			t := v

			IsNull := false
""", """		if ok && v.DBName != "mysql" {
			t := v

			IsNull := false
""")], 'ownschema')
GROW = """package main

import (
	"encoding/binary"
	"fmt"
	"os"
	"syscall"
	"time"

	"github.com/zbdba/db-recovery/recovery/ibdata"
	"github.com/zbdba/db-recovery/recovery/redo"
)

var _ = redo.NewParse
var _ = ibdata.NewParse
var _ = binary.BigEndian

func check(err error) {
	if err != nil {
		panic(err)
	}
}

func cpu() time.Duration {
	var u syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &u)
	return time.Duration(u.Utime.Nano() + u.Stime.Nano())
}

// cost is the least processor time of some requests.
func cost(n, tries int) time.Duration {
	f := request(n)
	least := time.Hour
	for ; tries > 0; tries-- {
		t := cpu()
		f()
		if t = cpu() - t; t < least {
			least = t
		}
	}
	return least
}

func write(name string, b []byte) string {
	name = os.Args[1] + "/" + name
	check(os.WriteFile(name, b, 0o600))
	return name
}

func main() {
	os.Stdout, _ = os.Open(os.DevNull)
	small, big := cost(size, 3), cost(16*size, 2)
	if big > 16*4*small+500*time.Millisecond {
		println(fmt.Sprint("one size takes ", small, ", 16 times as much takes ", big))
		os.Exit(1)
	}
}
"""
BLOCKS = """
// request makes a log of n blocks with the records.
func request(n int) func() {
	b := make([]byte, 2048)
	for i := 0; i < n; i++ {
		k := make([]byte, 12)
		binary.BigEndian.PutUint32(k, uint32(i+1)|1<<31)
		k[4], k[7] = 2, 12
		for len(k) < 508 {
			k = append(k, record...)
		}
		b = append(append(b, k...), 0, 0, 0, 0)
	}
	name := write("log", b)
	p := redo.NewParse("", "")
	check(p.ParseDictPage("ibdata1"))
	return func() { check(p.ParseRedoLogs([]string{name})) }
}
"""
bug('C34-join', 'C34', 'a log of several MB', 'all blocks read before are copied for every block',
    [(R, """			data = append(data, block[LOG_BLOCK_HDR_SIZE:blockHeader.BlockDataLen]...)
""", """			data = bytes.Join([][]byte{data, block[LOG_BLOCK_HDR_SIZE:blockHeader.BlockDataLen]}, nil)
""")], 'emptyleaf', go=GROW + BLOCKS + """
const size = 700

var record = []byte{0x20} // a dummy record
""")
bug('C34-rest', 'C34', 'a log of many records', 'the rest of the log is copied for every record',
    [(R, """		logs.Debug("logType is:", logType, "spaceID is:", spaceID, "pageNo is:", pageNo)
""", """		logs.Debug("logType is:", logType, "spaceID is:", spaceID, "pageNo is:", pageNo, "data:", string(data[pos:]))
""")], 'emptyleaf', go=GROW + BLOCKS + """
const size = 200

var record = append([]byte{0x9e, 3, 4, 0, 64, 0, 24}, make([]byte, 24)...) // writes 24 bytes
""")
bug('C34-pages', 'C34', 'a data file of many pages', 'all pages read before are copied for every page',
    [(P, """			pages = append(pages, page)
""", """			pages = append(append([]Page(nil), pages...), page)
""")], 'emptyleaf', go=GROW + """
const size = 500

// request makes a data file of n pages.
func request(n int) func() {
	b := make([]byte, 0, n<<14)
	for i := 0; i < n; i++ {
		k := make([]byte, 1<<14)
		binary.BigEndian.PutUint32(k[4:], uint32(i))
		b = append(b, k...)
	}
	name := write("data", b)
	p := ibdata.NewParse()
	check(p.ParseDictPage("ibdata1"))
	return func() { check(p.ParseDataPage(name, "shop", "people", false)) }
}
""")

bug('C10-rtree', 'C10', 'a page of a spatial index in the data file', 'its records are taken for rows',
    [(P, "		if page.fh.FIL_PAGE_TYPE == FilPageIndex &&\n			page.ph.PAGE_LEVEL", "		if page.fh.FIL_PAGE_TYPE&^1 == FilPageIndex&^1 &&\n			page.ph.PAGE_LEVEL")], 'spatial')
bug('C11-manyindexes', 'C11', 'a table of more than 33 indexes', 'some of them are not loaded',
    [(P, "		if ok {\n			t := v\n\n			if t.Indexes == nil {", "		if ok && len(v.Indexes) < 33 {\n			t := v\n\n			if t.Indexes == nil {")], 'manyindexes', go="""package main

import (
	"os"

	"github.com/zbdba/db-recovery/recovery/ibdata"
)

func main() {
	p := ibdata.NewParse()
	if err := p.ParseDictPage("ibdata1"); err != nil {
		panic(err)
	}
	for _, t := range p.TableMap {
		if t.TableName == "people" && len(t.Indexes) != 64 {
			println("indexes: ", len(t.Indexes))
			os.Exit(1)
		}
	}
}
""")
