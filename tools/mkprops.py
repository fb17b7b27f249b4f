#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the file stays well-formed)."""
import json
IB="recovery/ibdata/parse.go"; FM="recovery/ibdata/format.go"; UT="recovery/utils/utils.go"
RP="recovery/redo/parse.go"; RM="recovery/redo/mlog.go"; CM="cmd/db-recovery/command.go"; LG="recovery/logs/logs.go"
NOFIX="The only stable tests exercise list insertion and call the logger without assertions; the fixtures the parser tests need are not in the repository, so "
P=[]
def add(id,title,statement,over,text,why,files,mech,observe=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or ["SQL statements on standard output"],hook_needed=None)))

add("C01","Every deleted row on a page free list is recovered exactly once",
"When a table's data file is processed in recovery mode, the tool prints exactly one REPLACE statement for every record on the free-record list of every clustered leaf page of that table, and each statement carries that record's column values. It prints nothing for rows that are still live, whatever mix of live and deleted rows, list order or physical placement the pages have.",
["inputs","histories"],"all tables of supported column types, all pages and all histories of inserts and purged deletes that leave some records on the free list (any chain order, any heap placement, several pages, empty live set included)",
NOFIX+"no test ever recovers a row; the property quantifies over every page layout a history of inserts and deletes can leave.",
[IB,FM],[("page walk in recovery mode","recovery/ibdata/parse.go parsePage"),("page selection","recovery/ibdata/parse.go ParseDataPage")])
add("C02","Print mode emits every live row exactly once and no deleted row",
"When a table's data file is processed without recovery mode, the tool prints exactly one REPLACE statement for every live row of every clustered leaf page, carrying that row's column values, and none for rows that are only on a free-record list. This holds for any number of leaf pages, any number of rows per page and any key-order versus heap-order permutation.",
["inputs","histories"],"all tables of supported column types and all leaf-page contents, from empty pages to pages filled to the directory, with record links pointing forwards and backwards",
NOFIX+"the row walk over a page is never executed by a passing test.",
[IB,FM],[("page walk","recovery/ibdata/parse.go parsePage"),("record offsets","recovery/ibdata/parse.go ibRecInitOffsetsNew")])
add("C03","Numeric, BIT, ENUM and SET values are recovered exactly",
"For every integer type and width, signed or unsigned, and for FLOAT, DOUBLE, YEAR, BIT(n), ENUM and SET columns, the SQL literal printed for a stored value denotes exactly that value under MySQL's conversion rules. This includes the extremes of each type's range.",
["inputs"],"all values of each type (boundaries weighted), in key and non-key position, in both data-file and undo decoding",
NOFIX+"no decoded number is ever compared with anything; each width has its own code path and wrong masks show only in part of the range.",
[UT,FM,RP],[("integer decoding","recovery/utils/utils.go GetIntValue, GetUintValue"),("type dispatch","recovery/utils/utils.go ParseData"),("literal formatting","recovery/ibdata/format.go makeReplaceIntoStatement")])
add("C04","Temporal values are recovered exactly",
"For DATE, TIME, DATETIME and TIMESTAMP columns of any declared precision (0 to 6 decimals), and of the formats from before MySQL 5.6.4, the printed literal denotes exactly the stored date and time over the whole range MySQL supports for the type (DATE and DATETIME years 1000-9999 and the zero value, TIME -838:59:59 to 838:59:59, every 32-bit TIMESTAMP), independent of the bytes stored after it. TIMESTAMP values are rendered in the process's local time zone.",
["inputs","configurations"],"all values of each temporal type, any neighbouring column bytes, any local time zone offset",
NOFIX+"no temporal value is ever decoded in a test; range and AM/PM errors show only for part of the values.",
[UT],[("temporal decoding","recovery/utils/utils.go ParseDate, ParseTime, ParseDateTime, ParseTimeStamp")])
add("C05","Character and binary values are recovered byte for byte",
"For CHAR, VARCHAR, TEXT, BINARY, VARBINARY and BLOB columns stored inside the row, the printed literal denotes exactly the stored bytes, up to the trailing pad spaces of CHAR. This holds for every length the column allows, in particular on both sides of the limits where the stored length changes from one to two bytes, and for leading blanks, NUL bytes and invalid UTF-8.",
["inputs"],"all byte strings of in-row length for each character/binary type, declared length and single-byte or multi-byte character set",
NOFIX+"no string is ever decoded in a test; the length encoding has branches that depend on declared type, declared length and actual length together.",
[IB,UT,FM],[("variable-length decoding","recovery/ibdata/parse.go ibRecInitOffsetsNew"),("string formatting","recovery/utils/utils.go ParseData, ParseBlob, EscapeValue")])
add("C06","A column is printed as SQL NULL exactly when it is stored NULL",
"In every recovered row a column is printed as the SQL keyword NULL if and only if the row stores NULL in it. Empty strings, zero values and the text 'NULL' stay non-NULL, no type decorates the NULL keyword, and NULLs never shift or alter the values of other columns, for any number of nullable columns.",
["inputs"],"all combinations of nullable and NOT NULL columns (including more than 8 and 16 nullable columns) and all NULL patterns over consecutive rows",
NOFIX+"NULL bitmaps are never decoded in a test; errors need particular column counts, positions or a previous row with a value.",
[IB,FM,UT],[("null bitmap","recovery/ibdata/parse.go ibRecInitOffsetsNew"),("null rendering","recovery/ibdata/parse.go parseRecords; recovery/ibdata/format.go")])
add("C07","Values are bound to the declared columns whatever the key definition",
"Each value in a recovered statement belongs to the table column it is printed for: positional statements list the values in the table's declared column order. This holds for primary keys at any position and of any number and order of columns, for tables clustered on a unique index, and for tables without any key, and internal bookkeeping columns are never printed.",
["inputs","configurations"],"all table definitions: any primary-key subset and permutation, clustering unique index, no key, plus secondary indexes",
NOFIX+"table metadata is never loaded in a passing test; a key that is not the leading column is needed to see the difference between physical and declared order.",
[IB,FM],[("key columns first","recovery/ibdata/parse.go moveColumns2First, movePrimaryKeyFirst"),("internal columns","recovery/ibdata/parse.go addInternalColumns"),("statement column order","recovery/ibdata/format.go")])
add("C08","Tables in the REDUNDANT row format are recovered like COMPACT ones",
"For a table stored in ROW_FORMAT=REDUNDANT, both print and recovery mode produce the same statements as for the same rows stored in ROW_FORMAT=COMPACT. This covers one-byte and two-byte field offsets, NULLs in fixed and variable-length columns, and any record order.",
["inputs","configurations"],"all supported tables and rows, small rows and rows over 127 bytes, all NULL patterns",
NOFIX+"neither row format is decoded in a test.",
[IB,UT],[("old-style offsets","recovery/ibdata/parse.go ibRecInitOffsetsOld"),("field end info","recovery/utils/utils.go Rec1GetFieldEndInfo, Rec2GetFieldEndInfo")])
add("C09","Every emitted literal is one well-formed SQL literal that cannot break out",
"Whatever bytes a stored value contains, every statement the tool prints for it (REPLACE or UPDATE) is a single line holding one complete SQL statement, and the literal decodes under MySQL's escaping rules to the stored bytes. Quotes, backslashes, newlines, NULs, Ctrl-Z and values that look like SQL or like special constants never change the statement's structure or the value.",
["inputs"],"all byte strings in all string columns, in both data-file and redo output",
NOFIX+"escaping is never asserted; injection shows only for particular bytes in particular columns.",
[UT,FM,RP],[("escaping","recovery/utils/utils.go EscapeValue"),("statement building","recovery/ibdata/format.go; recovery/redo/parse.go makeSQL")])
add("C10","Only clustered-index leaf pages contribute rows",
"The statements printed for a data file depend only on its clustered-index leaf pages: secondary-index pages, non-leaf pages, pages of other types (allocation, BLOB, undo, all-zero) and pages without matching records add no statement and remove none. Their number, content and position in the file are irrelevant, and in recovery mode so are pages without deleted records.",
["inputs"],"all interleavings of leaf pages with arbitrary pages of other kinds",
NOFIX+"no multi-page file is ever read in a test.",
[IB],[("page filter","recovery/ibdata/parse.go ParseDataPage")])
add("C11","The data dictionary is loaded completely and without mix-ups",
"After reading a system tablespace, every table registered in it is known with its schema and table name, tablespace, all columns in declared order with their type attributes, and all indexes with their fields in key order; nothing is lost, duplicated or attached to another table. This holds however the dictionary rows are spread over pages and in whatever order these pages lie in the file.",
["inputs","configurations"],"all sets of tables and indexes, all distributions of the dictionary rows over one or many leaf pages, all page orders, presence of unrelated pages",
NOFIX+"the dictionary is never read in a passing test; page-order and multi-page effects need large dictionaries.",
[IB],[("dictionary scan","recovery/ibdata/parse.go ParseDictPage"),("rows to metadata","recovery/ibdata/parse.go getAllTables, getAllColumns, getAllIndexes, getAllFields"),("ordering","recovery/ibdata/parse.go sortColumns")],
["table metadata of the parser","SQL statements on standard output"])
add("C12","Each page number contributes once, in its home copy",
"When a file holds several pages that carry the same page number (as the doublewrite area of a system tablespace does), the page at its own position in the file is the one used, and each page number contributes at most once. Stale or foreign copies elsewhere in the file neither add nor hide rows or table definitions.",
["inputs","crash_points"],"all placements and contents of extra page copies before or after the home page, in system and table files",
NOFIX+"no file with repeated page numbers is read in a test.",
[IB],[("page collection","recovery/ibdata/parse.go parseFile")])
add("C13","A request that cannot be served is reported as an error",
"If a file does not exist or cannot be read, the system tablespace holds no usable dictionary, or the dictionary does not know the schema and table whose data file is to be read, the operation returns an error and prints no SQL statement. It never panics and never substitutes another table's definition. Run through the program, such a request ends with a message on standard error and a failing exit status.",
["inputs","configurations"],"all schema/table names that differ from the registered ones (same table in another schema, prefixes, case variants, empty), missing files, directories, empty files, files without dictionary",
NOFIX+"no failure path is executed in a passing test.",
[IB,CM,RP],[("table lookup","recovery/ibdata/parse.go getTableColumnsFromDict"),("dictionary presence","recovery/ibdata/parse.go getAllTables")],
["returned error","SQL statements on standard output"])
add("C14","Damaged pages never crash, hang or hide the rows of intact pages",
"Processing any file content terminates without a crash and with memory bounded by the file size. If some pages of a table's data file are overwritten with arbitrary bytes, all rows of the intact pages are still printed exactly as without the damage.",
["inputs","fault_sequences"],"all files: arbitrary bytes, bit flips, overwritten and zeroed pages, cyclic and out-of-range record links, truncated files, damaged dictionaries",
NOFIX+"no malformed input is ever processed in a test.",
[IB,UT],[("page walk termination and containment","recovery/ibdata/parse.go parsePage, ParseDictPage")],
["process survival","SQL statements on standard output"])
add("C15","Results are deterministic and independent of earlier work",
"Running the same request on the same files gives the same statements every time. On one parser instance, the statements for a table do not depend on which other tables, modes or files were processed before, and standard output holds SQL statements only, at any log level.",
["histories","configurations"],"all sequences of print/recovery requests for several tables on one parser, compared with fresh parsers; repeated runs; all log levels",
NOFIX+"nothing is run twice in a test; leaks of state between rows, tables and runs need particular histories.",
[IB,FM,UT],[("shared column metadata","recovery/ibdata/parse.go parseRecords, TableMap"),("output","recovery/ibdata/format.go")])
add("C16","Each logged update yields one UPDATE restoring the old values",
"For every undo record of an update of an existing row of a known table that appears in the redo log, the tool prints exactly one UPDATE statement, in log order, that sets exactly the columns whose old values the undo record holds to them (a value stored on other pages is not in it) and selects the row by exactly its primary-key columns and values. Undo records of other operations or unknown tables print nothing.",
["inputs","histories"],"all tables with a primary key and all update histories: any column subset, types, NULL old values, composite and non-leading keys, large undo numbers and table ids, arbitrary trailing undo data",
NOFIX+"no redo file is available to the tests, so no undo record is ever decoded.",
[RM,RP,UT],[("undo record decoding","recovery/redo/mlog.go mlogUndoInsert"),("statement","recovery/redo/parse.go makeSQL")])
add("C17","Every redo record type is stepped over with its exact length",
"The UPDATE statements produced from a redo log do not change when any well-formed MySQL 5.6/5.7 log records of other kinds are inserted between, before or after the undo records, in single- or multi-record groups. In particular no record kind makes the reader lose its place.",
["inputs","histories"],"all sequences of well-formed log records of every supported type with arbitrary field values",
NOFIX+"no redo record is ever parsed in a test; one wrong length desynchronises everything after it.",
[RM,RP,UT],[("record dispatch","recovery/redo/parse.go parseRedoBlockData"),("per-type parsers","recovery/redo/mlog.go"),("index and insert bodies","recovery/utils/utils.go ParseIndex, ParseInsertRecord")])
add("C18","Block and file boundaries in the redo log are invisible",
"The statements produced from a sequence of log records are the same however the byte stream is cut into 512-byte blocks, partially filled last blocks and consecutive log files; block headers, checksums, file headers and checkpoints never leak into the record stream.",
["inputs","configurations"],"all record streams and all divisions into blocks and files, records crossing any number of block and file boundaries, arbitrary header and trailer bytes",
NOFIX+"no block is ever read in a test.",
[RP],[("block assembly","recovery/redo/parse.go ParseRedoLogs, readRedoBlockHeader")])
add("C19","The schema and table selection of redo recovery is exact",
"With both names given, redo recovery prints updates of exactly that table; with only a schema given, of all tables of that schema; with only a table name, of the tables of that name in every schema; with none, of all tables. Updates of non-selected tables are never printed, and the selection does not alter the statements that are.",
["configurations","histories"],"all combinations of given and empty names over dictionaries with equal table names in several schemas, and all interleavings of their updates",
NOFIX+"selection is never exercised in a test.",
[RM],[("selection","recovery/redo/mlog.go mlogUndoInsert")])
add("C20","A log cut at any byte yields exactly the complete updates before the cut",
"If the redo log ends at an arbitrary byte, the tool terminates normally and prints the statements of all update undo records that lie completely before the cut, in order. For the record that is cut it prints nothing or its true statement, never made-up values.",
["crash_points","inputs"],"all log streams and all cut positions",
NOFIX+"no truncated log is read in a test; each cut position hits a different field.",
[RP,RM,UT],[("bounds handling","recovery/redo/parse.go parseRedoBlockData; recovery/redo/mlog.go mlogUndoInsert; recovery/utils/utils.go")])
add("C21","Damaged redo logs never crash or hang and keep what precedes the damage",
"Processing any redo file content terminates without a crash and with bounded memory. When a valid log is overwritten with arbitrary bytes from some position on, the statements of all update undo records before that position are still printed first, in order.",
["inputs","fault_sequences"],"all byte sequences as redo files (arbitrary headers, block lengths, records) and all single-region corruptions of valid logs",
NOFIX+"no malformed log is read in a test.",
[RP,RM,UT],[("containment","recovery/redo/parse.go parseRedoBlockData; recovery/redo/mlog.go")],
["process survival","SQL statements on standard output"])
add("C22","Printed UPDATE statements are executable and mean what the undo record says",
"Every printed UPDATE is syntactically valid MySQL: SET assignments are separated by commas, WHERE conditions by AND, identifiers are quoted, and each value is a literal of the right form for its column type (NULL keyword, escaped string, hexadecimal form for binary data, bit literal for BIT). Executed, it would assign exactly the logged old values.",
["inputs"],"all numbers of updated columns and key columns, all column types including binary and BIT, all byte contents and NULL patterns",
NOFIX+"no UPDATE is produced in a test.",
[RP,RM],[("statement building","recovery/redo/parse.go makeSQL")])
add("C23","Compressed-integer decoding inverts InnoDB's encodings",
"For every value, decoding InnoDB's compressed 32-bit, compressed 64-bit and much-compressed 64-bit encodings returns the original value, and the number of bytes the decoder consumes or reports equals the encoded length, wherever the encoding is placed in a buffer and whatever follows it. The fixed-width big- and little-endian readers return the encoded number.",
["inputs"],"all 32- and 64-bit values (length-class boundaries weighted), all buffer positions and following bytes including none",
"No test calls the integer codecs; errors hide in the upper length classes and at the end of the buffer.",
[UT],[("codecs","recovery/utils/utils.go MatchParseCompressed, MatchGetCompressedSize, MatchUllReadComPressed, MatchUllReadMuchCompressed, MachUllGetMuchCompressedSize, MatchReadFrom1..8")],
["return values"])
add("C24","A log message appears exactly when its severity is within the configured level",
"With the log level set to trace, debug, info, warn, error or fatal (in any letter case; anything else means info), a message is written if and only if its severity is at least as severe as that level, once, with all its arguments, and under the matching severity. Log files are created under the configured path and nowhere else.",
["configurations","histories"],"all levels and spellings, all logging functions, all sequences of level changes and messages",
"The logging tests call each function once without checking any output, at one level.",
[LG],[("level filter","recovery/logs/logs.go")],["log output"])
add("C25","The command line delivers the library's result for every valid invocation",
"For every valid combination and order of options, the command-line program prints on standard output the statements the requested operation yields, with recovery mode selected exactly by the operation type RecoveryData and several redo files given as a comma-separated list. Log output never appears on standard output, and an invalid request prints no SQL statement and ends with a failing exit status.",
["configurations","inputs"],"all option orders, spellings (--x=y, --x y), option placement before or after the subcommand, log levels, operation types, one or several redo files",
"No test runs the program.",
[CM,LG],[("commands","cmd/db-recovery/command.go")])
add("C26","Input files are never modified",
"No operation, successful or failing, in any mode, on intact or damaged input, changes, truncates, renames, deletes or creates anything among the data, dictionary and redo files or in their directory. This also holds for file names that do not exist.",
["inputs","fault_sequences","configurations"],"all operations, modes, file contents and missing files",
"No test looks at the files after an operation.",
[IB,RP,UT],[("read-only access","recovery/ibdata/parse.go parseFile; recovery/redo/parse.go ParseRedoLogs")],["file contents and metadata"])
add("C27","Statements name tables and columns exactly as their users did",
"A table is found under the schema and table name its user gave it, however the dictionary encodes these names, and every statement printed for it names exactly that schema, that table and (in an UPDATE) those columns. The names are quoted so that none of their characters, quotes and backticks included, can end the identifier or change the statement, and they may have any length MySQL allows (64 characters).",
["inputs","configurations"],"all schema, table and column names of printable characters up to 64 characters long, in print and recovery mode and in redo recovery with any selection, through the library and the program",
NOFIX+"no table is ever looked up in a test; encoded and quoted characters and long names matter only in particular positions.",
[IB,FM,RP,UT],[("name decoding","recovery/ibdata/parse.go getAllTables"),("quoting","recovery/utils/utils.go QuoteName"),("statement building","recovery/ibdata/format.go; recovery/redo/parse.go makeSQL")])
add("C28","Output that cannot be written is reported, never silently lost",
"If standard output cannot take the statements (the disk or a size limit is full, the descriptor is not writable, the reader has gone), the operation returns an error, and the program ends with a failing exit status. What was written until then is exactly the beginning of the full output. The parser can be used again afterwards and then prints everything.",
["fault_sequences","inputs"],"all points of the output at which writing fails, all ways in which it fails, print, recovery and redo mode, through the library and the program",
NOFIX+"no test lets a write fail, and a lost write depends on where in the output it happens.",
[FM,IB,RP,RM,CM],[("statement output","recovery/ibdata/format.go makeReplaceIntoStatement; recovery/redo/parse.go makeSQL"),("error return","recovery/ibdata/parse.go ParseDataPage; recovery/redo/parse.go parseRedoBlockData")],["standard output","returned errors","exit status"])
add("C29","Replaying the printed statements backwards restores every earlier state",
"If the REPLACE statements of print mode and recovery mode are executed on an empty table and then the UPDATE statements printed from the redo log in reverse order, each UPDATE finds exactly one row, and after each the table holds exactly the rows it held before the logged update. In the end it is as it was before the log began, with the deleted rows back in it.",
["histories","inputs"],"all histories of inserts, deletes and updates of rows of tables with a key (keys are not reused), all column types the tool prints, one or several tables and log files",
NOFIX+"no test combines the data file with the log, and no test executes a statement.",
[IB,FM,RP,RM],[("rows","recovery/ibdata/parse.go ParseDataPage"),("updates","recovery/redo/mlog.go mlogUndoInsert; recovery/redo/parse.go makeSQL")])
add("C30","Requests running at the same time print exactly what they print alone",
"Operations on separate parser instances that run at the same time in one process, in any mode and on the same or different files, each print exactly the statements they print alone, whatever the schedule. They share no state they modify: there is no data race between them.",
["schedules","inputs"],"all schedules of two or more concurrent requests, all modes, files and time zones",
"The tests run one operation at a time and without the race detector.",
[IB,FM,RP,RM,UT],[("parser state","recovery/ibdata/parse.go Parse; recovery/redo/parse.go Parse"),("shared helpers","recovery/utils/utils.go")],["SQL statements on standard output","data races"])
add("C31","A failing read is reported, never taken for the end of the file",
"If opening or reading a system tablespace, a data file or a redo log fails at any point, the operation either still delivers the complete result or returns an error, and the program then ends with a message and a failing exit status. It never presents the part it could read as the whole result, and prints no statement the intact files would not give.",
["fault_sequences"],"all files, all points at which opening or reading fails, all error codes, failing once or from then on, in all modes",
"No test makes a read fail.",
[IB,RP,UT,CM],[("page reading","recovery/ibdata/parse.go parseFile; recovery/utils/utils.go ReadNextBytes"),("block reading","recovery/redo/parse.go ParseRedoLogs, readRedoLogFileHeader, readRedoLogFileCheckpoint")],["SQL statements on standard output","exit status"])
add("C32","An operation leaves no open file and nothing running behind",
"When an operation has returned, successful or failing, on intact, damaged, cut or missing files, every file it opened is closed and nothing it started is still running. One process can thus serve any number of requests.",
["inputs","fault_sequences"],"all operations and modes, all file contents and lengths, missing files and directories in place of files",
"No test looks at the open files of the process or makes an operation fail half way.",
[IB,RP],[("file handling","recovery/ibdata/parse.go parseFile; recovery/redo/parse.go ParseRedoLogs")],["open file descriptors","goroutines"])
add("C33","The log never changes or loses statements",
"Whatever the log level, and whether the log can be written or not (directory missing, unusable or without permission, disk full, a write failing at any point), the program either prints its complete result and succeeds, or ends with a message on standard error and a failing exit status, having printed nothing but a beginning of the statements. Where nothing is wrong with the log it succeeds on every level.",
["fault_sequences","inputs"],"all log levels and spellings, all kinds of unusable directories, all points at which opening or writing a log file fails, print, recovery and redo mode",
"The only stable test of the logs calls the logger and asserts nothing; no test makes the log fail.",
[CM,LG],[("log set-up","recovery/logs/logs.go InitLogs; cmd/db-recovery/command.go FromDataFile, FromRedoFile"),("leveled messages","recovery/logs/logs.go")],["standard output","standard error","exit status"])
add("C34","The time for a request grows in proportion to its size",
"If the tables of the dictionary, the pages of a data file, or the records, bytes or files of a redo log become several times as many while everything else stays the same, a request takes only about as many times longer, in every mode, and prints the same statements, as often as their origins are repeated. Tablespaces and logs of the size real servers have can thus be processed.",
["inputs"],"all kinds of growth (tables of all shapes, leaf pages, other pages, updates, other log records, log files), all contents, print, recovery and redo mode",
"The tests read a few small fixed files; no test compares sizes.",
[IB,RP,UT],[("pages of a file","recovery/ibdata/parse.go parseFile"),("dictionary loading","recovery/ibdata/parse.go ParseDictPage"),("log records","recovery/redo/parse.go ParseRedoLogs, parseRedoBlockData")],["standard output","processor time of the program"])
with open("/verif/properties.jsonl","w") as f:
    for p in P:
        assert len(p["title"])<=80,(p["id"],len(p["title"]))
        f.write(json.dumps(p,ensure_ascii=False)+"\n")
print(len(P))
