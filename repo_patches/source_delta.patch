From 34e2edcdc0ea13c9c88a5bee6c8ec2cec98e450d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:52 +0000
Subject: [PATCH 01/55] fix: keep all 24 bits of an unsigned MEDIUMINT

The mask 0x3FFFFF dropped the two upper bits, so values from 4194304 on
were printed wrong.
---
 recovery/utils/utils.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recovery/utils/utils.go b/recovery/utils/utils.go
index 805121c..fffba32 100644
--- a/recovery/utils/utils.go
+++ b/recovery/utils/utils.go
@@ -98,7 +98,7 @@ func GetUintValue(FixLength int, value []byte) uint64 {
 	case 2:
 		return MatchReadFrom2(value)
 	case 3:
-		return MatchReadFrom3(value) & 0x3FFFFF
+		return MatchReadFrom3(value)
 	case 4:
 		return MatchReadFrom4(value)
 	case 5:
-- 
2.43.0


From 1b8ebf365d7c092375bb3197ee2fca244c26014e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:53 +0000
Subject: [PATCH 02/55] fix: read 5, 6 and 7 byte numbers within their bytes

GetUintValue read 8 bytes from slices of 5 to 7 bytes and panicked, e.g. for
BIT(33) to BIT(56) columns.
---
 recovery/utils/utils.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/recovery/utils/utils.go b/recovery/utils/utils.go
index fffba32..94351fe 100644
--- a/recovery/utils/utils.go
+++ b/recovery/utils/utils.go
@@ -102,11 +102,11 @@ func GetUintValue(FixLength int, value []byte) uint64 {
 	case 4:
 		return MatchReadFrom4(value)
 	case 5:
-		return MatchReadFrom8(value) >> 24
+		return UtUllCreate(MatchReadFrom1(value), MatchReadFrom4(value[1:]))
 	case 6:
-		return MatchReadFrom8(value) >> 16
+		return UtUllCreate(MatchReadFrom2(value), MatchReadFrom4(value[2:]))
 	case 7:
-		return MatchReadFrom8(value) >> 8
+		return MatchReadFrom7(value)
 	case 8:
 		return MatchReadFrom8(value)
 	}
-- 
2.43.0


From 346c22c85bb8eebce5b48d8cfc0a87939208954c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:53 +0000
Subject: [PATCH 03/55] fix: read the low word of a compressed 64-bit number
 where it is

MatchUllReadComPressed skipped the size of the high word twice, so it read the
low word from the bytes after the number (or past the end of the buffer).
---
 recovery/utils/utils.go | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/recovery/utils/utils.go b/recovery/utils/utils.go
index 94351fe..3cfd9ba 100644
--- a/recovery/utils/utils.go
+++ b/recovery/utils/utils.go
@@ -400,19 +400,13 @@ func ParseBinaryFloat64(data []byte) float64 {
 
 // MatchUllReadComPressed ...
 func MatchUllReadComPressed(b []byte, pos *uint64) uint64 {
-	// TODO: num should add to pos
 	n, num, err := MatchParseCompressed(b, *pos)
 	*pos += num
 	if err != nil {
 		fmt.Println(err.Error())
 	}
-	size, err := MatchGetCompressedSize(n)
-	// *pos += size
-	if err != nil {
-		fmt.Println(err.Error())
-	}
 	n <<= 32
-	n |= MatchReadFrom4(b[*pos:][size:])
+	n |= MatchReadFrom4(b[*pos:])
 	*pos += 4
 	return n
 }
-- 
2.43.0


From 3aa47aa456bb349540146ca2c97b179b572eb7d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:54 +0000
Subject: [PATCH 04/55] fix: keep the high word of a much compressed 64-bit
 number

MatchUllReadMuchCompressed assigned the high word to a shadowed variable and
MachUllGetMuchCompressedSize did not count the leading 0xFF.
---
 recovery/utils/utils.go | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/recovery/utils/utils.go b/recovery/utils/utils.go
index 3cfd9ba..aa1417d 100644
--- a/recovery/utils/utils.go
+++ b/recovery/utils/utils.go
@@ -424,15 +424,12 @@ func MatchUllReadMuchCompressed(b []byte) (uint64, error) {
 		n = 0
 		size = 0
 	} else {
-		n, _, err := MatchParseCompressed(b, 1)
+		high, num, err := MatchParseCompressed(b, 1)
 		if err != nil {
 			return 0, err
 		}
-		v, err := MatchGetCompressedSize(n)
-		if err != nil {
-			fmt.Println(err.Error())
-		}
-		size = 1 + v
+		n = high << 32
+		size = 1 + num
 	}
 	value, _, err := MatchParseCompressed(b, size)
 	if err != nil {
@@ -461,7 +458,8 @@ func MachUllGetMuchCompressedSize(num uint64) uint64 {
 	if err != nil {
 		fmt.Println(err.Error())
 	}
-	return n1 + n2
+	// One more byte for the leading 0xFF.
+	return 1 + n1 + n2
 }
 
 // ReadIntoStruct ...
-- 
2.43.0


From f8538401cfa8b54bf388e7932fddc1a06be751cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:55 +0000
Subject: [PATCH 05/55] fix: read the short compressed forms MySQL 5.7 writes
 near 2^32

MySQL 5.7 writes numbers from 0xFF000000 on, such as the NULL length in undo
records, in 2 to 4 bytes starting with 0xF8 to 0xFE.  They were read as five
byte numbers, which also lost the position in the log.
---
 recovery/utils/utils.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/recovery/utils/utils.go b/recovery/utils/utils.go
index aa1417d..2e6cd62 100644
--- a/recovery/utils/utils.go
+++ b/recovery/utils/utils.go
@@ -297,14 +297,25 @@ func MatchParseCompressed(data []byte, pos uint64) (uint64, uint64, error) {
 		return MatchReadFrom3(data[pos:]) & uint64(Num6), 3, nil
 	} else if int64(flag) < Num4 {
 		return MatchReadFrom4(data[pos:]) & uint64(Num7), 4, nil
-	} else {
+	} else if flag < 0xF8 {
 		if pos+5 > uint64(len(data)) {
 			ErrMsg := fmt.Sprintf("data too short, method is MatchParseCompressed")
 			logs.Error(ErrMsg)
 			return 0, 5, fmt.Errorf(ErrMsg)
 		}
 		return MatchReadFrom4(data[pos+1:]), 5, nil
-	}
+	} else if flag < 0xFC {
+		// MySQL 5.7 has shorter forms for numbers near 2^32, such as the
+		// length of a NULL: 111110nn nnnnnnnn (10 bits)
+		return MatchReadFrom2(data[pos:])&0x3FF | 0xFFFFFC00, 2, nil
+	} else if flag < 0xFE {
+		// 1111110n nnnnnnnn nnnnnnnn (17 bits)
+		return MatchReadFrom3(data[pos:])&0x1FFFF | 0xFFFE0000, 3, nil
+	} else if flag == 0xFE {
+		// 11111110 nnnnnnnn nnnnnnnn nnnnnnnn (24 bits)
+		return MatchReadFrom3(data[pos+1:]) | 0xFF000000, 4, nil
+	}
+	return 0, 1, fmt.Errorf("not a compressed number, method is MatchParseCompressed")
 }
 
 // MatchGetCompressedSize ...
-- 
2.43.0


From 3904f6d3861b1e070cae882be9746fccdd865199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:46 +0000
Subject: [PATCH 06/55] fix: strip only the pad spaces of CHAR values

Leading blanks and trailing tabs, newlines or other white space belong to the
value.
---
 recovery/utils/utils.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recovery/utils/utils.go b/recovery/utils/utils.go
index 2e6cd62..ace5dca 100644
--- a/recovery/utils/utils.go
+++ b/recovery/utils/utils.go
@@ -645,7 +645,7 @@ func ParseData(DataType uint64, MySQLType uint64,
 	case DATA_VARMYSQL:
 		return string(data[:FieldLen]), nil
 	case DATA_MYSQL:
-		return strings.TrimSpace(string(data[:FieldLen])), nil
+		return strings.TrimRight(string(data[:FieldLen]), " "), nil
 	case DATA_BLOB:
 		// TODO: deal with binary data.
 		if *IsBinary {
-- 
2.43.0


From d33c5cc3ba532b0ed6f1225de711dcc1179b00e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:46 +0000
Subject: [PATCH 07/55] fix: print TIMESTAMP values with 24-hour time

Afternoon times were printed with the hours 01 to 11, midnight as 12, and the
zero timestamp as a date in 1970.
---
 recovery/utils/utils.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/recovery/utils/utils.go b/recovery/utils/utils.go
index ace5dca..05302ff 100644
--- a/recovery/utils/utils.go
+++ b/recovery/utils/utils.go
@@ -885,7 +885,10 @@ func ParseTime(data []byte) string {
 func ParseTimeStamp(data []byte) string {
 	// TODO: add time_precision
 	t := MatchReadFrom4(data)
-	tm := time.Unix(int64(t), 0).Format("2006-01-02 03:04:05")
+	if t == 0 {
+		return "0000-00-00 00:00:00"
+	}
+	tm := time.Unix(int64(t), 0).Format("2006-01-02 15:04:05")
 	return tm
 }
 
-- 
2.43.0


From 938ead109723cdceaedfc9171b25444a9d5c3902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:47 +0000
Subject: [PATCH 08/55] fix: decode 5-byte DATETIME values from their own bytes

The format was guessed from 8 bytes, so the bytes of the next column decided
how the value was read, years outside 1991-2099 came out wrong, and a value at
the end of an undo record panicked.
---
 recovery/utils/utils.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/recovery/utils/utils.go b/recovery/utils/utils.go
index 05302ff..724b82f 100644
--- a/recovery/utils/utils.go
+++ b/recovery/utils/utils.go
@@ -595,7 +595,7 @@ func ParseData(DataType uint64, MySQLType uint64,
 			FormatTimeStamp := ParseTimeStamp(data)
 			return FormatTimeStamp, nil
 		case MYSQL_TYPE_DATETIME:
-			FormatDateTime := ParseDateTime(data)
+			FormatDateTime := ParseDateTime(data[:FieldLen])
 			return FormatDateTime, nil
 		case MYSQL_TYPE_BIT:
 			return GetUintValue(FixLength, data[:FieldLen]), nil
@@ -789,7 +789,12 @@ func GetTimeFormat(data []byte) int {
 
 // ParseDateTime ...
 func ParseDateTime(data []byte) string {
-	format := GetTimeFormat(data)
+	// MySQL 5.6.4 and later store 5 bytes plus the fractional seconds,
+	// earlier versions 8 bytes.
+	format := 2
+	if len(data) >= 8 {
+		format = GetTimeFormat(data)
+	}
 	if format == 1 || format == 0 {
 		ldate := MatchReadFrom8(data)
 		ldate = ldate &^ (1 << 63)
@@ -810,7 +815,7 @@ func ParseDateTime(data []byte) string {
 		return FormatTime
 
 	} else if format == 2 {
-		ldate := MatchReadFrom8(data)
+		ldate := UtUllCreate(MatchReadFrom1(data), MatchReadFrom4(data[1:])) << 24
 		yd := (ldate & 0x7FFFC00000000000) >> 46
 		year := yd / 13
 		month := yd - year*13
-- 
2.43.0


From 6d0d151efbc7f19513c94cb421701a5c3f78ad2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:48 +0000
Subject: [PATCH 09/55] fix: print YEAR 0000

The stored byte 0 is the year 0000, 1900 is not a valid YEAR.
---
 recovery/utils/utils.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/recovery/utils/utils.go b/recovery/utils/utils.go
index 724b82f..17a55c3 100644
--- a/recovery/utils/utils.go
+++ b/recovery/utils/utils.go
@@ -625,6 +625,9 @@ func ParseData(DataType uint64, MySQLType uint64,
 			return DateTime, nil
 		case MYSQL_TYPE_YEAR:
 			FormatYear := MatchReadFrom1(data) + 1900
+			if FormatYear == 1900 {
+				return "0000", nil
+			}
 			return FormatYear, nil
 		default:
 			if IsUnsigned {
-- 
2.43.0


From 9bdcad1c0988c27fe20d4d611b8a451691a7512f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:49 +0000
Subject: [PATCH 10/55] fix: do not blank out the text 0001-01-01T00:00:00Z

No value is formatted as that constant other than the text itself.
---
 recovery/utils/utils.go | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/recovery/utils/utils.go b/recovery/utils/utils.go
index 17a55c3..5a24ea0 100644
--- a/recovery/utils/utils.go
+++ b/recovery/utils/utils.go
@@ -952,11 +952,6 @@ func EscapeValue(colValue string) string {
 		last = i + 1
 	}
 	colBuffer.WriteString(colValue[last:])
-	// TODO: If the source is really 0001-01-01T00:00:00Z, it will cause data inconsistency.
-	if colBuffer.String() == "0001-01-01T00:00:00Z" {
-		colBuffer.Reset()
-		colBuffer.WriteString("")
-	}
 	return colBuffer.String()
 }
 
-- 
2.43.0


From 96c2f9c3d40f5a9319e990b10b14060f3000e976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:50 +0000
Subject: [PATCH 11/55] fix: tell NULL from the text NULL

NULL was represented by the string "NULL", so that text was printed as NULL.
A value that could not be read kept the value of the preceding record.
---
 recovery/ibdata/format.go | 2 +-
 recovery/ibdata/parse.go  | 5 ++---
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/recovery/ibdata/format.go b/recovery/ibdata/format.go
index 08224d0..1401d60 100644
--- a/recovery/ibdata/format.go
+++ b/recovery/ibdata/format.go
@@ -41,7 +41,7 @@ func (parse *Parse) makeReplaceIntoStatement(AllColumns [][]Columns, table strin
 				buf.WriteString("unhex(")
 			}
 
-			if column.FieldValue != nil && column.FieldValue != "NULL" {
+			if column.FieldValue != nil {
 				buf.WriteByte('\'')
 				buf.WriteString(utils.EscapeValue(fmt.Sprintf("%v", column.FieldValue)))
 				buf.WriteByte('\'')
diff --git a/recovery/ibdata/parse.go b/recovery/ibdata/parse.go
index 8e4041f..1f77aa1 100644
--- a/recovery/ibdata/parse.go
+++ b/recovery/ibdata/parse.go
@@ -934,9 +934,8 @@ func (parse *Parse) parseRecords(d []byte, o []byte, offsets []uint64, columns [
 		// Get field len from offset array.
 		data := utils.RecGetNthField(o, offsets, i, &fieldLen)
 		if uint64(len(data)) < fieldLen {
-			if fieldLen == 0xFFFFFFFF {
-				columns[i].FieldValue = "NULL"
-			}
+			// nil is NULL.
+			columns[i].FieldValue = nil
 			continue
 		}
 
-- 
2.43.0


From 5a36e32dc188b7cdcae791d1938b21a2745c08a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:50 +0000
Subject: [PATCH 12/55] fix: print BIT values in binary and NULL undecorated

b'5' is not a bit literal, bNULL is not a literal at all, and unhex(NULL) hides
the NULL keyword.
---
 recovery/ibdata/format.go | 22 +---------------------
 recovery/utils/utils.go   | 15 +++++++++++++++
 2 files changed, 16 insertions(+), 21 deletions(-)

diff --git a/recovery/ibdata/format.go b/recovery/ibdata/format.go
index 1401d60..ce6e08b 100644
--- a/recovery/ibdata/format.go
+++ b/recovery/ibdata/format.go
@@ -33,27 +33,7 @@ func (parse *Parse) makeReplaceIntoStatement(AllColumns [][]Columns, table strin
 				buf.WriteByte(',')
 			}
 
-			if column.MySQLType == utils.MYSQL_TYPE_BIT {
-				buf.WriteString("b")
-			}
-
-			if column.IsBinary {
-				buf.WriteString("unhex(")
-			}
-
-			if column.FieldValue != nil {
-				buf.WriteByte('\'')
-				buf.WriteString(utils.EscapeValue(fmt.Sprintf("%v", column.FieldValue)))
-				buf.WriteByte('\'')
-			} else {
-				//buf.WriteByte('\'')
-				//buf.WriteByte('\'')
-				buf.WriteString("NULL")
-			}
-
-			if column.IsBinary {
-				buf.WriteString(")")
-			}
+			buf.WriteString(utils.FormatValue(column.FieldValue, column.MySQLType, column.IsBinary))
 		}
 
 		buf.WriteString(");")
diff --git a/recovery/utils/utils.go b/recovery/utils/utils.go
index 5a24ea0..8343e7c 100644
--- a/recovery/utils/utils.go
+++ b/recovery/utils/utils.go
@@ -955,6 +955,21 @@ func EscapeValue(colValue string) string {
 	return colBuffer.String()
 }
 
+// FormatValue makes the SQL literal of a parsed value, nil is NULL.
+func FormatValue(value interface{}, MySQLType uint64, IsBinary bool) string {
+	if value == nil {
+		return "NULL"
+	}
+	if bits, ok := value.(uint64); ok && MySQLType == MYSQL_TYPE_BIT {
+		return "b'" + strconv.FormatUint(bits, 2) + "'"
+	}
+	literal := "'" + EscapeValue(fmt.Sprintf("%v", value)) + "'"
+	if IsBinary {
+		return "unhex(" + literal + ")"
+	}
+	return literal
+}
+
 // GetFilesFromOS ...
 func GetFilesFromOS(FilePath string) ([]string, error) {
 	c := fmt.Sprintf("ls -lrt %s|grep ibd|awk '{print $9}'|awk -F '.' '{print $1}'", FilePath)
-- 
2.43.0


From b1deb15c76e65adefdd25900f6a95679b075a505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:51 +0000
Subject: [PATCH 13/55] fix: escape the values of UPDATE statements

Quotes in a value ended the literal, binary values were printed as the text of
their hexadecimal form and BIT values as decimal text.
---
 recovery/ibdata/structure.go |  2 ++
 recovery/redo/mlog.go        |  2 ++
 recovery/redo/parse.go       | 13 ++++---------
 3 files changed, 8 insertions(+), 9 deletions(-)

diff --git a/recovery/ibdata/structure.go b/recovery/ibdata/structure.go
index 8c2b617..90bb13a 100644
--- a/recovery/ibdata/structure.go
+++ b/recovery/ibdata/structure.go
@@ -53,6 +53,8 @@ type Fields struct {
 	ColumnName string
 	//ColumnType  uint64
 	ColumnValue interface{}
+	MySQLType   uint64
+	IsBinary    bool
 }
 
 // DataDict store the data dictionary info.
diff --git a/recovery/redo/mlog.go b/recovery/redo/mlog.go
index 8889ffb..04aed53 100644
--- a/recovery/redo/mlog.go
+++ b/recovery/redo/mlog.go
@@ -156,6 +156,8 @@ func (parse *Parse) mlogUndoInsert(data []byte, pos *uint64) error {
 
 		logs.Debug("the table is ", Table.TableName, " table id is ", tableID, " unique value is ")
 		v.ColumnValue = value
+		v.MySQLType = column.MySQLType
+		v.IsBinary = column.IsBinary
 
 		*pos += FiledLen
 	}
diff --git a/recovery/redo/parse.go b/recovery/redo/parse.go
index 7985960..67c7874 100644
--- a/recovery/redo/parse.go
+++ b/recovery/redo/parse.go
@@ -519,17 +519,11 @@ func (parse *Parse) validateLogHeader(logType uint64, spaceID uint64) bool {
 
 func (parse *Parse) makeSQL(table ibdata.Tables, primaryColumns []*ibdata.Fields, columns []*ibdata.Columns) {
 
-	// TODO: deal with null value.
-
 	// update statement
 	var SetValues string
 	for i, c := range columns {
-		var SetValue string
-		if c.FieldValue != nil {
-			SetValue = fmt.Sprintf("`%s`='%v'", c.FieldName, c.FieldValue)
-		} else {
-			SetValue = fmt.Sprintf("`%s`=NULL", c.FieldName)
-		}
+		SetValue := fmt.Sprintf("`%s`=%s", c.FieldName,
+			utils.FormatValue(c.FieldValue, c.MySQLType, c.IsBinary))
 		if i == (len(columns) - 1) {
 			SetValues += SetValue
 		} else {
@@ -540,7 +534,8 @@ func (parse *Parse) makeSQL(table ibdata.Tables, primaryColumns []*ibdata.Fields
 	var whereConditions string
 
 	for j, v := range primaryColumns {
-		whereCondition := fmt.Sprintf("`%s`='%v'", v.ColumnName, v.ColumnValue)
+		whereCondition := fmt.Sprintf("`%s`=%s", v.ColumnName,
+			utils.FormatValue(v.ColumnValue, v.MySQLType, v.IsBinary))
 		if j == (len(primaryColumns) - 1) {
 			whereConditions += whereCondition
 		} else {
-- 
2.43.0


From 33e1fd18f98f423b3cb7f6d7f1b09bdbe0e2fdf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:52 +0000
Subject: [PATCH 14/55] fix: separate SET assignments by commas

"set a=1 and b=2" assigns a boolean to a.
---
 recovery/redo/parse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recovery/redo/parse.go b/recovery/redo/parse.go
index 67c7874..d8bedfb 100644
--- a/recovery/redo/parse.go
+++ b/recovery/redo/parse.go
@@ -527,7 +527,7 @@ func (parse *Parse) makeSQL(table ibdata.Tables, primaryColumns []*ibdata.Fields
 		if i == (len(columns) - 1) {
 			SetValues += SetValue
 		} else {
-			SetValues += SetValue + " and "
+			SetValues += SetValue + ", "
 		}
 	}
 
-- 
2.43.0


From a49c0f08d19ea1883619ddc0c35726665dabe72b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:52 +0000
Subject: [PATCH 15/55] fix: keep messages out of the printed statements

Standard output carries the SQL statements.
---
 recovery/utils/utils.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/recovery/utils/utils.go b/recovery/utils/utils.go
index 8343e7c..71ebe03 100644
--- a/recovery/utils/utils.go
+++ b/recovery/utils/utils.go
@@ -414,7 +414,7 @@ func MatchUllReadComPressed(b []byte, pos *uint64) uint64 {
 	n, num, err := MatchParseCompressed(b, *pos)
 	*pos += num
 	if err != nil {
-		fmt.Println(err.Error())
+		logs.Error(err.Error())
 	}
 	n <<= 32
 	n |= MatchReadFrom4(b[*pos:])
@@ -467,7 +467,7 @@ func MachUllGetMuchCompressedSize(num uint64) uint64 {
 	Num, err := strconv.ParseInt("FFFFFFFF", 16, 64)
 	n2, err := MatchGetCompressedSize(num & uint64(Num))
 	if err != nil {
-		fmt.Println(err.Error())
+		logs.Error(err.Error())
 	}
 	// One more byte for the leading 0xFF.
 	return 1 + n1 + n2
@@ -553,14 +553,14 @@ func ParseInsertRecord(IsShort bool, data []byte, pos uint64) (uint64, error) {
 		OriginOffset, num, err := MatchParseCompressed(data, pos)
 
 		if err != nil {
-			fmt.Println(err.Error())
+			logs.Error(err.Error())
 		}
 		pos += num
 
 		MisMatchIndex, num, err := MatchParseCompressed(data, pos)
 
 		if err != nil {
-			fmt.Println(err.Error())
+			logs.Error(err.Error())
 		}
 		pos += num
 		logs.Debug("InfoAndStatusBits is ", InfoAndStatusBits, "OriginOffset is ",
@@ -601,7 +601,7 @@ func ParseData(DataType uint64, MySQLType uint64,
 			return GetUintValue(FixLength, data[:FieldLen]), nil
 		case MYSQL_TYPE_NEWDECIMAL:
 			// TODO: support it.
-			fmt.Println("test MYSQL_TYPE_NEWDECIMAL")
+			logs.Warn("the decimal data type, not support.")
 		case MYSQL_TYPE_STRING:
 			*IsBinary = true
 			return ParseBlob(data[:FieldLen]), nil
-- 
2.43.0


From 7a4b0ae3be9c5df9af024d29f0bd5d167679bbe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:36 +0000
Subject: [PATCH 16/55] fix: read two-byte lengths of VARBINARY columns

The declared length of VARBINARY columns was dropped, so lengths above 127 of
columns declared with more than 255 bytes were read as one byte.
---
 recovery/ibdata/parse.go     |  3 ++-
 recovery/ibdata/structure.go | 12 +++++++-----
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/recovery/ibdata/parse.go b/recovery/ibdata/parse.go
index 1f77aa1..c2bc18d 100644
--- a/recovery/ibdata/parse.go
+++ b/recovery/ibdata/parse.go
@@ -460,6 +460,7 @@ func (parse *Parse) getAllColumns() error {
 					MySQLType: MySQLType,
 					FieldPos:  c[1].FieldValue.(uint64),
 					FieldLen:  TempFieldLen,
+					MaxLen:    c[7].FieldValue.(uint64),
 					IsNUll:    IsNull, IsUnsigned: IsUnsigned,
 					TableID:  c[0].FieldValue.(uint64),
 					IsBinary: IsBinary})
@@ -1161,7 +1162,7 @@ func (parse *Parse) ibRecInitOffsetsNew(d []byte, offset uint64, o []byte, offse
 			//      if (debug) printf("Variable-length field: read the length\n");
 			/* Variable-length field: read the length */
 
-			if table.Columns[i].FieldLen > 255 || table.Columns[i].FieldType == utils.DATA_BLOB {
+			if table.Columns[i].MaxLen > 255 || table.Columns[i].FieldType == utils.DATA_BLOB {
 
 				if length&0x80 != 0 {
 
diff --git a/recovery/ibdata/structure.go b/recovery/ibdata/structure.go
index 90bb13a..00fdecb 100644
--- a/recovery/ibdata/structure.go
+++ b/recovery/ibdata/structure.go
@@ -26,11 +26,13 @@ type Tables struct {
 
 // Columns store the table columns info.
 type Columns struct {
-	FieldName  string
-	FieldType  uint64
-	MySQLType  uint64
-	FieldPos   uint64
-	FieldLen   uint64
+	FieldName string
+	FieldType uint64
+	MySQLType uint64
+	FieldPos  uint64
+	FieldLen  uint64
+	// MaxLen is the declared length, also of columns stored with any length.
+	MaxLen     uint64
 	FieldValue interface{}
 	IsNUll     bool
 	IsBinary   bool
-- 
2.43.0


From b2881722622e714afc04baff314379085b2f9062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:36 +0000
Subject: [PATCH 17/55] fix: treat latin1 VARCHAR columns as variable-length

Their values were read with the declared length.  The system columns of the
dictionary tables, which are fixed-length, get a fixed-length type.
---
 recovery/ibdata/parse.go | 16 ++++++++--------
 recovery/utils/utils.go  |  4 ++--
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/recovery/ibdata/parse.go b/recovery/ibdata/parse.go
index c2bc18d..4b4bfe8 100644
--- a/recovery/ibdata/parse.go
+++ b/recovery/ibdata/parse.go
@@ -963,8 +963,8 @@ func (parse *Parse) makeSysTablesColumns() []Columns {
 
 	var columns []Columns
 	columns = append(columns, Columns{FieldName: "NAME", FieldType: 4, FieldPos: 0, FieldLen: 0})
-	columns = append(columns, Columns{FieldName: "DB_TRX_ID", FieldType: 1, FieldPos: 1, FieldLen: 6})
-	columns = append(columns, Columns{FieldName: "DB_ROLL_PTR", FieldType: 1, FieldPos: 2, FieldLen: 7})
+	columns = append(columns, Columns{FieldName: "DB_TRX_ID", FieldType: 3, FieldPos: 1, FieldLen: 6})
+	columns = append(columns, Columns{FieldName: "DB_ROLL_PTR", FieldType: 3, FieldPos: 2, FieldLen: 7})
 	columns = append(columns, Columns{FieldName: "ID", FieldType: 4, FieldPos: 3, FieldLen: 8})
 	columns = append(columns, Columns{FieldName: "N_COLS", FieldType: 6, FieldPos: 4, FieldLen: 4})
 	columns = append(columns, Columns{FieldName: "TYPE", FieldType: 6, FieldPos: 5, FieldLen: 4, IsUnsigned: true})
@@ -983,8 +983,8 @@ func (parse *Parse) makeSysColumnsColumns() []Columns {
 	var columns []Columns
 	columns = append(columns, Columns{FieldName: "TABLE_ID", FieldType: 4, FieldPos: 0, FieldLen: 8})
 	columns = append(columns, Columns{FieldName: "POS", FieldType: 6, FieldPos: 1, FieldLen: 4, IsUnsigned: true})
-	columns = append(columns, Columns{FieldName: "DB_TRX_ID", FieldType: 1, FieldPos: 2, FieldLen: 6})
-	columns = append(columns, Columns{FieldName: "DB_ROLL_PTR", FieldType: 1, FieldPos: 3, FieldLen: 7})
+	columns = append(columns, Columns{FieldName: "DB_TRX_ID", FieldType: 3, FieldPos: 2, FieldLen: 6})
+	columns = append(columns, Columns{FieldName: "DB_ROLL_PTR", FieldType: 3, FieldPos: 3, FieldLen: 7})
 	columns = append(columns, Columns{FieldName: "NAME", FieldType: 4, FieldPos: 4, FieldLen: 0})
 	columns = append(columns, Columns{FieldName: "MTYPE", FieldType: 6, FieldPos: 5, FieldLen: 4, IsUnsigned: true})
 	columns = append(columns, Columns{FieldName: "PRTYPE", FieldType: 6, FieldPos: 6, FieldLen: 4, IsUnsigned: true})
@@ -1001,8 +1001,8 @@ func (parse *Parse) makeSysIndexesColumns() []Columns {
 	var columns []Columns
 	columns = append(columns, Columns{FieldName: "TABLE_ID", FieldType: 4, FieldPos: 0, FieldLen: 8})
 	columns = append(columns, Columns{FieldName: "ID", FieldType: 4, FieldPos: 1, FieldLen: 8})
-	columns = append(columns, Columns{FieldName: "DB_TRX_ID", FieldType: 1, FieldPos: 2, FieldLen: 6})
-	columns = append(columns, Columns{FieldName: "DB_ROLL_PTR", FieldType: 1, FieldPos: 3, FieldLen: 7})
+	columns = append(columns, Columns{FieldName: "DB_TRX_ID", FieldType: 3, FieldPos: 2, FieldLen: 6})
+	columns = append(columns, Columns{FieldName: "DB_ROLL_PTR", FieldType: 3, FieldPos: 3, FieldLen: 7})
 	columns = append(columns, Columns{FieldName: "NAME", FieldType: 4, FieldPos: 4, FieldLen: 0})
 	columns = append(columns, Columns{FieldName: "N_FIELDS", FieldType: 6, FieldPos: 5, FieldLen: 4, IsUnsigned: true})
 	columns = append(columns, Columns{FieldName: "TYPE", FieldType: 6, FieldPos: 6, FieldLen: 4, IsUnsigned: true})
@@ -1019,8 +1019,8 @@ func (parse *Parse) makeSysFieldsColumns() []Columns {
 	var columns []Columns
 	columns = append(columns, Columns{FieldName: "INDEX_ID", FieldType: 4, FieldPos: 0, FieldLen: 8})
 	columns = append(columns, Columns{FieldName: "POS", FieldType: 6, FieldPos: 1, FieldLen: 4, IsUnsigned: true})
-	columns = append(columns, Columns{FieldName: "DB_TRX_ID", FieldType: 1, FieldPos: 2, FieldLen: 6})
-	columns = append(columns, Columns{FieldName: "DB_ROLL_PTR", FieldType: 1, FieldPos: 3, FieldLen: 7})
+	columns = append(columns, Columns{FieldName: "DB_TRX_ID", FieldType: 3, FieldPos: 2, FieldLen: 6})
+	columns = append(columns, Columns{FieldName: "DB_ROLL_PTR", FieldType: 3, FieldPos: 3, FieldLen: 7})
 	columns = append(columns, Columns{FieldName: "COL_NAME", FieldType: 4, FieldPos: 4, FieldLen: 0})
 
 	return columns
diff --git a/recovery/utils/utils.go b/recovery/utils/utils.go
index 71ebe03..dcc0c25 100644
--- a/recovery/utils/utils.go
+++ b/recovery/utils/utils.go
@@ -707,8 +707,8 @@ func GetFixedLengthByMySQLType(MySQLType uint64, FieldLen uint64) uint64 {
 func GetFixedLength(DataType uint64, FieldLen uint64) uint64 {
 
 	switch DataType {
-	//case DATA_VARCHAR:
-	//	return 0
+	case DATA_VARCHAR:
+		return 0
 	//case DATA_CHAR:
 	//return FieldLen / 3
 	//case DATA_FIXBINARY:
-- 
2.43.0


From c5af652da85d054995f42886141053e74c535658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:37 +0000
Subject: [PATCH 18/55] fix: sort columns and index fields by position

sortColumns had no effect, so a dictionary whose pages are not in key order in
the file gave tables with permuted columns.
---
 recovery/ibdata/parse.go | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/recovery/ibdata/parse.go b/recovery/ibdata/parse.go
index 4b4bfe8..811f4ac 100644
--- a/recovery/ibdata/parse.go
+++ b/recovery/ibdata/parse.go
@@ -18,6 +18,7 @@ import (
 	"errors"
 	"fmt"
 	"os"
+	"sort"
 	"strings"
 	"sync"
 
@@ -296,17 +297,19 @@ func (parse *Parse) parseFilHeader(data []byte) (Page, error) {
 	return page, nil
 }
 
-// sortColumns sort columns by field position.
-// // TODO: why some table fields is not sort?
+// sortColumns sort the columns of tables and indexes by field position.
 func (parse *Parse) sortColumns() {
-	var sortedColumns []Columns
 	for _, table := range parse.TableMap {
-		for i, field := range table.Columns {
-			if field.FieldPos == uint64(i) {
-				sortedColumns = append(sortedColumns, field)
-			}
+		columns := table.Columns
+		sort.SliceStable(columns, func(i, j int) bool {
+			return columns[i].FieldPos < columns[j].FieldPos
+		})
+		for _, idx := range table.Indexes {
+			fields := idx.Fields
+			sort.SliceStable(fields, func(i, j int) bool {
+				return fields[i].ColumnPos < fields[j].ColumnPos
+			})
 		}
-		table.Columns = sortedColumns
 	}
 }
 
-- 
2.43.0


From 4372b06245a4804d44ad3f84396447c5848df701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:38 +0000
Subject: [PATCH 19/55] fix: move key columns to the front in key order

moveColumns2First removed the wrong column, and so lost and duplicated columns,
unless the primary key was the first column.
---
 recovery/ibdata/parse.go | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/recovery/ibdata/parse.go b/recovery/ibdata/parse.go
index 811f4ac..50d8a59 100644
--- a/recovery/ibdata/parse.go
+++ b/recovery/ibdata/parse.go
@@ -328,16 +328,22 @@ func (parse *Parse) movePrimaryKeyFirst() {
 
 // moveColumns2First ...
 func (parse *Parse) moveColumns2First(fields []*Fields, columns []Columns) []Columns {
-	for i := 0; i < len(columns); i++ {
-		for j, field := range fields {
-			if field.ColumnName == columns[i].FieldName {
-				tempField := columns[i]
-				columns = append(columns[:j], columns[j+1:]...)
-				columns = append([]Columns{tempField}, columns...)
+	var first, rest []Columns
+	isKey := make(map[string]bool)
+	for _, field := range fields {
+		isKey[field.ColumnName] = true
+		for _, column := range columns {
+			if column.FieldName == field.ColumnName {
+				first = append(first, column)
 			}
 		}
 	}
-	return columns
+	for _, column := range columns {
+		if !isKey[column.FieldName] {
+			rest = append(rest, column)
+		}
+	}
+	return append(first, rest...)
 }
 
 // Table have some internal filed in MySQL, such as DB_TRX_ID/DB_ROLL_PTR/DB_ROW_ID.
-- 
2.43.0


From a333a6c0b2d35ca6acb83329670372420e247eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:39 +0000
Subject: [PATCH 20/55] fix: print values in the declared column order

The statement has no column list, but listed the primary key columns first.
---
 recovery/ibdata/format.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/recovery/ibdata/format.go b/recovery/ibdata/format.go
index ce6e08b..b112667 100644
--- a/recovery/ibdata/format.go
+++ b/recovery/ibdata/format.go
@@ -3,6 +3,7 @@ package ibdata
 import (
 	"bytes"
 	"fmt"
+	"sort"
 
 	"github.com/zbdba/db-recovery/recovery/logs"
 	"github.com/zbdba/db-recovery/recovery/utils"
@@ -18,6 +19,12 @@ func (parse *Parse) makeReplaceIntoStatement(AllColumns [][]Columns, table strin
 		buf.WriteString(fmt.Sprintf("replace into `%s`.`%s` values (", database, table))
 		firstCol := true
 
+		// The columns are in the order of the clustered index, the values of
+		// the statement have to be in the order of the table definition.
+		sort.SliceStable(columns, func(i, j int) bool {
+			return columns[i].FieldPos < columns[j].FieldPos
+		})
+
 		for _, column := range columns {
 
 			// Skip internal field.
-- 
2.43.0


From 27f6a55b58341e550e08a6200c66c044944c2920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:39 +0000
Subject: [PATCH 21/55] fix: recognise tables clustered on a unique index

A table without primary key but with a unique index over NOT NULL columns is
clustered on that index.  Its rows were read without the system columns, in the
wrong column order, and its updates were printed without WHERE condition.
---
 recovery/ibdata/const.go     | 5 +++++
 recovery/ibdata/parse.go     | 6 +++---
 recovery/ibdata/structure.go | 6 ++++++
 recovery/redo/mlog.go        | 2 +-
 4 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/recovery/ibdata/const.go b/recovery/ibdata/const.go
index d15552b..35552d7 100644
--- a/recovery/ibdata/const.go
+++ b/recovery/ibdata/const.go
@@ -24,6 +24,11 @@ const DefaultPageSize int = 16384
 // #define FIL_PAGE_INDEX		17855	/*!< B-tree node */
 const FilPageIndex uint64 = 17855
 
+// DictClustered ...
+// mysql-5.7.19/storage/innobase/include/dict0mem.h
+// #define DICT_CLUSTERED	1	/*!< clustered index */
+const DictClustered uint64 = 1
+
 // The root page number of the data dictionary.
 // Use it can find the sys tables index root page.
 const (
diff --git a/recovery/ibdata/parse.go b/recovery/ibdata/parse.go
index 50d8a59..635bc90 100644
--- a/recovery/ibdata/parse.go
+++ b/recovery/ibdata/parse.go
@@ -318,7 +318,7 @@ func (parse *Parse) movePrimaryKeyFirst() {
 
 	for tableID, table := range parse.TableMap {
 		for _, idx := range table.Indexes {
-			if idx.Name == "PRIMARY" {
+			if idx.IsClustered() {
 				table.Columns = parse.moveColumns2First(idx.Fields, table.Columns)
 			}
 		}
@@ -353,7 +353,7 @@ func (parse *Parse) moveColumns2First(fields []*Fields, columns []Columns) []Col
 func (parse *Parse) addInternalColumns() {
 	for tableID, table := range parse.TableMap {
 		for _, idx := range table.Indexes {
-			if idx.Name == "PRIMARY" {
+			if idx.IsClustered() && idx.Name != "GEN_CLUST_INDEX" {
 				// primary key exists, add DB_TRX_ID, DB_ROLL_PTR after primary field.
 				TrxColumns := parse.addInternalColumn("DB_TRX_ID", tableID, idx.FieldNum)
 				RollPtrColumns := parse.addInternalColumn("DB_ROLL_PTR", tableID, idx.FieldNum+1)
@@ -361,7 +361,7 @@ func (parse *Parse) addInternalColumns() {
 				table.Columns = addColumns(table.Columns, int(idx.FieldNum), TrxColumns)
 				table.Columns = addColumns(table.Columns, int(idx.FieldNum+1), RollPtrColumns)
 				parse.TableMap[tableID] = table
-			} else if idx.Name == "GEN_CLUST_INDEX" {
+			} else if idx.IsClustered() {
 				// primary key doesn't exist, should add DB_ROW_ID field.
 				// TODO: remove repeat code.
 				rowIDColumns := parse.addInternalColumn("DB_ROW_ID", tableID, 0)
diff --git a/recovery/ibdata/structure.go b/recovery/ibdata/structure.go
index 00fdecb..0f7dd3b 100644
--- a/recovery/ibdata/structure.go
+++ b/recovery/ibdata/structure.go
@@ -49,6 +49,12 @@ type Indexes struct {
 	Fields    []*Fields
 }
 
+// IsClustered tells whether the rows of the table are stored in the index: the
+// primary key, a unique index if there is no primary key, or GEN_CLUST_INDEX.
+func (idx Indexes) IsClustered() bool {
+	return idx.IndexType&DictClustered != 0
+}
+
 // Fields store the fields of the table index.
 type Fields struct {
 	ColumnPos  uint64
diff --git a/recovery/redo/mlog.go b/recovery/redo/mlog.go
index 04aed53..c2587bb 100644
--- a/recovery/redo/mlog.go
+++ b/recovery/redo/mlog.go
@@ -277,7 +277,7 @@ func (parse *Parse) getPrimaryKey(table ibdata.Tables) ([]*ibdata.Fields, error)
 	var fields []*ibdata.Fields
 
 	for _, idx := range table.Indexes {
-		if strings.TrimSpace(idx.Name) == "PRIMARY" || strings.TrimSpace(idx.Name) == "GEN_CLUST_INDEX" {
+		if idx.IsClustered() {
 			if strings.TrimSpace(idx.Name) == "GEN_CLUST_INDEX" {
 				fields = []*ibdata.Fields{&ibdata.Fields{ColumnPos: 0, ColumnName: "DB_ROW_ID"}}
 			} else {
-- 
2.43.0


From 49317c45b650c1871a931980694c10412dc95a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:20 +0000
Subject: [PATCH 22/55] fix: report tables missing from the dictionary

ParseDataPage panicked, or printed rows without values, for an unknown table.
---
 recovery/ibdata/parse.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/recovery/ibdata/parse.go b/recovery/ibdata/parse.go
index 635bc90..e056d25 100644
--- a/recovery/ibdata/parse.go
+++ b/recovery/ibdata/parse.go
@@ -1060,6 +1060,9 @@ func (parse *Parse) getTableColumnsFromDict(dbName string, tableName string) ([]
 			columns = table.Columns
 		}
 	}
+	if len(columns) == 0 {
+		return nil, fmt.Errorf("table %s.%s is not in the data dictionary", dbName, tableName)
+	}
 	return columns, nil
 }
 
-- 
2.43.0


From c2cee620a89ead6ed8e67af4feec218803ada806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:21 +0000
Subject: [PATCH 23/55] fix: stop at circular record lists

A page whose record links form a circle was read forever.
---
 recovery/ibdata/parse.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/recovery/ibdata/parse.go b/recovery/ibdata/parse.go
index e056d25..6bc1f4d 100644
--- a/recovery/ibdata/parse.go
+++ b/recovery/ibdata/parse.go
@@ -866,7 +866,15 @@ func (parse *Parse) parsePage(data []byte, pos int, columns []Columns, isRecover
 	}
 
 	var totalLen uint64
+	visited := make(map[uint64]bool)
 	for {
+		// A damaged page can link its records in a circle.
+		if visited[offset] {
+			logs.Error("record list is circular at offset ", offset)
+			break
+		}
+		visited[offset] = true
+
 		// TODO: const
 		if offset < (16384-6) && (offset != supremum) {
 			var c []Columns
-- 
2.43.0


From c8de03ce7e38fa639cf6f029df701c97df9db886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:21 +0000
Subject: [PATCH 24/55] fix: survive damaged pages

A record that does not fit the table definition panicked and took the rows of
all other pages with it.
---
 recovery/ibdata/parse.go | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/recovery/ibdata/parse.go b/recovery/ibdata/parse.go
index 6bc1f4d..4bba472 100644
--- a/recovery/ibdata/parse.go
+++ b/recovery/ibdata/parse.go
@@ -43,7 +43,15 @@ func NewParse() *Parse {
 }
 
 // ParseDictPage get table struct in dict page.
-func (parse *Parse) ParseDictPage(path string) error {
+func (parse *Parse) ParseDictPage(path string) (err error) {
+
+	// Damaged dictionary rows can have any content.
+	defer func() {
+		if r := recover(); r != nil {
+			err = fmt.Errorf("parse data dictionary failed: %v", r)
+			logs.Error(err.Error())
+		}
+	}()
 
 	pages, err := parse.parseFile(path)
 	if err != nil {
@@ -800,16 +808,14 @@ func (parse *Parse) parsePageHeader(page *Page) *Page {
 // 7.Fil Trailer
 // Read all those info and parse according to its protocol.
 // TODO: support compress and encrypt page.
-func (parse *Parse) parsePage(data []byte, pos int, columns []Columns, isRecovery bool, pageFree uint64) [][]Columns {
+func (parse *Parse) parsePage(data []byte, pos int, columns []Columns, isRecovery bool, pageFree uint64) (allColumns [][]Columns) {
 
-	// catch panic
-	//defer func() {
-	//	if err := recover(); err != nil {
-	//		logs.Error("skip error, the error is ", err)
-	//	}
-	//}()
-
-	var allColumns [][]Columns
+	// A damaged page must not hide the other pages, keep what was read of it.
+	defer func() {
+		if err := recover(); err != nil {
+			logs.Error("skip the rest of the page, the error is ", err)
+		}
+	}()
 
 	// The PAGE_BTR_SEG_LEAF length
 	pos += 10
-- 
2.43.0


From 555c84046c5bed5e0f44971b49ff15853769b81c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:22 +0000
Subject: [PATCH 25/55] fix: keep the NULL flags of REDUNDANT records

The flags were masked away right after they were set, so NULLs were printed as
empty strings or zeros.
---
 recovery/ibdata/parse.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/recovery/ibdata/parse.go b/recovery/ibdata/parse.go
index 4bba472..93e74f4 100644
--- a/recovery/ibdata/parse.go
+++ b/recovery/ibdata/parse.go
@@ -1116,8 +1116,6 @@ func (parse *Parse) ibRecInitOffsetsOld(d []byte, offset uint64, o []byte, offse
 				// #define REC_OFFS_SQL_NULL	((ulint) 1 << 31)
 				offs |= 1 << 31
 			}
-			offs &= 0xffff
-
 			// #define rec_offs_base(offsets) (offsets + REC_OFFS_HEADER_SIZE)
 			(*offsets)[2:][1+i] = offs
 		}
@@ -1137,11 +1135,10 @@ func (parse *Parse) ibRecInitOffsetsOld(d []byte, offset uint64, o []byte, offse
 			// #define REC_2BYTE_EXTERN_MASK	0x4000UL
 			if (offs & 0x4000) != 0 {
 				// #define REC_2BYTE_EXTERN_MASK	0x4000UL
-				offs = uint64(int(offs) & ^0x8000)
+				offs = uint64(int(offs) & ^0x4000)
 				// #define REC_OFFS_EXTERNAL	((ulint) 1 << 30)
 				offs = offs | (1 << 30)
 			}
-			offs &= 0xffff
 			(*offsets)[2:][1+i] = offs
 		}
 	}
-- 
2.43.0


From 3548038a7353b785daf65fcf8eb7a81d315e5ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:22 +0000
Subject: [PATCH 26/55] fix: prefer the page at its own position over copies of
 it

Outdated copies in the doublewrite buffer hid the current version of pages
that come later in the file.
---
 recovery/ibdata/parse.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/recovery/ibdata/parse.go b/recovery/ibdata/parse.go
index 93e74f4..764c27c 100644
--- a/recovery/ibdata/parse.go
+++ b/recovery/ibdata/parse.go
@@ -218,9 +218,10 @@ func (parse *Parse) parseFile(path string) ([]Page, error) {
 	}
 	defer file.Close()
 
-	pageMap := make(map[uint64]string)
+	// The place of each page number in pages.
+	pageMap := make(map[uint64]int)
 
-	for {
+	for position := uint64(0); ; position++ {
 		// Read a page from data file.
 		data, err := utils.ReadNextBytes(file, DefaultPageSize)
 		if len(data) < DefaultPageSize {
@@ -244,11 +245,13 @@ func (parse *Parse) parseFile(path string) ([]Page, error) {
 		// Store the page.
 		page.OriginalData = data
 
-		// TODO: why have the same pages?
-		// Store the page into the pageMap.
-		if _, ok := pageMap[page.fh.FIL_PAGE_OFFSET]; !ok {
+		// The doublewrite buffer has copies of pages, which can be outdated: use
+		// the page that is at its own position in the file.
+		if i, ok := pageMap[page.fh.FIL_PAGE_OFFSET]; !ok {
+			pageMap[page.fh.FIL_PAGE_OFFSET] = len(pages)
 			pages = append(pages, page)
-			pageMap[page.fh.FIL_PAGE_OFFSET] = "have"
+		} else if page.fh.FIL_PAGE_OFFSET == position {
+			pages[i] = page
 		}
 	}
 	return pages, err
-- 
2.43.0


From 1bba6f8c4bc5fa16aa7dbdea3b846b9d79a2f250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:23 +0000
Subject: [PATCH 27/55] fix: do not pad the end of a file with zeros

ReadNextBytes returned a full buffer for a partial block, so the bytes missing
from a truncated redo log were taken for zeros of the record that is cut.
---
 recovery/utils/utils.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/recovery/utils/utils.go b/recovery/utils/utils.go
index dcc0c25..b150954 100644
--- a/recovery/utils/utils.go
+++ b/recovery/utils/utils.go
@@ -19,6 +19,7 @@ import (
 	"encoding/binary"
 	"encoding/hex"
 	"fmt"
+	"io"
 	"io/ioutil"
 	"math"
 	"os"
@@ -209,12 +210,13 @@ func RecGetNthFieldOffs(offsets []uint64, n int, len *uint64) uint64 {
 func ReadNextBytes(file *os.File, number int) ([]byte, error) {
 	bytes := make([]byte, number)
 
-	_, err := file.Read(bytes)
-	if err != nil {
+	n, err := io.ReadFull(file, bytes)
+	if err != nil && err != io.ErrUnexpectedEOF {
 		return nil, err
 	}
 
-	return bytes, nil
+	// At the end of the file there can be fewer bytes.
+	return bytes[:n], nil
 }
 
 // MatchReadFrom1 ...
-- 
2.43.0


From d8b326122228b01b429776dba224ea165e222d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:50 +0000
Subject: [PATCH 28/55] fix: find dictionary leaf pages anywhere in the file

A leaf page before the root page of its index was skipped, and with it the
definitions of tables.  Pages of other types are not dictionary pages, whatever
they have at the place of the index id.
---
 recovery/ibdata/parse.go | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/recovery/ibdata/parse.go b/recovery/ibdata/parse.go
index 764c27c..98cc328 100644
--- a/recovery/ibdata/parse.go
+++ b/recovery/ibdata/parse.go
@@ -70,6 +70,18 @@ func (parse *Parse) ParseDictPage(path string) (err error) {
 		}
 	}
 
+	// A leaf page can lie anywhere in the file, it is recognised by the index id
+	// of its root page: take the root pages first.
+	isRoot := func(page Page) bool {
+		return page.fh.FIL_PAGE_OFFSET == systemPage.sp.DICT_HDR_TABLES ||
+			page.fh.FIL_PAGE_OFFSET == systemPage.sp.DICT_HDR_COLUMNS ||
+			page.fh.FIL_PAGE_OFFSET == systemPage.sp.DICT_HDR_INDEXES ||
+			page.fh.FIL_PAGE_OFFSET == systemPage.sp.DICT_HDR_FIELDS
+	}
+	sort.SliceStable(pages, func(i, j int) bool {
+		return isRoot(pages[i]) && !isRoot(pages[j])
+	})
+
 	// Get all dict pages, and use map to store all dict page's data.
 	for _, page := range pages {
 
@@ -78,10 +90,7 @@ func (parse *Parse) ParseDictPage(path string) (err error) {
 		//	P.ParseUndoPageHeader(&parse)
 		//}
 
-		if page.fh.FIL_PAGE_OFFSET == systemPage.sp.DICT_HDR_TABLES ||
-			page.fh.FIL_PAGE_OFFSET == systemPage.sp.DICT_HDR_COLUMNS ||
-			page.fh.FIL_PAGE_OFFSET == systemPage.sp.DICT_HDR_INDEXES ||
-			page.fh.FIL_PAGE_OFFSET == systemPage.sp.DICT_HDR_FIELDS {
+		if isRoot(page) {
 
 			var ds []DataDict
 			parse.parsePageHeader(&page)
@@ -96,7 +105,7 @@ func (parse *Parse) ParseDictPage(path string) (err error) {
 			logs.Debug("page offset is ", page.fh.FIL_PAGE_OFFSET,
 				"indexId is", page.ph.PAGE_INDEX_ID, " data len is ", len(ds))
 
-		} else {
+		} else if page.fh.FIL_PAGE_TYPE == FilPageIndex {
 			f := func(k, v interface{}) bool {
 				if k == page.ph.PAGE_INDEX_ID {
 					ds := v.([]DataDict)
-- 
2.43.0


From c65e79ba5673aa091e3f3b8d5cb37596cbea2474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:50 +0000
Subject: [PATCH 29/55] fix: do not mix the dictionaries of two files

Tables of a system tablespace read earlier stayed known.
---
 recovery/ibdata/parse.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/recovery/ibdata/parse.go b/recovery/ibdata/parse.go
index 98cc328..303f348 100644
--- a/recovery/ibdata/parse.go
+++ b/recovery/ibdata/parse.go
@@ -82,6 +82,10 @@ func (parse *Parse) ParseDictPage(path string) (err error) {
 		return isRoot(pages[i]) && !isRoot(pages[j])
 	})
 
+	// The tables of this file replace those of a file read before.
+	parse.TableMap = make(map[uint64]Tables)
+	parse.D = new(sync.Map)
+
 	// Get all dict pages, and use map to store all dict page's data.
 	for _, page := range pages {
 
-- 
2.43.0


From 551b4e965026246040fa6c664b3db93615fafcab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:41 +0000
Subject: [PATCH 30/55] fix: keep to the bounds of undo records

A value that did not fit the log was printed as NULL, a value that did not fit
its record was read from the next one, and some errors left the position inside
the record.
---
 recovery/redo/mlog.go   | 11 +++++++----
 recovery/utils/const.go |  3 +++
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/recovery/redo/mlog.go b/recovery/redo/mlog.go
index c2587bb..ee9cfa8 100644
--- a/recovery/redo/mlog.go
+++ b/recovery/redo/mlog.go
@@ -77,14 +77,17 @@ func (parse *Parse) mlogUndoInsert(data []byte, pos *uint64) error {
 	*pos += 2
 	startPos := *pos
 
-	// catch panic
+	// The next record starts after this one, however far this one was parsed.
 	defer func() {
 		if err := recover(); err != nil {
 			logs.Error("skip error, the error is ", err)
-			*pos = startPos + dataLen
 		}
+		*pos = startPos + dataLen
 	}()
 
+	// The record ends here, and the log may end before.
+	data = data[:startPos+dataLen]
+
 	typeCmpl := int64(utils.MatchReadFrom1(data[*pos:]))
 	*pos++
 
@@ -195,11 +198,11 @@ func (parse *Parse) mlogUndoInsert(data []byte, pos *uint64) error {
 			*pos += num
 
 			var value interface{}
-			if *pos+fLen > uint64(len(data)) {
+			if fLen == utils.UNIV_SQL_NULL {
 				value = nil
 				fLen = 0
 			} else {
-				value, err = utils.ParseData(c.FieldType, c.MySQLType, data[*pos:], fLen,
+				value, err = utils.ParseData(c.FieldType, c.MySQLType, data[*pos:*pos+fLen], fLen,
 					int(utils.GetFixedLength(c.FieldType, c.FieldLen)), c.IsUnsigned, &c.IsBinary)
 				if err != nil {
 					return err
diff --git a/recovery/utils/const.go b/recovery/utils/const.go
index 0ac0a2b..780052f 100644
--- a/recovery/utils/const.go
+++ b/recovery/utils/const.go
@@ -67,6 +67,9 @@ const (
 	DATA_MTYPE_MAX
 )
 
+// UNIV_SQL_NULL is the length of a field that is NULL.
+const UNIV_SQL_NULL uint64 = 0xFFFFFFFF
+
 // The MySQL Server type
 const (
 	MYSQL_TYPE_DECIMAL uint64 = iota
-- 
2.43.0


From 21f3d84f971c56a8e1de1e7e2aed66d9a0620a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:41 +0000
Subject: [PATCH 31/55] fix: read MLOG_DUMMY_RECORD as the single byte it is

---
 recovery/redo/parse.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/recovery/redo/parse.go b/recovery/redo/parse.go
index d8bedfb..2a14f9d 100644
--- a/recovery/redo/parse.go
+++ b/recovery/redo/parse.go
@@ -257,8 +257,8 @@ func (parse *Parse) parseRedoBlockData(data []byte) error {
 		pos++
 		startPos := pos
 
-		if logType == MLOG_MULTI_REC_END {
-			// don't parse MLOG_MULTI_REC_END type redo log.
+		if logType == MLOG_MULTI_REC_END || logType == MLOG_DUMMY_RECORD {
+			// These redo logs are the type byte only.
 			continue
 		}
 
-- 
2.43.0


From 9704a47bd9ef20a751e516572341e1c0a82fd1fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:42 +0000
Subject: [PATCH 32/55] fix: read the value and offset of
 MLOG_COMP_REC_SEC_DELETE_MARK

---
 recovery/redo/mlog.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/recovery/redo/mlog.go b/recovery/redo/mlog.go
index ee9cfa8..3168c92 100644
--- a/recovery/redo/mlog.go
+++ b/recovery/redo/mlog.go
@@ -470,6 +470,7 @@ func (parse *Parse) mlogCompRecSecDeleteMark(data []byte, pos *uint64) error {
 	position, err := utils.ParseIndex(true, data, *pos)
 	if err == nil {
 		*pos = position
+		parse.mlogRecSecDeleteMark(data, pos)
 	}
 	return err
 }
-- 
2.43.0


From 3fd29ab28da57eaed319c598b56bac0befae4baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:42 +0000
Subject: [PATCH 33/55] fix: take no bytes for NULLs in update-in-place records

The NULL length was skipped like any other, which ended the log 4 GB later.
---
 recovery/redo/mlog.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/recovery/redo/mlog.go b/recovery/redo/mlog.go
index 3168c92..953e87f 100644
--- a/recovery/redo/mlog.go
+++ b/recovery/redo/mlog.go
@@ -545,7 +545,9 @@ func (parse *Parse) mlogRecUpdateInPlace(data []byte, pos *uint64, MyType uint64
 					logs.Debug("fieldNo is ", fieldNo, " fieldLen is ", fieldLen)
 				}
 				*pos += num
-				*pos += fieldLen
+				if fieldLen != utils.UNIV_SQL_NULL {
+					*pos += fieldLen
+				}
 			}
 		}
 	}
-- 
2.43.0


From 8efbf95de7e10b03f2d06675a35bdfef43f376cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:43 +0000
Subject: [PATCH 34/55] fix: skip the new name of file rename records

---
 recovery/redo/mlog.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/recovery/redo/mlog.go b/recovery/redo/mlog.go
index 953e87f..c7b493b 100644
--- a/recovery/redo/mlog.go
+++ b/recovery/redo/mlog.go
@@ -389,6 +389,12 @@ func (parse *Parse) mlogFileOp(data []byte, pos *uint64, myType uint64) {
 	*pos += 2
 	*pos += nameLen
 
+	if myType == MLOG_FILE_RENAME || myType == MLOG_FILE_RENAME2 {
+		newNameLen := utils.MatchReadFrom2(data[*pos:])
+		*pos += 2
+		*pos += newNameLen
+	}
+
 }
 
 // MLOG_REC_MARK ...
-- 
2.43.0


From 1f115dcaed3124dcebeb44c50a9adbfb7e0dbe8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:43 +0000
Subject: [PATCH 35/55] fix: advance by the bytes a 64-bit value takes in the
 log

The size was derived from the value, which is wrong for the short forms of
MySQL 5.7.
---
 recovery/redo/mlog.go | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/recovery/redo/mlog.go b/recovery/redo/mlog.go
index c7b493b..fbbcb77 100644
--- a/recovery/redo/mlog.go
+++ b/recovery/redo/mlog.go
@@ -33,16 +33,11 @@ func (parse *Parse) mlogNBytes(data []byte, pos *uint64, myType uint64) error {
 	*pos += 2
 
 	if myType == MLOG_8BYTES {
-		value, _, err := utils.MatchParseCompressed(data, *pos)
-		if err != nil {
-			return err
-		}
-
-		size, err := utils.MatchGetCompressedSize(value)
+		_, num, err := utils.MatchParseCompressed(data, *pos)
 		if err != nil {
 			return err
 		}
-		*pos += size
+		*pos += num
 		*pos += 4
 	} else {
 		_, num, err := utils.MatchParseCompressed(data, *pos)
@@ -346,17 +341,13 @@ func (parse *Parse) mlogUndoHdrReuse(data []byte, pos *uint64) {
 func (parse *Parse) mlogUndoHdrCreate(data []byte, pos *uint64) error {
 	logs.Debug("start parse MLOG_UNDO_HDR_CREATE log record")
 
-	value, _, err := utils.MatchParseCompressed(data, *pos)
+	_, num, err := utils.MatchParseCompressed(data, *pos)
 	if err != nil {
 		logs.Error("parse MLOG_UNDO_HDR_CREATE failed, the error is ", err.Error())
-	}
-
-	size, err := utils.MatchGetCompressedSize(value)
-	if err != nil {
 		return err
 	}
 
-	*pos += size
+	*pos += num
 	*pos += 4
 
 	return nil
-- 
2.43.0


From 29879850bf6b5474cd321a91c4a773a71752c4da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:44 +0000
Subject: [PATCH 36/55] fix: do not print tables of other databases

With a database and a table name given, updates of tables of that name in every
database were printed.
---
 recovery/redo/mlog.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recovery/redo/mlog.go b/recovery/redo/mlog.go
index fbbcb77..bd6a260 100644
--- a/recovery/redo/mlog.go
+++ b/recovery/redo/mlog.go
@@ -223,7 +223,7 @@ func (parse *Parse) mlogUndoInsert(data []byte, pos *uint64) error {
 			}
 		} else if parse.DBName == "" && parse.TableName == "" {
 			parse.makeSQL(Table, primaryFields, columns)
-		} else if parse.TableName != "" && parse.TableName == Table.TableName {
+		} else if parse.DBName == "" && parse.TableName == Table.TableName {
 			parse.makeSQL(Table, primaryFields, columns)
 		}
 	}
-- 
2.43.0


From 89a47bcc908047cb6237776a92b4017cc5717f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:44 +0000
Subject: [PATCH 37/55] fix: survive damaged and truncated redo log blocks

A header without a NUL byte and block lengths outside 12 to 512 panicked.
---
 recovery/redo/parse.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/recovery/redo/parse.go b/recovery/redo/parse.go
index 2a14f9d..07c00fa 100644
--- a/recovery/redo/parse.go
+++ b/recovery/redo/parse.go
@@ -90,7 +90,7 @@ func (parse *Parse) ParseRedoLogs(logFileList []string) error {
 		for {
 			// when parsing the redo log file, record the read position.
 			block, err := utils.ReadNextBytes(file, OS_FILE_LOG_BLOCK_SIZE)
-			if err != nil {
+			if err != nil || len(block) < LOG_BLOCK_HDR_SIZE {
 				break
 			}
 
@@ -100,12 +100,21 @@ func (parse *Parse) ParseRedoLogs(logFileList []string) error {
 			if err != nil || blockHeader.BlockDataLen == 0 {
 				break
 			}
+			if blockHeader.BlockDataLen < LOG_BLOCK_HDR_SIZE || blockHeader.BlockDataLen > OS_FILE_LOG_BLOCK_SIZE {
+				logs.Error("the log block is damaged, data length is ", blockHeader.BlockDataLen)
+				break
+			}
 
 			// LOG_BLOCK_TRL_SIZE, for checksum.
 			if blockHeader.BlockDataLen >= OS_FILE_LOG_BLOCK_SIZE {
 				blockHeader.BlockDataLen -= LOG_BLOCK_TRL_SIZE
 			}
 
+			// The log may end within the block.
+			if int(blockHeader.BlockDataLen) > len(block) {
+				blockHeader.BlockDataLen = uint16(len(block))
+			}
+
 			// Add all redo block data.
 			data = append(data, block[LOG_BLOCK_HDR_SIZE:blockHeader.BlockDataLen]...)
 		}
@@ -155,6 +164,9 @@ func (parse *Parse) readRedoLogFileHeader(file *os.File) error {
 	if err != nil {
 		return err
 	}
+	if len(data) < OS_FILE_LOG_BLOCK_SIZE {
+		return fmt.Errorf("redo log file header is too short")
+	}
 
 	logHeaderFormat := utils.MatchReadFrom4(data[pos:])
 	pos += 4
@@ -165,7 +177,7 @@ func (parse *Parse) readRedoLogFileHeader(file *os.File) error {
 	logHeaderStartLsn := utils.MatchReadFrom8(data[pos:])
 	pos += 8
 
-	creator := data[pos : bytes.IndexByte(data[pos:], 0x00)+pos]
+	creator := bytes.TrimRight(data[pos:pos+32], "\x00")
 	pos += 32 // 32 bytes, NULL terminated string, filled with NULL bytes
 
 	checksum := data[OS_FILE_LOG_BLOCK_SIZE-LOG_BLOCK_TRL_SIZE:]
-- 
2.43.0


From 0f19ec083da1b27e92aec8369aa88954375f4260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:45 +0000
Subject: [PATCH 38/55] fix: stop where a truncated redo log ends

A log that ends within a record panicked after the statements before it.
---
 recovery/redo/parse.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/recovery/redo/parse.go b/recovery/redo/parse.go
index 07c00fa..d5f0738 100644
--- a/recovery/redo/parse.go
+++ b/recovery/redo/parse.go
@@ -256,6 +256,14 @@ func (parse *Parse) readRedoBlockHeader(data []byte) (BlockHeader, error) {
 // But due to the design of redo, we must parse out each type in order.
 func (parse *Parse) parseRedoBlockData(data []byte) error {
 	var pos uint64
+
+	// The log can end within a record.
+	defer func() {
+		if err := recover(); err != nil {
+			logs.Warn("the log ends within a record at ", pos, ", the error is ", err)
+		}
+	}()
+
 	for {
 		if (int64(len(data)) - int64(pos)) < 5 {
 			break
-- 
2.43.0


From a87648818a14032c7a499316a844786976e5c145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:45 +0000
Subject: [PATCH 39/55] fix: accept options before the sub command

The logging library parsed the command line a second time and exited with a
usage message when an option came first.
---
 cmd/db-recovery/command.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cmd/db-recovery/command.go b/cmd/db-recovery/command.go
index 4a038d0..fc7d5e3 100644
--- a/cmd/db-recovery/command.go
+++ b/cmd/db-recovery/command.go
@@ -95,8 +95,8 @@ func NewFromDataFileCommand() *cobra.Command {
 
 func FromDataFile(cmd *cobra.Command, args []string) {
 
-	// init logger
-	flag.Parse()
+	// init logger, the options of the command line are not its own.
+	_ = flag.CommandLine.Parse(nil)
 	err := logs.InitLogs(LogPath, LogLevel)
 	if err != nil {
 		fmt.Println(err.Error())
@@ -148,8 +148,8 @@ func NewFromRedoFileCommand() *cobra.Command {
 
 func FromRedoFile(cmd *cobra.Command, args []string) {
 
-	// init logger
-	flag.Parse()
+	// init logger, the options of the command line are not its own.
+	_ = flag.CommandLine.Parse(nil)
 	err := logs.InitLogs(LogPath, LogLevel)
 	if err != nil {
 		fmt.Println(err.Error())
-- 
2.43.0


From 35157e09854703a86c059f19e6422793acfca3a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:33 +0000
Subject: [PATCH 40/55] fix: read nothing behind the end of the redo log or of
 an undo record

---
 recovery/redo/mlog.go  | 2 +-
 recovery/redo/parse.go | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/recovery/redo/mlog.go b/recovery/redo/mlog.go
index bd6a260..3762ed5 100644
--- a/recovery/redo/mlog.go
+++ b/recovery/redo/mlog.go
@@ -81,7 +81,7 @@ func (parse *Parse) mlogUndoInsert(data []byte, pos *uint64) error {
 	}()
 
 	// The record ends here, and the log may end before.
-	data = data[:startPos+dataLen]
+	data = data[: startPos+dataLen : startPos+dataLen]
 
 	typeCmpl := int64(utils.MatchReadFrom1(data[*pos:]))
 	*pos++
diff --git a/recovery/redo/parse.go b/recovery/redo/parse.go
index d5f0738..5f94080 100644
--- a/recovery/redo/parse.go
+++ b/recovery/redo/parse.go
@@ -257,6 +257,9 @@ func (parse *Parse) readRedoBlockHeader(data []byte) (BlockHeader, error) {
 func (parse *Parse) parseRedoBlockData(data []byte) error {
 	var pos uint64
 
+	// There is nothing behind the end, not even spare capacity.
+	data = data[:len(data):len(data)]
+
 	// The log can end within a record.
 	defer func() {
 		if err := recover(); err != nil {
-- 
2.43.0


From 795662f1e280ca593cda9ca49b9d53e341a5f1ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:25 +0000
Subject: [PATCH 41/55] fix: report a data file that cannot be read

---
 recovery/ibdata/parse.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/recovery/ibdata/parse.go b/recovery/ibdata/parse.go
index 303f348..8056732 100644
--- a/recovery/ibdata/parse.go
+++ b/recovery/ibdata/parse.go
@@ -17,6 +17,7 @@ package ibdata
 import (
 	"errors"
 	"fmt"
+	"io"
 	"os"
 	"sort"
 	"strings"
@@ -237,16 +238,16 @@ func (parse *Parse) parseFile(path string) ([]Page, error) {
 	for position := uint64(0); ; position++ {
 		// Read a page from data file.
 		data, err := utils.ReadNextBytes(file, DefaultPageSize)
+		if err != nil && err != io.EOF {
+			logs.Error("read data from file failed, error: ", err.Error())
+			return pages, err
+		}
 		if len(data) < DefaultPageSize {
 			if len(data) != 0 {
 				logs.Warn("next data bytes no more than 1 page, please check DefaultPageSize!")
 			}
 			break
 		}
-		if err != nil {
-			logs.Error("read data from file failed, error: ", err.Error())
-			return pages, err
-		}
 
 		// Parse the page file header.
 		page, err := parse.parseFilHeader(data)
-- 
2.43.0


From 2e65b9411cc1a6a3ba771232fb772323cf882ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:24 +0000
Subject: [PATCH 42/55] fix: print the fractional seconds of temporal values

---
 recovery/utils/utils.go | 123 ++++++++++------------------------------
 1 file changed, 30 insertions(+), 93 deletions(-)

diff --git a/recovery/utils/utils.go b/recovery/utils/utils.go
index b150954..a14896a 100644
--- a/recovery/utils/utils.go
+++ b/recovery/utils/utils.go
@@ -591,10 +591,10 @@ func ParseData(DataType uint64, MySQLType uint64,
 		switch MySQLType {
 		// TODO: deal with version 2.
 		case MYSQL_TYPE_TIME:
-			FormatTime := ParseTime(data)
+			FormatTime := ParseTime(data[:FieldLen])
 			return FormatTime, nil
 		case MYSQL_TYPE_TIMESTAMP:
-			FormatTimeStamp := ParseTimeStamp(data)
+			FormatTimeStamp := ParseTimeStamp(data[:FieldLen])
 			return FormatTimeStamp, nil
 		case MYSQL_TYPE_DATETIME:
 			FormatDateTime := ParseDateTime(data[:FieldLen])
@@ -746,96 +746,30 @@ func GetMaxLength(MySQLType uint64) {
 	}
 }
 
-// GetTimeFormat ...
-func GetTimeFormat(data []byte) int {
-	d := MatchReadFrom8(data)
-	var year, month, day, hour, min, sec int
-
-	r := d &^ (1 << 63)
-	sec = int(r % 100)
-	r /= 100
-	min = int(r % 100)
-	r /= 100
-	hour = int(r % 100)
-	r /= 100
-	day = int(r % 100)
-	r /= 100
-	month = int(r % 100)
-	r /= 100
-	year = int(d % 10000)
-	if year > 1990 && year < 2100 && month >= 1 && month <= 12 &&
-		day >= 1 && day <= 31 && hour >= 0 && hour <= 23 &&
-		min >= 0 && min <= 59 && sec >= 0 && sec <= 59 {
-		return 1
-	}
-
-	var sign uint64
-	sign = 0
-	sign = d >> 63
-	if sign == 0 {
-		return 0
-	}
-
-	yd := (d & 0x7FFFC00000000000) >> 46
-	year = int(yd / 13)
-	month = int(int(yd) - (year * 13))
-	day = int((d & 0x00003E0000000000) >> 41)
-	hour = int((d & 0x000001F000000000) >> 36)
-	min = int((d & 0x0000000FC0000000) >> 30)
-	sec = int((d & 0x000000003F000000) >> 24)
-	if year > 1990 && year < 2100 && month >= 1 &&
-		month <= 12 && day >= 1 && day <= 31 &&
-		hour >= 0 && hour <= 23 && min >= 0 &&
-		min <= 59 && sec >= 0 && sec <= 59 {
-		return 2
+// formatFraction makes the decimal places of a temporal value, each of the
+// bytes behind the whole seconds holds two of them.
+func formatFraction(fraction uint64, size int) string {
+	if size <= 0 {
+		return ""
 	}
-	return 0
+	return fmt.Sprintf(".%0*d", 2*size, fraction)
 }
 
-// ParseDateTime ...
+// ParseDateTime parse the 5 bytes and the fractional seconds that MySQL 5.6.4
+// and later store.
 func ParseDateTime(data []byte) string {
-	// MySQL 5.6.4 and later store 5 bytes plus the fractional seconds,
-	// earlier versions 8 bytes.
-	format := 2
-	if len(data) >= 8 {
-		format = GetTimeFormat(data)
-	}
-	if format == 1 || format == 0 {
-		ldate := MatchReadFrom8(data)
-		ldate = ldate &^ (1 << 63)
-		sec := ldate % 100
-		ldate /= 100
-		min := ldate % 100
-		ldate /= 100
-		hour := ldate % 100
-		ldate /= 100
-		day := ldate % 100
-		ldate /= 100
-		month := ldate % 100
-		ldate /= 100
-		year := ldate % 10000
-
-		FormatTime := fmt.Sprintf("%02d-%02d-%02d %02d:%02d:%02d", year, month, day, hour, min, sec)
-
-		return FormatTime
+	ldate := UtUllCreate(MatchReadFrom1(data), MatchReadFrom4(data[1:])) << 24
+	yd := (ldate & 0x7FFFC00000000000) >> 46
+	year := yd / 13
+	month := yd - year*13
+	day := (ldate & 0x00003E0000000000) >> 41
+	hour := (ldate & 0x000001F000000000) >> 36
+	min := (ldate & 0x0000000FC0000000) >> 30
+	sec := (ldate & 0x000000003F000000) >> 24
 
-	} else if format == 2 {
-		ldate := UtUllCreate(MatchReadFrom1(data), MatchReadFrom4(data[1:])) << 24
-		yd := (ldate & 0x7FFFC00000000000) >> 46
-		year := yd / 13
-		month := yd - year*13
-		day := (ldate & 0x00003E0000000000) >> 41
-		hour := (ldate & 0x000001F000000000) >> 36
-		min := (ldate & 0x0000000FC0000000) >> 30
-		sec := (ldate & 0x000000003F000000) >> 24
-
-		FormatTime := fmt.Sprintf("%02d-%02d-%02d %02d:%02d:%02d", year, month, day, hour, min, sec)
-
-		return FormatTime
-	}
-
-	return ""
+	FormatTime := fmt.Sprintf("%02d-%02d-%02d %02d:%02d:%02d", year, month, day, hour, min, sec)
 
+	return FormatTime + formatFraction(GetUintValue(len(data)-5, data[5:]), len(data)-5)
 }
 
 // ParseDate ...
@@ -856,16 +790,19 @@ func ParseDate(data []byte) string {
 // ParseTime ...
 func ParseTime(data []byte) string {
 
-	// TODO: add time_precision and fixed_length.
 	var hour, min, sec uint
 	var IsNegative bool
 
-	ltime := int64(MatchReadFrom3(data))
-	ltime = ltime - 0x800000
+	// The fractional seconds are a part of the number.
+	fractionLen := len(data) - 3
+	ltime := int64(GetUintValue(len(data), data))
+	ltime = ltime - 0x800000<<(8*uint(fractionLen))
 	if ltime < 0 {
 		IsNegative = true
 		ltime = -ltime
 	}
+	fraction := ltime & (1<<(8*uint(fractionLen)) - 1)
+	ltime >>= 8 * uint(fractionLen)
 
 	// TODO: add param or remove this code.
 	switch MySQLVersion {
@@ -874,7 +811,7 @@ func ParseTime(data []byte) string {
 		min = uint((ltime & 0xFC0) >> 6)
 		sec = uint(ltime & 0x3F)
 
-		FormatTime := fmt.Sprintf("%02d:%02d:%02d", hour, min, sec)
+		FormatTime := fmt.Sprintf("%02d:%02d:%02d", hour, min, sec) + formatFraction(uint64(fraction), fractionLen)
 		if IsNegative {
 			FormatTime = "-" + FormatTime
 		}
@@ -893,13 +830,13 @@ func ParseTime(data []byte) string {
 
 // ParseTimeStamp ...
 func ParseTimeStamp(data []byte) string {
-	// TODO: add time_precision
 	t := MatchReadFrom4(data)
+	fraction := formatFraction(GetUintValue(len(data)-4, data[4:]), len(data)-4)
 	if t == 0 {
-		return "0000-00-00 00:00:00"
+		return "0000-00-00 00:00:00" + fraction
 	}
 	tm := time.Unix(int64(t), 0).Format("2006-01-02 15:04:05")
-	return tm
+	return tm + fraction
 }
 
 // ParseFloat ...
-- 
2.43.0


From 1e51cbbe1ca6ffac1ebcb2846302023cdf4f2a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:55 +0000
Subject: [PATCH 43/55] fix: print the temporal values of tables made before
 MySQL 5.6.4

---
 recovery/utils/utils.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/recovery/utils/utils.go b/recovery/utils/utils.go
index a14896a..c294b8f 100644
--- a/recovery/utils/utils.go
+++ b/recovery/utils/utils.go
@@ -631,6 +631,12 @@ func ParseData(DataType uint64, MySQLType uint64,
 				return "0000", nil
 			}
 			return FormatYear, nil
+		case MYSQL_TYPE_TIMESTAMP:
+			// MySQL before 5.6.4 stores timestamps as numbers
+			return ParseTimeStamp(data[:FieldLen]), nil
+		case MYSQL_TYPE_DATETIME:
+			// and the decimal digits of YYYYMMDDhhmmss.
+			return ParseOldDateTime(data[:FieldLen]), nil
 		default:
 			if IsUnsigned {
 				return GetUintValue(FixLength, data[:FieldLen]), nil
@@ -772,6 +778,13 @@ func ParseDateTime(data []byte) string {
 	return FormatTime + formatFraction(GetUintValue(len(data)-5, data[5:]), len(data)-5)
 }
 
+// ParseOldDateTime parse the 8 bytes that MySQL before 5.6.4 stores.
+func ParseOldDateTime(data []byte) string {
+	ldate := MatchReadFrom8(data) &^ (1 << 63)
+	return fmt.Sprintf("%04d-%02d-%02d %02d:%02d:%02d", ldate/10000000000, ldate/100000000%100,
+		ldate/1000000%100, ldate/10000%100, ldate/100%100, ldate%100)
+}
+
 // ParseDate ...
 func ParseDate(data []byte) string {
 
-- 
2.43.0


From ba95ce0872e3f0bead72cd3a77a58f4509be0688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:39 +0000
Subject: [PATCH 44/55] fix: read CHAR columns of single byte character sets

---
 recovery/ibdata/parse.go | 32 +++++++++++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/recovery/ibdata/parse.go b/recovery/ibdata/parse.go
index 8056732..dcc54ee 100644
--- a/recovery/ibdata/parse.go
+++ b/recovery/ibdata/parse.go
@@ -482,6 +482,13 @@ func (parse *Parse) getAllColumns() error {
 				}
 			}
 
+			// A CHAR of a character set with characters of one size is stored
+			// with its full length.
+			fieldType := c[5].FieldValue.(uint64)
+			if fieldType == utils.DATA_MYSQL && !isVarWidthCollation(c[6].FieldValue.(uint64)>>16) {
+				fieldType = utils.DATA_CHAR
+			}
+
 			var TempFieldLen uint64 = 0
 			if c[5].FieldValue.(uint64) != utils.DATA_BINARY {
 				TempFieldLen = c[7].FieldValue.(uint64)
@@ -490,7 +497,7 @@ func (parse *Parse) getAllColumns() error {
 			t.Columns = append(t.Columns,
 				Columns{
 					FieldName: c[4].FieldValue.(string),
-					FieldType: c[5].FieldValue.(uint64),
+					FieldType: fieldType,
 					MySQLType: MySQLType,
 					FieldPos:  c[1].FieldValue.(uint64),
 					FieldLen:  TempFieldLen,
@@ -505,6 +512,29 @@ func (parse *Parse) getAllColumns() error {
 	return nil
 }
 
+// isVarWidthCollation tells whether the characters of the collation differ in
+// the number of bytes.
+func isVarWidthCollation(id uint64) bool {
+	switch id {
+	case 1, 84, // big5
+		12, 91, // ujis
+		13, 88, // sjis
+		19, 85, // euckr
+		24, 86, // gb2312
+		28, 87, // gbk
+		33, 76, 83, // utf8
+		45, 46, // utf8mb4
+		54, 55, // utf16
+		56, 62, // utf16le
+		95, 96, // cp932
+		97, 98, // eucjpms
+		248, 249, 250: // gb18030
+		return true
+	}
+	return id >= 101 && id <= 124 || // utf16
+		id >= 192 && id <= 247 // utf8, utf8mb4
+}
+
 // Get all index info from sys index dict table.
 func (parse *Parse) getAllIndexes() error {
 	logs.Debug("start parse sys_index.")
-- 
2.43.0


From b48cbc684a1861eb43a1d738c2db00b7452b06e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:27 +0000
Subject: [PATCH 45/55] fix: decode the names of databases and tables in the
 dictionary

---
 recovery/ibdata/parse.go | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/recovery/ibdata/parse.go b/recovery/ibdata/parse.go
index dcc54ee..2f8f9e4 100644
--- a/recovery/ibdata/parse.go
+++ b/recovery/ibdata/parse.go
@@ -20,6 +20,7 @@ import (
 	"io"
 	"os"
 	"sort"
+	"strconv"
 	"strings"
 	"sync"
 
@@ -671,8 +672,8 @@ func (parse *Parse) getAllTables() error {
 			var databaseName string
 			if strings.Contains(columns[0].FieldValue.(string), "/") {
 				n := strings.Split(columns[0].FieldValue.(string), "/")
-				databaseName = n[0]
-				tableName = n[1]
+				databaseName = decodeFileName(n[0])
+				tableName = decodeFileName(n[1])
 			} else {
 				tableName = columns[0].FieldValue.(string)
 			}
@@ -687,6 +688,23 @@ func (parse *Parse) getAllTables() error {
 	return nil
 }
 
+// decodeFileName gets the name of a database or table from the name of its
+// file: @ and four hexadecimal digits are a character.
+func decodeFileName(name string) string {
+	parts := strings.Split(name, "@")
+	for i := 1; i < len(parts); i++ {
+		part := parts[i]
+		if len(part) >= 4 {
+			if r, err := strconv.ParseUint(part[:4], 16, 16); err == nil {
+				parts[i] = string(rune(r)) + part[4:]
+				continue
+			}
+		}
+		parts[i] = "@" + part
+	}
+	return strings.Join(parts, "")
+}
+
 func (parse *Parse) parseSysPageHeader(page Page) (Page, error) {
 
 	pos := 0
-- 
2.43.0


From 78a905e0cde681c5f1ad042afb1764029143addc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:31 +0000
Subject: [PATCH 46/55] fix: name a renamed table by its current name

---
 recovery/ibdata/parse.go     | 45 ++++++++++++++++++++++--------------
 recovery/ibdata/structure.go |  2 ++
 recovery/utils/utils.go      | 12 ++++++++++
 3 files changed, 42 insertions(+), 17 deletions(-)

diff --git a/recovery/ibdata/parse.go b/recovery/ibdata/parse.go
index 2f8f9e4..30ee9d2 100644
--- a/recovery/ibdata/parse.go
+++ b/recovery/ibdata/parse.go
@@ -660,30 +660,38 @@ func (parse *Parse) getAllTables() error {
 		return err
 	}
 
+	var allPageColumns [][]Columns
 	dts := v.([]DataDict)
 	for _, dt := range dts {
 
 		// parse sys table page.
 		allColumns := parse.parsePage(dt.data, dt.pos, columns, false, 0)
+		allPageColumns = append(allPageColumns, allColumns...)
+	}
 
-		for _, columns := range allColumns {
-			// database and table name, for example: zbdba3/jingbo_test
-			var tableName string
-			var databaseName string
-			if strings.Contains(columns[0].FieldValue.(string), "/") {
-				n := strings.Split(columns[0].FieldValue.(string), "/")
-				databaseName = decodeFileName(n[0])
-				tableName = decodeFileName(n[1])
-			} else {
-				tableName = columns[0].FieldValue.(string)
-			}
-			parse.TableMap[columns[3].FieldValue.(uint64)] =
-				Tables{
-					DBName:    databaseName,
-					TableName: tableName,
-					NullCount: 0,
-					SpaceId:   columns[9].FieldValue.(uint64)}
+	// A renamed table has a deleted row with its old name until it is purged:
+	// the other row comes last and counts.
+	sort.SliceStable(allPageColumns, func(i, j int) bool {
+		return allPageColumns[i][0].IsDeleted && !allPageColumns[j][0].IsDeleted
+	})
+
+	for _, columns := range allPageColumns {
+		// database and table name, for example: zbdba3/jingbo_test
+		var tableName string
+		var databaseName string
+		if strings.Contains(columns[0].FieldValue.(string), "/") {
+			n := strings.Split(columns[0].FieldValue.(string), "/")
+			databaseName = decodeFileName(n[0])
+			tableName = decodeFileName(n[1])
+		} else {
+			tableName = columns[0].FieldValue.(string)
 		}
+		parse.TableMap[columns[3].FieldValue.(uint64)] =
+			Tables{
+				DBName:    databaseName,
+				TableName: tableName,
+				NullCount: 0,
+				SpaceId:   columns[9].FieldValue.(uint64)}
 	}
 	return nil
 }
@@ -981,6 +989,9 @@ func (parse *Parse) parsePage(data []byte, pos int, columns []Columns, isRecover
 			}
 
 			c, _ = parse.parseRecords(data, origin, offsets, columns)
+			if len(c) > 0 {
+				c[0].IsDeleted = utils.RecIsDeleted(data, offset)
+			}
 			totalLen += utils.RecOffsSize(&offsets)
 			allColumns = append(allColumns, c)
 
diff --git a/recovery/ibdata/structure.go b/recovery/ibdata/structure.go
index 0f7dd3b..069a261 100644
--- a/recovery/ibdata/structure.go
+++ b/recovery/ibdata/structure.go
@@ -38,6 +38,8 @@ type Columns struct {
 	IsBinary   bool
 	IsUnsigned bool
 	TableID    uint64
+	// IsDeleted is set in the first column of a row that is marked as deleted.
+	IsDeleted bool
 }
 
 // Indexes store the table index info.
diff --git a/recovery/utils/utils.go b/recovery/utils/utils.go
index c294b8f..9f32106 100644
--- a/recovery/utils/utils.go
+++ b/recovery/utils/utils.go
@@ -170,6 +170,18 @@ func RecGetBitField1(rec []byte, offset uint64, offs uint64, mask uint64, shift
 	return (MatchReadFrom1(rec[(offset-offs):]) & mask) >> shift
 }
 
+// RecIsDeleted tells whether a record is marked as deleted.
+func RecIsDeleted(page []byte, offset uint64) bool {
+	// #define REC_INFO_DELETED_FLAG	0x20UL
+	// #define REC_OLD_INFO_BITS	6
+	// #define REC_NEW_INFO_BITS	5
+	offs := uint64(5)
+	if PageIsCompact(page) == 0 {
+		offs = 6
+	}
+	return RecGetBitField1(page, offset, offs, 0x20, 5) != 0
+}
+
 // RecGetNthField ...
 // #define rec_get_nth_field(rec, offsets, n, len) \
 // ((rec) + rec_get_nth_field_offs(offsets, n, len))
-- 
2.43.0


From f4829abf80e22508f2a271a083d0d182ab9c2440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:19 +0000
Subject: [PATCH 47/55] fix: leave out the hidden FTS_DOC_ID column

---
 recovery/ibdata/const.go     |  4 ++++
 recovery/ibdata/format.go    |  3 ++-
 recovery/ibdata/structure.go |  6 ++++++
 recovery/redo/mlog.go        | 10 +++++++++-
 4 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/recovery/ibdata/const.go b/recovery/ibdata/const.go
index 35552d7..53919d3 100644
--- a/recovery/ibdata/const.go
+++ b/recovery/ibdata/const.go
@@ -38,3 +38,7 @@ const (
 	SysFieldsIdx  uint64 = 4
 	SystemPageIdx uint64 = 7
 )
+
+// DataFTSDocID is the MySQL type of the hidden FTS_DOC_ID column.
+// #define DATA_FTS_DOC_ID	3
+const DataFTSDocID uint64 = 3
diff --git a/recovery/ibdata/format.go b/recovery/ibdata/format.go
index b112667..78dde8f 100644
--- a/recovery/ibdata/format.go
+++ b/recovery/ibdata/format.go
@@ -30,7 +30,8 @@ func (parse *Parse) makeReplaceIntoStatement(AllColumns [][]Columns, table strin
 			// Skip internal field.
 			if column.FieldName == "DB_ROW_ID" ||
 				column.FieldName == "DB_TRX_ID" ||
-				column.FieldName == "DB_ROLL_PTR" {
+				column.FieldName == "DB_ROLL_PTR" ||
+				column.IsHidden() {
 				continue
 			}
 
diff --git a/recovery/ibdata/structure.go b/recovery/ibdata/structure.go
index 069a261..c14487a 100644
--- a/recovery/ibdata/structure.go
+++ b/recovery/ibdata/structure.go
@@ -42,6 +42,12 @@ type Columns struct {
 	IsDeleted bool
 }
 
+// IsHidden tells whether the column is the FTS_DOC_ID column that InnoDB adds
+// to a table with a FULLTEXT index. One that the user declared is a BIGINT.
+func (c Columns) IsHidden() bool {
+	return c.FieldName == "FTS_DOC_ID" && c.MySQLType == DataFTSDocID
+}
+
 // Indexes store the table index info.
 type Indexes struct {
 	Id        uint64
diff --git a/recovery/redo/mlog.go b/recovery/redo/mlog.go
index 3762ed5..e4960b8 100644
--- a/recovery/redo/mlog.go
+++ b/recovery/redo/mlog.go
@@ -206,12 +206,20 @@ func (parse *Parse) mlogUndoInsert(data []byte, pos *uint64) error {
 			}
 
 			c.FieldValue = value
-			columns = append(columns, c)
+			if !c.IsHidden() {
+				columns = append(columns, c)
+			}
 			*pos += fLen
 
 			logs.Debug("values is ", value)
 		}
 
+		// There is nothing to set but hidden columns.
+		if columnNum > 0 && len(columns) == 0 {
+			*pos = startPos + dataLen
+			return nil
+		}
+
 		// Make data to sql statement, only for update statement.
 		// Print sql statement when user identify the table name or the database name,
 		// if user don't identify table and database name, print all sql statement.
-- 
2.43.0


From efb3693b1dc5a485cfbb82e24aa892492c1365cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:36 +0000
Subject: [PATCH 48/55] fix: read tables with column prefixes in the primary
 key

---
 recovery/ibdata/format.go    |  1 +
 recovery/ibdata/parse.go     | 18 +++++++++++++++++-
 recovery/ibdata/structure.go |  7 ++++++-
 3 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/recovery/ibdata/format.go b/recovery/ibdata/format.go
index 78dde8f..65f8ec3 100644
--- a/recovery/ibdata/format.go
+++ b/recovery/ibdata/format.go
@@ -31,6 +31,7 @@ func (parse *Parse) makeReplaceIntoStatement(AllColumns [][]Columns, table strin
 			if column.FieldName == "DB_ROW_ID" ||
 				column.FieldName == "DB_TRX_ID" ||
 				column.FieldName == "DB_ROLL_PTR" ||
+				column.IsPrefix ||
 				column.IsHidden() {
 				continue
 			}
diff --git a/recovery/ibdata/parse.go b/recovery/ibdata/parse.go
index 30ee9d2..2bfc500 100644
--- a/recovery/ibdata/parse.go
+++ b/recovery/ibdata/parse.go
@@ -335,6 +335,13 @@ func (parse *Parse) sortColumns() {
 			sort.SliceStable(fields, func(i, j int) bool {
 				return fields[i].ColumnPos < fields[j].ColumnPos
 			})
+			// In an index with column prefixes the low word is the length of
+			// the prefix, the high word the position.
+			for i, field := range fields {
+				if i == 0 || field.ColumnPos > 0xFFFF {
+					field.PrefixLen = field.ColumnPos & 0xFFFF
+				}
+			}
 		}
 	}
 }
@@ -357,9 +364,18 @@ func (parse *Parse) moveColumns2First(fields []*Fields, columns []Columns) []Col
 	var first, rest []Columns
 	isKey := make(map[string]bool)
 	for _, field := range fields {
-		isKey[field.ColumnName] = true
+		if field.PrefixLen == 0 {
+			isKey[field.ColumnName] = true
+		}
 		for _, column := range columns {
 			if column.FieldName == field.ColumnName {
+				// The whole column is stored in addition to its prefix.
+				if field.PrefixLen != 0 {
+					column.IsPrefix = true
+					if column.FieldLen > field.PrefixLen {
+						column.FieldLen = field.PrefixLen
+					}
+				}
 				first = append(first, column)
 			}
 		}
diff --git a/recovery/ibdata/structure.go b/recovery/ibdata/structure.go
index c14487a..179c209 100644
--- a/recovery/ibdata/structure.go
+++ b/recovery/ibdata/structure.go
@@ -38,6 +38,8 @@ type Columns struct {
 	IsBinary   bool
 	IsUnsigned bool
 	TableID    uint64
+	// IsPrefix is set in a key field that holds a prefix of the column only.
+	IsPrefix bool
 	// IsDeleted is set in the first column of a row that is marked as deleted.
 	IsDeleted bool
 }
@@ -65,7 +67,10 @@ func (idx Indexes) IsClustered() bool {
 
 // Fields store the fields of the table index.
 type Fields struct {
-	ColumnPos  uint64
+	ColumnPos uint64
+	// PrefixLen is the length of the column prefix in the index, 0 if the field
+	// is the whole column.
+	PrefixLen  uint64
 	ColumnName string
 	//ColumnType  uint64
 	ColumnValue interface{}
-- 
2.43.0


From 400889dcd6172f03ea8e3a8a5b867806e2169184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:31 +0000
Subject: [PATCH 49/55] fix: restore the other columns of an update with
 externally stored values

---
 recovery/redo/mlog.go   | 22 +++++++++++++++++++++-
 recovery/utils/const.go |  4 ++++
 2 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/recovery/redo/mlog.go b/recovery/redo/mlog.go
index e4960b8..76ce953 100644
--- a/recovery/redo/mlog.go
+++ b/recovery/redo/mlog.go
@@ -192,6 +192,26 @@ func (parse *Parse) mlogUndoInsert(data []byte, pos *uint64) error {
 			logs.Debug("fLen is ", fLen, " num is ", num, "Field Type is ", c.FieldType)
 			*pos += num
 
+			// Most of the value is stored on other pages, there is a part of it
+			// and a reference here. The column can't be restored.
+			if fLen >= utils.UNIV_EXTERN_STORAGE_FIELD && fLen != utils.UNIV_SQL_NULL {
+				logs.Warn("the value of ", c.FieldName, " is stored externally, skip it")
+				if fLen == utils.UNIV_EXTERN_STORAGE_FIELD {
+					// The length in the row, and the length logged here.
+					for k := 0; k < 2; k++ {
+						fLen, num, err = utils.MatchParseCompressed(data, *pos)
+						if err != nil {
+							return err
+						}
+						*pos += num
+					}
+				} else {
+					fLen -= utils.UNIV_EXTERN_STORAGE_FIELD
+				}
+				*pos += fLen
+				continue
+			}
+
 			var value interface{}
 			if fLen == utils.UNIV_SQL_NULL {
 				value = nil
@@ -214,7 +234,7 @@ func (parse *Parse) mlogUndoInsert(data []byte, pos *uint64) error {
 			logs.Debug("values is ", value)
 		}
 
-		// There is nothing to set but hidden columns.
+		// There is nothing to set but hidden or externally stored columns.
 		if columnNum > 0 && len(columns) == 0 {
 			*pos = startPos + dataLen
 			return nil
diff --git a/recovery/utils/const.go b/recovery/utils/const.go
index 780052f..8044c27 100644
--- a/recovery/utils/const.go
+++ b/recovery/utils/const.go
@@ -70,6 +70,10 @@ const (
 // UNIV_SQL_NULL is the length of a field that is NULL.
 const UNIV_SQL_NULL uint64 = 0xFFFFFFFF
 
+// UNIV_EXTERN_STORAGE_FIELD is added to the length of a field that is stored
+// externally.
+const UNIV_EXTERN_STORAGE_FIELD uint64 = UNIV_SQL_NULL - 16384
+
 // The MySQL Server type
 const (
 	MYSQL_TYPE_DECIMAL uint64 = iota
-- 
2.43.0


From 20a2d41415cc12a5aa811b48c6ca992fc5bbf378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:06 +0000
Subject: [PATCH 50/55] fix: read the dictionary in spite of index rows of
 truncated tables

---
 recovery/ibdata/parse.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/recovery/ibdata/parse.go b/recovery/ibdata/parse.go
index 2bfc500..2e85357 100644
--- a/recovery/ibdata/parse.go
+++ b/recovery/ibdata/parse.go
@@ -598,11 +598,12 @@ func (parse *Parse) getAllIndexes() error {
 			t.Indexes = index
 			parse.TableMap[columns[0].FieldValue.(uint64)] = t
 		} else {
-			err = errors.New("Table ID have not found " + fmt.Sprint(columns[0].FieldValue))
-			logs.Error(err.Error())
+			// The row of a table that was truncated and got a new id stays
+			// until it is purged.
+			logs.Warn("Table ID have not found ", columns[0].FieldValue)
 		}
 	}
-	return err
+	return nil
 }
 
 // Get all fields from sys fields dict table.
-- 
2.43.0


From 67bff012d416d26f2e21ccac7b1250e69516d905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:18 +0000
Subject: [PATCH 51/55] fix: quote backticks in the names of schemas, tables
 and columns

---
 recovery/ibdata/format.go | 2 +-
 recovery/redo/parse.go    | 8 ++++----
 recovery/utils/utils.go   | 5 +++++
 3 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/recovery/ibdata/format.go b/recovery/ibdata/format.go
index 65f8ec3..5053700 100644
--- a/recovery/ibdata/format.go
+++ b/recovery/ibdata/format.go
@@ -16,7 +16,7 @@ func (parse *Parse) makeReplaceIntoStatement(AllColumns [][]Columns, table strin
 
 	for _, columns := range AllColumns {
 
-		buf.WriteString(fmt.Sprintf("replace into `%s`.`%s` values (", database, table))
+		buf.WriteString(fmt.Sprintf("replace into %s.%s values (", utils.QuoteName(database), utils.QuoteName(table)))
 		firstCol := true
 
 		// The columns are in the order of the clustered index, the values of
diff --git a/recovery/redo/parse.go b/recovery/redo/parse.go
index 5f94080..69240b6 100644
--- a/recovery/redo/parse.go
+++ b/recovery/redo/parse.go
@@ -545,7 +545,7 @@ func (parse *Parse) makeSQL(table ibdata.Tables, primaryColumns []*ibdata.Fields
 	// update statement
 	var SetValues string
 	for i, c := range columns {
-		SetValue := fmt.Sprintf("`%s`=%s", c.FieldName,
+		SetValue := fmt.Sprintf("%s=%s", utils.QuoteName(c.FieldName),
 			utils.FormatValue(c.FieldValue, c.MySQLType, c.IsBinary))
 		if i == (len(columns) - 1) {
 			SetValues += SetValue
@@ -557,7 +557,7 @@ func (parse *Parse) makeSQL(table ibdata.Tables, primaryColumns []*ibdata.Fields
 	var whereConditions string
 
 	for j, v := range primaryColumns {
-		whereCondition := fmt.Sprintf("`%s`=%s", v.ColumnName,
+		whereCondition := fmt.Sprintf("%s=%s", utils.QuoteName(v.ColumnName),
 			utils.FormatValue(v.ColumnValue, v.MySQLType, v.IsBinary))
 		if j == (len(primaryColumns) - 1) {
 			whereConditions += whereCondition
@@ -566,8 +566,8 @@ func (parse *Parse) makeSQL(table ibdata.Tables, primaryColumns []*ibdata.Fields
 		}
 	}
 
-	query := fmt.Sprintf("update `%s`.`%s` set %s where %s;", table.DBName,
-		table.TableName, SetValues, whereConditions)
+	query := fmt.Sprintf("update %s.%s set %s where %s;", utils.QuoteName(table.DBName),
+		utils.QuoteName(table.TableName), SetValues, whereConditions)
 
 	logs.Debug("query is ", query)
 	fmt.Println(query)
diff --git a/recovery/utils/utils.go b/recovery/utils/utils.go
index 9f32106..3a1528f 100644
--- a/recovery/utils/utils.go
+++ b/recovery/utils/utils.go
@@ -919,6 +919,11 @@ func EscapeValue(colValue string) string {
 	return colBuffer.String()
 }
 
+// QuoteName quotes the name of a schema, table or column.
+func QuoteName(name string) string {
+	return "`" + strings.Replace(name, "`", "``", -1) + "`"
+}
+
 // FormatValue makes the SQL literal of a parsed value, nil is NULL.
 func FormatValue(value interface{}, MySQLType uint64, IsBinary bool) string {
 	if value == nil {
-- 
2.43.0


From fdc84f1699fc8a2475b5ff26b8b00b08a478434e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:18 +0000
Subject: [PATCH 52/55] fix: report a failed command on standard error and with
 its exit status

---
 cmd/db-recovery/command.go | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/cmd/db-recovery/command.go b/cmd/db-recovery/command.go
index fc7d5e3..09862b4 100644
--- a/cmd/db-recovery/command.go
+++ b/cmd/db-recovery/command.go
@@ -17,6 +17,7 @@ package main
 import (
 	"flag"
 	"fmt"
+	"os"
 	"runtime"
 	"strings"
 
@@ -99,8 +100,7 @@ func FromDataFile(cmd *cobra.Command, args []string) {
 	_ = flag.CommandLine.Parse(nil)
 	err := logs.InitLogs(LogPath, LogLevel)
 	if err != nil {
-		fmt.Println(err.Error())
-		return
+		fail(err)
 	}
 
 	isRecovery := false
@@ -108,8 +108,7 @@ func FromDataFile(cmd *cobra.Command, args []string) {
 	p := ibdata.NewParse()
 	err = p.ParseDictPage(SysDataFile)
 	if err != nil {
-		fmt.Println(err.Error())
-		return
+		fail(err)
 	}
 
 	if OpType == "RecoveryData" {
@@ -118,14 +117,20 @@ func FromDataFile(cmd *cobra.Command, args []string) {
 
 	err = p.ParseDataPage(TableFile, DBName, TableName, isRecovery)
 	if err != nil {
-		fmt.Println(err)
-		return
+		fail(err)
 	}
 
 	// flush logs
 	logs.FlushLogs()
 }
 
+// fail ends the program with the error, standard output is for statements.
+func fail(args ...interface{}) {
+	logs.FlushLogs()
+	fmt.Fprintln(os.Stderr, args...)
+	os.Exit(1)
+}
+
 func NewFromRedoFileCommand() *cobra.Command {
 	jc := &cobra.Command{
 		Use:   "FromRedoFile [option]",
@@ -152,8 +157,7 @@ func FromRedoFile(cmd *cobra.Command, args []string) {
 	_ = flag.CommandLine.Parse(nil)
 	err := logs.InitLogs(LogPath, LogLevel)
 	if err != nil {
-		fmt.Println(err.Error())
-		return
+		fail(err)
 	}
 
 	p := redo.NewParse(TableName, DBName)
@@ -161,13 +165,12 @@ func FromRedoFile(cmd *cobra.Command, args []string) {
 	err = p.ParseDictPage(SysDataFile)
 	if err != nil {
 		logs.Error("parse redo failed, error: ", err.Error())
-		return
+		fail("parse redo failed, error: ", err.Error())
 	}
 
 	err = p.ParseRedoLogs(strings.Split(RedoFile, ","))
 	if err != nil {
-		fmt.Println("parse redo failed, error: ", err.Error())
-		return
+		fail("parse redo failed, error: ", err.Error())
 	}
 
 	// flush logs
-- 
2.43.0


From b164513c17b164ccc78aace67249c0054b595018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:05 +0000
Subject: [PATCH 53/55] fix: report statements that cannot be written

---
 recovery/ibdata/format.go |  9 +++++++--
 recovery/ibdata/parse.go  |  4 +++-
 recovery/redo/mlog.go     | 11 +++++++----
 recovery/redo/parse.go    | 17 +++++++++++++++--
 4 files changed, 32 insertions(+), 9 deletions(-)

diff --git a/recovery/ibdata/format.go b/recovery/ibdata/format.go
index 5053700..6b61302 100644
--- a/recovery/ibdata/format.go
+++ b/recovery/ibdata/format.go
@@ -10,7 +10,8 @@ import (
 )
 
 // Make row data to replace into statement, it will be more convenient when restoring data.
-func (parse *Parse) makeReplaceIntoStatement(AllColumns [][]Columns, table string, database string) {
+// It returns an error if a statement can not be written.
+func (parse *Parse) makeReplaceIntoStatement(AllColumns [][]Columns, table string, database string) error {
 	var buf bytes.Buffer
 	var query string
 
@@ -49,9 +50,13 @@ func (parse *Parse) makeReplaceIntoStatement(AllColumns [][]Columns, table strin
 		query = buf.String()
 		buf.Reset()
 
-		fmt.Println(query)
+		if _, err := fmt.Println(query); err != nil {
+			logs.Error("can't write the statement, error: ", err.Error())
+			return err
+		}
 		logs.Debug("query is ", query)
 
 	}
 
+	return nil
 }
diff --git a/recovery/ibdata/parse.go b/recovery/ibdata/parse.go
index 2e85357..ba4e54f 100644
--- a/recovery/ibdata/parse.go
+++ b/recovery/ibdata/parse.go
@@ -215,7 +215,9 @@ func (parse *Parse) ParseDataPage(path string, dbName string, tableName string,
 			}
 
 			// Make replace into statement.
-			parse.makeReplaceIntoStatement(allColumns, tableName, dbName)
+			if err := parse.makeReplaceIntoStatement(allColumns, tableName, dbName); err != nil {
+				return err
+			}
 		}
 	}
 	return nil
diff --git a/recovery/redo/mlog.go b/recovery/redo/mlog.go
index 76ce953..3216063 100644
--- a/recovery/redo/mlog.go
+++ b/recovery/redo/mlog.go
@@ -245,14 +245,17 @@ func (parse *Parse) mlogUndoInsert(data []byte, pos *uint64) error {
 		// if user don't identify table and database name, print all sql statement.
 		if Table.DBName == parse.DBName {
 			if Table.TableName == parse.TableName {
-				parse.makeSQL(Table, primaryFields, columns)
+				err = parse.makeSQL(Table, primaryFields, columns)
 			} else if parse.TableName == "" {
-				parse.makeSQL(Table, primaryFields, columns)
+				err = parse.makeSQL(Table, primaryFields, columns)
 			}
 		} else if parse.DBName == "" && parse.TableName == "" {
-			parse.makeSQL(Table, primaryFields, columns)
+			err = parse.makeSQL(Table, primaryFields, columns)
 		} else if parse.DBName == "" && parse.TableName == Table.TableName {
-			parse.makeSQL(Table, primaryFields, columns)
+			err = parse.makeSQL(Table, primaryFields, columns)
+		}
+		if err != nil {
+			return err
 		}
 	}
 
diff --git a/recovery/redo/parse.go b/recovery/redo/parse.go
index 69240b6..ac13bb8 100644
--- a/recovery/redo/parse.go
+++ b/recovery/redo/parse.go
@@ -334,6 +334,9 @@ func (parse *Parse) parseRedoBlockData(data []byte) error {
 
 		case MLOG_UNDO_INSERT:
 			if err := parse.mlogUndoInsert(data, &pos); err != nil {
+				if _, ok := err.(outputError); ok {
+					return err
+				}
 				break
 			}
 
@@ -540,7 +543,13 @@ func (parse *Parse) validateLogHeader(logType uint64, spaceID uint64) bool {
 	return haveType
 }
 
-func (parse *Parse) makeSQL(table ibdata.Tables, primaryColumns []*ibdata.Fields, columns []*ibdata.Columns) {
+// outputError tells that a statement can not be written.
+type outputError struct {
+	error
+}
+
+// It returns an outputError if the statement can not be written.
+func (parse *Parse) makeSQL(table ibdata.Tables, primaryColumns []*ibdata.Fields, columns []*ibdata.Columns) error {
 
 	// update statement
 	var SetValues string
@@ -570,5 +579,9 @@ func (parse *Parse) makeSQL(table ibdata.Tables, primaryColumns []*ibdata.Fields
 		utils.QuoteName(table.TableName), SetValues, whereConditions)
 
 	logs.Debug("query is ", query)
-	fmt.Println(query)
+	if _, err := fmt.Println(query); err != nil {
+		logs.Error("can't write the statement, error: ", err.Error())
+		return outputError{err}
+	}
+	return nil
 }
-- 
2.43.0


From ce46a79c33ce5e1cda650da36e567600be286fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:06 +0000
Subject: [PATCH 54/55] fix: report read errors of redo files

---
 recovery/redo/parse.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/recovery/redo/parse.go b/recovery/redo/parse.go
index ac13bb8..9f69968 100644
--- a/recovery/redo/parse.go
+++ b/recovery/redo/parse.go
@@ -17,6 +17,7 @@ package redo
 import (
 	"bytes"
 	"fmt"
+	"io"
 	"os"
 
 	"github.com/zbdba/db-recovery/recovery/ibdata"
@@ -90,6 +91,10 @@ func (parse *Parse) ParseRedoLogs(logFileList []string) error {
 		for {
 			// when parsing the redo log file, record the read position.
 			block, err := utils.ReadNextBytes(file, OS_FILE_LOG_BLOCK_SIZE)
+			if err != nil && err != io.EOF {
+				logs.Error("read data from file failed, error: ", err.Error())
+				return err
+			}
 			if err != nil || len(block) < LOG_BLOCK_HDR_SIZE {
 				break
 			}
@@ -204,7 +209,9 @@ func (parse *Parse) readRedoLogFileCheckpoint(file *os.File) error {
 	logs.Debugf("Checkpoint1 Number: 0x%X, LSN: 0x%X, Offset: 0x%d, BufferSize: %d, ArchivedLSN: 0x%X, Checksum1: 0x%X, Checksum2: 0x%X, CurrentFSP: 0x%X, Magic: 0x%X",
 		checkpoint1.Number, checkpoint1.LSN, checkpoint1.Offset, checkpoint1.BufferSize, checkpoint1.ArchivedLSN, checkpoint1.Checksum1, checkpoint1.Checksum2, checkpoint1.CurrentFSP, checkpoint1.Magic)
 
-	utils.ReadNextBytes(file, OS_FILE_LOG_BLOCK_SIZE)
+	if _, err = utils.ReadNextBytes(file, OS_FILE_LOG_BLOCK_SIZE); err != nil {
+		return err
+	}
 
 	checkpoint2 := Checkpoint{}
 	err = utils.ReadIntoStruct(file, &checkpoint2, OS_FILE_LOG_BLOCK_SIZE)
-- 
2.43.0


From cea0a938da94af9d0b86c5cd8a64049e44ff555e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:06 +0000
Subject: [PATCH 55/55] fix: close a redo file that cannot be read

---
 recovery/redo/parse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recovery/redo/parse.go b/recovery/redo/parse.go
index 9f69968..f88022a 100644
--- a/recovery/redo/parse.go
+++ b/recovery/redo/parse.go
@@ -76,6 +76,7 @@ func (parse *Parse) ParseRedoLogs(logFileList []string) error {
 			logs.Error("Error while opening file, the error is ", err)
 			return err
 		}
+		defer file.Close()
 
 		// parse redo log header
 		if err = parse.readRedoLogFileHeader(file); err != nil {
@@ -123,7 +124,6 @@ func (parse *Parse) ParseRedoLogs(logFileList []string) error {
 			// Add all redo block data.
 			data = append(data, block[LOG_BLOCK_HDR_SIZE:blockHeader.BlockDataLen]...)
 		}
-		file.Close()
 	}
 
 	// Start parse redo log data.
-- 
2.43.0

