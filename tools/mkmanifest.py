#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the checks the harness registers."""
import json, subprocess, sys
TECH = {}
NOTE = {}
def t(i, tech, note): TECH[i] = tech; NOTE[i] = note
TRUST = " Trusts the harness's own InnoDB page/dictionary/redo encoder (written from the on-disk format, independent of the tool) and its SQL literal parser; sampling, not proof."
t("C01","property-based testing: generated page histories against a model of the free list","Every generated page history's free list is recovered exactly once, values included."+TRUST)
t("C02","property-based testing: generated page histories against a model of the live rows","Every generated page's live rows are printed exactly once."+TRUST)
t("C03","property-based testing: encode/print/parse round trip with boundary sweeps","Boundary values of every width are enumerated, others sampled, in key and non-key position and in undo records."+TRUST)
t("C04","property-based testing: encode/print/parse round trip with boundary sweeps","All temporal types with 0-6 fractional digits and the formats from before 5.6.4, boundaries enumerated, several time zones."+TRUST)
t("C05","property-based testing: encode/print/parse round trip over byte strings","Lengths around the 1/2-byte boundary, every byte value and multi-byte charsets are covered for the values stored inside the row."+TRUST)
t("C06","property-based testing: NULL bitmap patterns against the generated rows","All NULL patterns of small tables are enumerated, larger ones sampled."+TRUST)
t("C07","property-based testing: generated key definitions against the declared columns","Key position, order, subset and index kinds are generated, keys over column prefixes and up to 16 key columns included."+TRUST)
t("C08","property-based testing: differential COMPACT against REDUNDANT row format","Same rows written in both formats give the same statements."+TRUST)
t("C09","property-based testing: hostile strings against a strict SQL lexer","Quotes, backslashes, NUL, control bytes and invalid encodings are generated in every textual type."+TRUST)
t("C10","property-based testing: generated mixes of page kinds","Non-leaf, secondary, foreign, other-type pages are mixed with leaf pages."+TRUST)
t("C11","property-based testing: generated dictionaries against the registered schema","Dictionaries of 1-8 tables in varied layouts, checked through the rows they decode and through the loaded definitions."+TRUST)
t("C12","property-based testing: generated doublewrite/duplicate page images","Duplicated page numbers in and out of the home place."+TRUST)
t("C13","property-based testing: generated invalid requests","Missing/unreadable files, broken dictionaries and near-miss names; each must give an error and no SQL; a quarter of them go through the program and must fail visibly."+TRUST)
t("C14","fuzzing: structured mutation of generated data files with a crash/hang/allocation oracle and the intact pages' rows as model","Mutations of records, headers, links and whole pages."+TRUST)
t("C15","stateful property-based testing: operation sequences differential to a fresh parser","Sequences over two dictionaries, several tables, both modes, redo runs and log levels; each step equals the same step on a fresh parser."+TRUST)
t("C16","property-based testing: generated transactions against a model of the old values","Undo records of generated updates printed as UPDATE statements; tables without primary key and keys over column prefixes are known findings."+TRUST)
t("C17","property-based testing: generated record sequences framed by canary updates","Every record type is generated between updates that must all be found; positions are checked through the updates that follow."+TRUST)
t("C18","property-based testing: metamorphic shift of the same records over block and file boundaries","The same record stream is placed at many offsets and split over one or more files."+TRUST)
t("C19","property-based testing: generated selections against a model","Selected schema/table among tables of several schemas."+TRUST)
t("C20","property-based testing with enumerated truncation points","Every byte of small logs, sampled cuts of larger ones."+TRUST)
t("C21","fuzzing: structured mutation of generated redo logs with crash/hang/allocation oracle and a prefix model","Mutations of bytes, blocks, headers and record fields."+TRUST)
t("C22","property-based testing: strict SQL parser on the printed UPDATE statements","Statements parse and their SET/WHERE values equal the undo record's."+TRUST)
t("C23","property-based testing: encode/decode round trip with exhaustive boundary sweeps","All encodings at their boundaries, with arbitrary prefix and trailing bytes; values sampled between."+TRUST)
t("C24","property-based testing: generated message sequences in child processes against a severity model","Levels in any case, all severities and call forms, log directory contents checked."+TRUST)
t("C25","property-based testing: generated command lines against the generated data's model","The built program is run with generated option forms and orders; output is compared with the modelled rows."+TRUST)
t("C26","property-based testing: directory snapshot invariant over generated operations","Names, contents, sizes, times and modes are compared around each operation."+TRUST)
t("C27","property-based testing: generated identifiers against the names the schema was made with","Names of every printable ASCII character and of characters the dictionary encodes, of every length, are found, selected and quoted; characters that the file system encoding writes with the short codes for Latin, Greek and Cyrillic letters are not generated."+TRUST)
t("C28","property-based testing with injected write faults at drawn positions of the output","File size limits at a drawn byte, /dev/full, unwritable descriptors and closed pipes, through the library and the program; errors that are returned but not counted by the operating system (EIO of a network disk) are represented by these."+TRUST)
t("C29","property-based testing: generated histories, the printed statements executed backwards against a model of every earlier state","Rows, deletions and updates of one or two tables with a key, executed in an in-memory table by a small SQL executor; DECIMAL values and values on other pages are left out."+TRUST)
t("C30","property-based testing: generated concurrent requests, differential to the same requests alone, under the race detector","Two to eight requests on separate parsers in a child process built with the race detector; schedules are those the Go scheduler takes in the drawn rounds, not all."+TRUST)
t("C31","property-based testing with injected system-call faults at drawn reads","A tracer of the harness makes a drawn read or open of a drawn file fail or deliver less; where processes cannot be traced the faults cannot be injected, and the evidence says so."+TRUST)
t("C32","property-based testing: open files and goroutines compared around generated requests","Missing, cut, damaged and empty files and directories in place of files, in any order; open files are read from /proc, goroutines from the runtime."+TRUST)
t("C33","property-based testing with unusable log directories and injected system-call faults on log files","The tracer makes drawn opens and writes of log files fail; a log that cannot be written may end the program, but visibly."+TRUST)
t("C34","property-based testing: metamorphic relation between requests of three sizes (statements and processor time)","Each growing part is multiplied on its own; quadratic growth with a very small constant stays below the threshold, and the product of tables and log records is not judged."+TRUST)
have = subprocess.run(["/verif/bin/check","-list"],capture_output=True,text=True,check=True).stdout.split()
props=[json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
checks=[dict(property=i,quick_cmd=f"bash check.sh {i} quick",thorough_cmd=f"bash check.sh {i} thorough",technique=TECH[i],level="exploration",level_note=NOTE[i]) for i in props if i in have]
na=[dict(property=i,reason="check under construction") for i in props if i not in have]
json.dump(dict(version=1,setup_cmd="bash tools/build.sh",checks=checks,not_applicable=na,
 notes="No hooks are needed: every property is decided through the public API, the command-line program and generated files. Replay: bash check.sh ID replay FILE."),open("/verif/MANIFEST.json","w"),indent=1)
