DB="libmsi/libmsi-database.c"; Q="libmsi/libmsi-query.c"; REC="libmsi/libmsi-record.c"; SI="libmsi/libmsi-summary-info.c"
TBL="libmsi/table.c"; STR="libmsi/string.c"; IS="libmsi/libmsi-istream.c"

p("C01","A successful commit has written every part of the database",
"Whenever committing a database reports success, the string pool, every loaded table, every stream and every storage of the database have been handed to the output container and each of those writes, and the closing of the container, succeeded. A failure of any one of these steps makes the commit report failure.",
["fault_sequences","inputs"],"For every database content and every combination of failing write, close or rename during commit.",
"The tests only commit small databases on a working file system; no test makes a write fail and none compares the set of parts written with the set of parts held.",
[DB,STR,TBL,"libmsi/streams.c","libmsi/storages.c"],
[("the commit sequence","libmsi_database_commit"),("per-part writers return a result code that must be propagated","msi_save_string_table, msi_commit_tables, msi_commit_streams, msi_commit_storages, write_stream_data, write_raw_stream_data")])

p("C02","The original file is replaced only by a complete committed file",
"The file at the database's path is removed or replaced only after a commit has written every part of the new file; until then all output goes to a separate scratch file. Abandoning a database without a successful commit deletes only that scratch file and never touches the original.",
["crash_points","histories","fault_sequences"],"For every point at which a commit can fail or the database object can be dropped.",
"Tests exercise successful commits only; the guarantee is about failing or interrupted ones.",
[DB],[("scratch output file","start_transaction"),("replacement is conditional on a committed close","libmsi_database_close")],
[("outfile","scratch container of the open transaction","libmsi/libmsi-database.c")])

p("C03","A database opened read-only is never written",
"When a database is opened read-only, no operation on it creates an output container, writes a stream or storage into one, or removes or renames a file; commit on such a database leaves the file alone. Every path to such an effect is guarded by the access mode.",
["inputs","histories"],"For every sequence of operations on a database opened read-only.",
"No test opens a database read-only and then attempts every kind of write.",
[DB],[("access-mode guards in front of each writer","start_transaction, write_raw_stream_data, msi_create_stream, msi_create_storage, libmsi_database_commit")])

p("C04","A failing public call always sets its error, a succeeding one never does",
"For every public function taking an error out-parameter: whenever it returns its failure value for a reason other than a violated argument precondition, the error is set; whenever it returns its success value, the error is left unset.",
["inputs","fault_sequences"],"For every public function, argument value and internal failure.",
"Callers (all command-line tools) dereference the error on failure; the tests reach only a few of the failure exits.",
[DB,Q,REC,SI],[("result code to error conversion","g_set_error at the end of each public entry point")])

p("C05","A failed step of an SQL statement fails the statement",
"While a query is prepared, executed, fetched or modified, a failure reported by any step (table lookup, view creation, row or column access, row insertion, update or deletion, record handling, condition evaluation, sorting) makes the public call report failure. No such failure is turned into success or silently dropped.",
["inputs","fault_sequences","programs"],"For every SQL statement, parameter record and database, and for every step that can fail.",
"Error paths need malformed tables, allocation failure or exotic statements; the tests run well-formed statements.",
[Q,"libmsi/select.c","libmsi/where.c","libmsi/distinct.c","libmsi/insert.c","libmsi/update.c","libmsi/delete.c","libmsi/create.c","libmsi/alter.c","libmsi/drop.c","libmsi/sql-parser.y",TBL,"libmsi/streams.c","libmsi/storages.c"],
[("result codes returned by every view operation and helper","query.h LibmsiViewOps")])

p("C06","A failed import, export or merge step is reported",
"While a table is imported from or exported to text, or two databases are merged, a failure of any step that reads, converts, queries or stores data makes the whole call report failure rather than success with missing data.",
["inputs","fault_sequences"],"For every input archive, table and database pair.",
"Partial failures need short writes, malformed archives or conflicting tables; tests cover one well-formed import/export.",
[DB,TBL],[("result codes propagated to the public call","libmsi_database_import, libmsi_database_export, libmsi_database_merge")])

p("C07","A failed database open, read, summary or record step is reported",
"While a database is opened, its string pool or a stream is read, table metadata is listed, the summary information is read or saved, or a record field or stream is loaded or saved, a failure of any step makes the public call report failure. No such failure is dropped, or answered with a result in which part of the data is silently missing.",
["inputs","fault_sequences"],"For every input file, record and summary information and every step that can fail.",
"Partial failures need short reads or writes and malformed containers; the tests use well-formed files on a working disk.",
[DB,STR,SI,REC,IS,TBL],[("result codes propagated to the public call","_libmsi_database_open, msi_load_string_table, load_summary_info, suminfo_persist, libmsi_record_load_stream")])

p("C28","Every formatted message or line matches the arguments it is given",
"Every formatting call in the library and in all the tools uses a format fixed in the program, never text that comes from a file, a package or the command line. The conversions in that format agree in number and kind with the arguments passed.",
["inputs"],"For every formatting call of the library and every tool, on every path that reaches it.",
"A wrong format only misbehaves when the text happens to contain a conversion or when a rare message is printed; tests do not print them.",
[DB,Q,"tools/msibuild.c","tools/msiinfo.c","tools/msiextract.vala"],[("printf-like calls","every g_set_error, g_print, printf, g_strdup_printf and gsf_output_printf call")])
WX="tools/wixl/wix.vala"; BL="tools/wixl/builder.vala"; MSIV="tools/wixl/msi.vala"; DEFV="tools/wixl/msi-default.vala"; PREV="tools/wixl/preprocessor.vala"

p("C23","wixl's table definitions, inserts and records agree",
"For every database table wixl writes: its rows are inserted into the table that was created under that name, every inserted column exists in it, all required columns receive a non-null value, and each field of the row goes to the column it is meant for with that column's kind of value (text, number or binary). Every table wixl fills is written to the package.",
["inputs","programs"],"For every WiX source, whichever tables and rows it produces.",
"Each table's statement and row layout are written by hand in three places that only agree by position; the tests compare a few packages that leave most tables and columns empty.",
[MSIV],[("constant CREATE/INSERT statements and record setters of each table class","MsiTable subclasses")])

p("C24","wixl stores the documented value for each attribute",
"For each WiX attribute with a documented set of values (dialog, control and text style switches, component and feature options, upgrade options, service start, type, error control and events, folder removal, registry roots, search and value types, INI actions, custom action kinds and options, install scope, major upgrades) the written row carries the flag bit or code the Windows Installer documentation assigns to that value, and an absent option leaves its bit clear or set as documented.",
["inputs"],"For every combination of attribute values of one element.",
"Each value is one branch or shift in code the tests reach for a few values only; nothing compares the stored numbers with the documented ones.",
[BL,WX,MSIV],[("attribute values become flag bits and codes","visit_* methods of WixBuilder and enums of wix.vala")])

p("C26","wixl writes each attribute to its documented column",
"For each WiX element that becomes a row, every attribute (and the identifiers of the enclosing elements) ends in the table column, property or summary-information value the WiX documentation assigns it to: no two are swapped, none is dropped when its element is written, and numbers keep their value.",
["inputs"],"For every WiX source and attribute value.",
"The tests compare a few packages which leave most attributes unset, so an attribute that goes to the wrong column is not noticed.",
[BL,MSIV],[("attribute to row parameter","visit_* methods of WixBuilder, *_add methods of MsiTable subclasses")])

p("C25","wixl schedules the standard actions a package needs",
"Each sequence table of a package wixl builds receives the standard actions that are always required, and those that process a table exactly when rows of that table are written. Every standard action is written with its documented condition and sequence number (including the numbers of exit dialogs) and only added to sequences the Windows Installer allows it in.",
["inputs"],"For every WiX source, whichever tables it fills and whichever actions it names itself.",
"The tests compare the sequence tables of a few packages only; an action that is missing or has a wrong condition shows up at install time.",
[DEFV,MSIV,BL],[("standard action table","MSIDefault.actions"),("which actions are added","WixBuilder.sequence_actions, MsiTableSequence.add_default_action")])

p("C27","The tools report every failure in message and exit status",
"Whenever an operation that msibuild, msiinfo, msiextract, wixl or wixl-heat performs fails (a library call, reading input, parsing options, writing output), the tool ends with a non-zero exit status after printing a message. It never ends with a non-zero status silently, nor with status 0 before the remaining arguments are processed.",
["fault_sequences","inputs"],"For every operation of a tool that fails, alone or after any sequence of others, and for every command line.",
"The tests exercise a few failing command lines; most failing calls inside the tools never fail under test.",
["tools/msibuild.c","tools/msiinfo.c","tools/msiextract.vala","tools/wixl/wixl.vala","tools/wixl/wixl-heat.vala",BL],[("error out-parameters and status results up to main","main of each tool"),("diagnostics on standard error","g_printerr, fprintf(stderr), usage")])

p("C17","SQL text is read as the statement its grammar describes",
"Every SQL statement is split into the documented tokens, with keywords recognised in any letter case, and read with comparisons binding tighter than AND and AND tighter than OR. Each statement form builds exactly the operation it names from its own table, columns, values and condition, with the flags its words ask for (TEMPORARY, HOLD, FREE, NOT NULL, LOCALIZABLE, PRIMARY KEY, column types and sizes, negative numbers).",
["inputs"],"For every statement of the SQL language of the library.",
"The tests use a few dozen statements; most productions, flags and keywords of the grammar never occur in them.",
["libmsi/sql-parser.y","libmsi/tokenize.c"],[("the productions and their actions","sql-parser.y"),("tokens and keywords","sql_get_token, aKeywordTable"),("expression and column nodes","build_expr_*, parser_alloc_column")])

p("C18","WHERE conditions and ? parameters are evaluated as written",
"A row is selected, updated or deleted exactly when the condition is true of its stored values under the documented meaning of =, <>, <, >, <=, >=, AND, OR, IS NULL and IS NOT NULL: integers compare signed, strings only for (in)equality with null equal to empty, and a join is decided the same in whatever order its tables are visited. The n-th ? of a statement takes the n-th field of the parameter record, for every row and whatever the other operands evaluate to.",
["inputs","op_sequences"],"For every condition, every row and every parameter record.",
"The tests evaluate a few conditions on a few rows; sign, null, partially joined rows and parameter counting vary with data they do not contain.",
["libmsi/where.c","libmsi/insert.c","libmsi/update.c"],[("truth tables of the operators","expr_eval_binary, expr_eval_strcmp, expr_eval_unary"),("typing of conditions","where_view_verify_condition"),("parameter counting","where_view_evaluate, check_condition, msi_query_merge_record, update_view_execute")])

p("C19","Cells, rows and table streams are stored and read back the same way",
"An integer written to a cell is the integer every reader gets back (fetched rows, names of streams, transforms, key lookups, the column catalogue), and one that does not fit its column is refused instead of stored as another. A committed table has every permanent row and no temporary one, in order, each cell at the place in the column-major stream from which it will be read, whatever the number of rows, the column types and the width of string references.",
["inputs","op_sequences"],"For every table shape, every row count and every value.",
"The tests write a few small tables; sign, the third byte of long string references, mixed temporary rows and unusual column widths do not occur in them.",
["libmsi/table.c","libmsi/libmsi-query.c"],[("encoding","get_table_value_from_record, msi_view_get_row, msi_stream_name, msi_get_transform_record, msi_record_to_row, get_tablecolumns"),("layout","read_table_from_storage, save_table, msi_table_get_row_size, table_calc_column_offsets, bytes_per_column"),("byte order","read_table_int, read_raw_int, table_view_set_int")])

p("C20","Names of streams and tables survive being encoded",
"A name made of letters, digits, period and underscore, or of any other text outside the reserved range, is stored as the stream name the format prescribes and read back as the same name, whatever its length. The mark of a table is put in front of table data only, and where it is recognised the name behind it, whole, is the table that is opened or transformed.",
["inputs"],"For every name, character by character and pair by pair, and every place that encodes or decodes one.",
"The tests use a few short names; other characters, odd lengths, both halves of the two-character code range and transforms do not occur in them.",
["libmsi/table.c","libmsi/libmsi-database.c","libmsi/streams.c"],[("codec","encode_streamname, decode_streamname, utf2mime, mime2utf"),("table mark","read_stream_data, write_stream_data, cache_infile_structure, msi_table_apply_transform")])

p("C35","The string pool is stored and read as the format prescribes",
"Every string of a database, including unused, empty and very long ones, is stored with the length, reference count, id, codepage and reference width that the format prescribes, and reading the pool gives each id the same text and count; lengths that point outside of the data are refused. A text has one id at a time: an existing text is found and counted again without the count wrapping, and a new one only gets an id that nothing refers to.",
["inputs","op_sequences"],"For every kind of pool entry, count and id, over each step of the code that sizes, writes, reads, searches, extends and counts the pool.",
"The tests use a few short strings; strings over 64k, full counts, growing pools, reused ids and damaged pools do not occur in them.",
["libmsi/string.c"],[("write","msi_save_string_table, string_totalsize, _libmsi_string_id"),("read","msi_load_string_table, msi_string_lookup_id"),("index and ids","_libmsi_id_from_string_utf8, find_insert_index, insert_string_sorted, st_find_free_entry, set_st_entry, _libmsi_add_string")])

p("C21","Exported text describes the table and imports as the same table",
"Exporting a table writes its column names, the documented type letter and size of each column, the table name with all key columns and every row, fields and lines separated as documented and separator characters inside a value translated. Importing such a text creates a table with the same columns, types, nullability, localizability and keys if there is none, replaces all of its rows by those of the text, and gives each field the value and kind its column's letter asks for; a text whose rows have too few fields, or more columns than the table, is refused.",
["inputs"],"For every column kind, character and shape of line, over each function that writes or reads the text.",
"The tests import and export a few tables without long keys, streams, empty lines, line breaks in values or most kinds of column.",
["libmsi/libmsi-database.c","libmsi/libmsi-query.c"],[("export","_libmsi_database_export, msi_export_record, msi_export_summaryinfo, msi_set_record_type_string, _libmsi_database_get_primary_keys"),("import","_libmsi_database_import, msi_parse_line, msi_build_createsql_columns, construct_record, msi_add_records_to_table")])

p("C22","Summary information is stored as documented and read back unchanged",
"Any set of summary properties, each of its documented type, is written as the documented property set stream and read back as the same set with the same values; a stream whose counts, offsets or lengths do not fit is never read beyond its end, nor does it set a property of a wrong type. A property is set only with a value of its type and within the number of changes allowed, is returned only as its type, otherwise with an error, and is exported and imported as text with the same value, times as local time.",
["inputs"],"For every type of property and length of text (modulo the padding), and for counts, offsets and lengths around every limit of the stream.",
"The tests write and read a few properties and none of the malformed streams.",
["libmsi/libmsi-summary-info.c"],[("format","suminfo_persist, write_property_to_data, load_summary_info, read_properties_from_data"),("access","libmsi_summary_info_set_*, libmsi_summary_info_get_*, get_type"),("text","parse_prop, parse_filetime, filetime_to_string, msi_add_suminfo")])

p("C41","A transform changes exactly the rows it names",
"Each row of a transform is decoded as its mask, the columns of its table and the transform's own strings say; it deletes, changes in the given columns or replaces the row with its keys, or is added if there is none, nothing else is changed, and the deletion of a missing row does nothing. Data that end early or name too many columns are not read beyond their end, the rows before them are applied. The tables and columns are applied before any other table, each table once, columns of a new table are numbered in order, and the streams of the transform can be found afterwards.",
["inputs","op_sequences"],"For tables with keys and values of every kind, masks of every combination of columns, rows present or absent, and transforms cut at any byte.",
"No test applies a transform.",
["libmsi/table.c"],[("records","msi_get_transform_record, msi_table_load_transform, msi_table_find_row"),("tables","msi_table_apply_transform")])

p("C32","Rows are added, changed and removed where the statement says",
"INSERT adds one row with the values under the columns it names, in the order of the keys, UPDATE changes exactly the named columns of exactly the rows that match and DELETE removes exactly those rows, with the values for the ? markers taken in order, those of the condition after those of the columns. Adding, changing or removing a row leaves all other rows, cells and their being temporary or kept as they were, stores the streams under the name of the row, and takes a reference of every string a cell names that is kept exactly when the row is. A row that duplicates a key, lacks a required value or has a number that does not fit is refused and changes nothing; a failure to store or remove a row fails the statement.",
["inputs","op_sequences"],"For tables with keys and values of every kind of up to 32 columns, every set of columns, row and order of columns named.",
"The tests add rows whose strings and keys are new, and change one column at a time.",
["libmsi/table.c","libmsi/insert.c","libmsi/update.c","libmsi/delete.c","libmsi/select.c","libmsi/where.c"],[("storage","table_view_set_row, table_view_insert_row, table_view_delete_row"),("statements","insert_view_execute, update_view_execute, delete_view_execute, select_view_set_row, where_view_set_row, where_view_delete_row")])

p("C33","A query gives every matching row once, in order, with its own columns",
"A SELECT over any number of tables gives each combination of their rows that meets the condition exactly once, ordered by the stored values of the columns that ORDER BY names and otherwise by the order of the rows, DISTINCT gives the first of equal rows, and executing again starts anew. Each column of the result is read from, named and typed as the column of the table it was selected from, with or without the name of its table, and a column that does not exist fails the query. Each fetch gives the next row as a record whose fields have the values of the row, null for null, until there are no more, and fails if a value cannot be read or the statement has no rows.",
["inputs","op_sequences"],"For joins of up to three tables in every order, conditions that relate them in every way, and results of up to 40 rows and 32 columns.",
"The tests join few tables and compare a handful of rows.",
["libmsi/where.c","libmsi/select.c","libmsi/distinct.c","libmsi/libmsi-query.c"],[("rows","where_view_execute, distinct_view_execute"),("columns","where_view_fetch_int, select_view_fetch_int, parse_column, _libmsi_view_find_column, select_view_create"),("records","msi_view_get_row, _libmsi_query_fetch")])

p("C42","A merge adds exactly the missing rows, or fails",
"Merging a database into another one adds, for every table, exactly the rows the target lacks, in their order, creating tables that are missing with the same columns and keys, and does not touch the other database. Rows with equal keys and different values are conflicts: none of that table's rows are added, their number is reported in the table named for it if there is one, and the merge fails. A table whose columns or keys do not fit makes the merge fail before anything is changed, and so does every step that fails.",
["inputs","fault_sequences"],"For databases of up to three tables with keys and values of every kind, equal, new and conflicting rows, and a failure of each step.",
"No test merges databases.",
["libmsi/libmsi-database.c","libmsi/libmsi-record.c","libmsi/table.c"],[("merge","libmsi_database_merge and all it calls in its file")])

p("C36","A record field gives back exactly what was last put in it",
"A field holds the last number, text or stream put in it and gives it back as such: a number also as its decimal text, a text that is a decimal number also as that number (cut to 32 bits), empty text and everything else as null. Setting, clearing, copying and cloning change no other field, copies are independent of their originals, records are equal exactly if all their fields are and none is a stream, and fields beyond the last are refused and empty. Text put into a buffer is cut to its size, its full length told and the cut reported; a stream is read completely or not at all, and what a record holds is released exactly once.",
["inputs","op_sequences"],"For every number, texts of all kinds of numbers and others, streams, and every pair of old and new value of a field in records of up to four fields.",
"The tests set a few fields and read them.",
["libmsi/libmsi-record.c"],[("values","libmsi_record_set_int, libmsi_record_set_string, libmsi_record_set_stream, libmsi_record_get_int, libmsi_record_get_string, libmsi_record_get_stream, libmsi_record_is_null, libmsi_record_clear"),("copies","_libmsi_record_copy_field, _libmsi_record_clone, _libmsi_record_compare, msi_dup_record_field")])

p("C37","Streams and storages are listed, replaced, read and removed by their name",
"The streams and storages of a database are exactly those of the opened file that are no tables, and those put into it since: each is listed once, in order, under its whole name in _Streams or _Storages, with the data last put under that name. Inserting or updating a row replaces what has that name or adds it, deleting a row removes only that one, a row without name or data and a read-only database are refused and nothing changes. Reading a stream gives it from its start, the database's own before those of transforms, the latest transform first; each is held as long as it is listed and then released.",
["inputs","op_sequences"],"For databases of up to three streams or storages, every function on them and every row of the two tables.",
"The tests insert and read one or two streams.",
["libmsi/streams.c","libmsi/storages.c","libmsi/libmsi-database.c"],[("lists","msi_create_stream, msi_destroy_stream, write_raw_stream_data, msi_create_storage, msi_destroy_storage, append_storage_to_db"),("tables","streams_view_create, storages_view_create and the operations of their views")])

p("C43","Tables are created, extended, held, dropped, saved and read back as stated",
"CREATE TABLE adds exactly the named table with its columns in order and with their types, ALTER TABLE ADD appends one column that is null in every row there is and changes nothing else, and DROP TABLE removes the table with all its columns and rows and no other one; a table that exists, a reserved name, two columns of one name, more than 32 columns, and an unknown table are refused, and a refused statement leaves tables, columns and rows as they were. A table of temporary columns only exists when it is held, a temporary column added with HOLD is there until it is freed as often as it was held. Committing saves every permanent table and row and no temporary one, and opening what was saved gives the same tables, columns and rows, whether strings are numbered in two bytes or three.",
["inputs","op_sequences"],"For databases of up to three tables of up to 32 columns of every kind.",
"The tests create a few tables by one or two statements each.",
["libmsi/create.c","libmsi/alter.c","libmsi/drop.c","libmsi/table.c"],[("statements","create_view_create, create_view_execute, alter_view_execute, drop_view_execute"),("catalogue","msi_create_table, table_view_add_column, table_view_drop, table_view_release, get_tablecolumns, table_view_exists"),("saving","_libmsi_database_commit_tables, save_table, read_table_from_storage")])

p("C44","The rows wixl adds for an element say what its attributes and place say",
"For every registry value, program identifier, extension, verb, MIME type, feature, component, reference to a component or a group, directory, product, package, medium, file, folder, service, service control, upgrade version, shortcut, INI file, condition and registry search, wixl adds exactly the documented rows, and the columns it computes (roots and keys of nested registry keys, escaped registry values, feature parents, levels and display numbers, component attributes, identifiers and key paths, joined service dependencies and arguments, upgrade attributes and the list of secure properties) follow from the element's attributes, the defaults of absent ones and the enclosing elements. An unknown type, a root directory that is not TARGETDIR and a second key path of one component are refused.",
["inputs","programs"],"For elements nested as listed in the check, with present, absent and extreme attributes.",
"The tests compile a few sources and compare selected tables.",
["tools/wixl/builder.vala"],[("computed columns","visit_registry_value, visit_feature, visit_component, visit_key_element, visit_component_ref, visit_directory, visit_service_install, visit_service_control, visit_upgrade_version, property_update, visit_shortcut")])
