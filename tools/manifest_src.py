EF="path-sensitive error-propagation analysis on LLVM IR with inferred failure conventions"
EFN="Exhaustive over the call sites and paths of the current source up to state merging (which only adds paths); infeasible paths are ruled out by intervals, comparisons and callee contracts. Expected failures are a reviewed table of caller/callee pairs."
TECH={
"C01":(EF+", must-pass-through of every part writer, and no-skip loop rule",EFN),
"C02":("typestate of the transaction's files along every path, effect enumeration","All file-modifying call sites of the library are enumerated; paths through close, start and commit are explored exhaustively."),
"C03":("effect analysis with access-mode guards along every path","Guards are decided per path; the effect sites are all container and file operations in the library."),
"C04":("path-sensitive typestate of the error out-parameter against the return value, on LLVM IR","Every public function with an error out-parameter is explored on all paths; callees are summarised by the same rule."),
"C05":(EF,EFN),"C06":(EF,EFN),"C07":(EF,EFN),
"C28":("constant-propagation lint over every formatting call in the compiler IR of library and tools","Exhaustive over formatting calls of six programs; machine types, not C types, are compared."),
"C23":("schema lint: constant SQL statements of each table class checked against the record setters that fill them, plus path-sensitive required-field typestate","Statements are constants in the compiler IR of the generated code; every setter call and every path adding a row is examined."),
"C24":("conditional constant and known-bits propagation over the compiler IR: each documented attribute value assumed in turn, the bits or code reaching the row compared with the documented ones","A value whose path is not decided by the propagation is counted as undecided and not reported."),
"C26":("conditional constant propagation with a marker value (dataflow from each attribute to the argument of the table row it ends in)","The attribute to column table comes from the WiX and Windows Installer documentation."),
"C25":('conditional constant propagation: with exactly one table assumed to hold rows, the actions added to each sequence are enumerated; constant tables compared with the documented ones','The computed order of custom actions without a sequence number is not decided.'),
"C27":('outcome-forking path-sensitive dataflow over every function of the tools, with function summaries; obligations are the fallible calls','A violated precondition (g_return_if_fail) is not counted as a failure; a failing search that continues elsewhere (find_file, keyword or number) is an answer, not a failure.'),
"C17":("action-by-action dataflow over the generated parser, driven by bison's own report of the grammar; conditional constant propagation over the lexer",'Covers the form of the operation that is built; what the operation then does belongs to the other properties.'),
"C18":("path-sensitive abstract evaluation of each operator under every relation, truth value, null state and 'unknown' operand; counter and decoding queries",'Decides evaluation of one row combination; that the join enumerates all combinations and the ORDER BY result are not covered.'),
"C19":('affine address analysis of the cell and stream accesses, path-sensitive constant-offset tracking of integer codecs per column type','Decides the storage code; that every caller passes the right row and column is part of other properties.'),
"C20":("bit-level abstract interpretation of the codec's steps per character class, constant propagation through the alphabet, path-sensitive prefix typestate",'Text already inside the reserved range U+3800..U+4840 is outside the claim (the format cannot represent it).'),
"C35":('bit-level abstract interpretation of one step of each loop over the pool, per kind of entry, against the layout of the format','The conversion between codepages is left to iconv.'),
"C21":('abstract interpretation at the level of bits, with a model of the C string functions and of memory bounds, compared with the documented text format','Line shapes up to 4 character classes; statements up to 3 keys and 2 columns.'),
"C22":('abstract interpretation at the level of bits across calls, with symbolic property values and known buffer sizes, compared with a reference layout of the property set format','Texts up to 9 characters; malformed streams around each limit of a stream of 3 properties.'),
"C41":('abstract interpretation at the level of bits across calls, on encoded rows of every mask, compared with a reference decoder','Tables of up to 5 columns; up to five rows per transform; storing the rows themselves is the subject of other properties.'),
"C32":('abstract interpretation at the level of bits across calls, on the stored rows of concrete tables, compared with the table that should result','Tables of up to three rows before the change; the rows that match a condition are the subject of another property.'),
"C33":('abstract interpretation at the level of bits across calls, on concrete tables and expression trees, compared with the reference result','Tables of up to four rows in joins; comparisons and operators for all values are the subject of another property.'),
"C42":('abstract interpretation at the level of bits across calls, the queries answered from modelled databases, compared with the databases that should result','Tables of up to three rows and four columns; that a query gives the rows its text asks for is the subject of other properties; which lengths of text fit is left open, and so is what becomes of columns the target does not have.'),
"C36":("abstract interpretation at the level of bits across calls, on records made and filled by the library's own functions, compared with a reference record",'Records of up to five fields; the text - and numbers read from streams are left open.'),
"C37":("abstract interpretation at the level of bits across calls, on databases made by the library's own functions; what a new listing gives is compared with what was done",'Up to three streams or storages before a change and four insertions by one statement; encoding of names is the subject of C20.'),
"C43":('abstract interpretation at the level of bits across calls, from an empty database; what the catalogue, the tables, and a second database made of what was saved say is compared with the statements','Up to three tables and six rows each; string pool and SQL queries on the catalogue are modelled (C18, C33); columns of the kind FREE and HOLD are counted up to three times.'),
"C44":('abstract interpretation of the compiled visitors at the level of bits across calls, on elements with concrete attributes and parents; the rows added are compared with the documented ones','About 200 elements; looking up elements and files by name, and the writing of a row itself (C26), are modelled; sequences of files and of actions are not covered (C25).'),
}
NA={}
