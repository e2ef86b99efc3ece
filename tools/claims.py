CLAIMS = [
 ("C11", "All setters, getters, Add*, lookup and ID-map methods of /repo/model are under contract and proved for all inputs. Assumes the memory-safety model of gocon (no unsafe, no data races) and 64-bit integers without overflow of slice lengths."),
 ("C21", "The ID methods are proved to return exactly the specified text, which contains every attribute; that equal texts mean equal attributes (injectivity of the quoted encoding and of SHA-256 on it) is assumed."),
 ("C12", "formatColumnType and formatTableColumn are proved, for every column object, to write exactly the specified text or nothing and an error. Assumes the contract of bytes.Buffer/io.Writer and that the channel of enum/set values of a foreign implementation is closed; the re-lexing of the text is not part of the proof."),
 ("C13", "formatIndex, formatReference and writeReferenceOption are proved, for every index and reference object, to write exactly the specified text or nothing and an error. Assumes the contract of bytes.Buffer/io.Writer and of the model interfaces (proved for /repo/model in C11)."),
 ("C14", "format, formatStmts' loop, formatDatabase, formatTable, formatTableOption, SQL and WithIndent are proved, for every model object and option list, to write exactly the specified text, or nothing and an error. Assumes the contract of bytes.Buffer/io.Writer and of the model interfaces (proved for /repo/model in C11)."),
 ("C09", "tablecol.Normalize, NativeLength and ColumnType.SynonymType are proved against the specified normal form for every column object, and idempotence is a proved lemma over that specification. Assumes the memory-safety model of gocon."),
 ("C19", "NewSchemaSource and all source constructors are proved for every URI text; what net/url finds in a text (scheme, host, path, query) is assumed to be a function of the text."),
 ("C20", "Linter.Run, format.SQL and everything below it are proved for every list of statements, option list and destination. What Parse returns is the subject of C04-C08; here Parse's contract is assumed to do no input or output."),
 ("C15", "newDiffCtx, dropTables, createTables, alterTables, sortedIDs, sameOrder and Statements are proved, for every pair of statement lists, to write exactly the drops and creations of the tables that only one side has, in the specified order, or to fail. Covered by the bounded stand-in only: Strings, Files and Sources, which parse first."),
 ("C16", "newAlterCtx, dropTableColumns, writeAddColumn, alterTableColumns, the column comparison, alterTables and Statements are proved, for every pair of tables, to write exactly the specified clauses or to fail. Assumed and covered by the bounded stand-in: addTableColumns (maps of neighbours and a sort by comparison function), of which the contract only says that its output is a function of the two tables."),
 ("C17", "newAlterCtx, dropTableIndexes, addTableIndexes, alterTables and Statements are proved, for every pair of schemas, to write exactly the specified clauses in the specified order or to fail. The column steps (dropTableColumns, alterTableColumns) enter through their contracts, which C16 discharges; addTableColumns through an assumed one."),
 ("C18", "Statements, alterTables and the functions below them are proved to write exactly the specified text, which is empty for sets of the same members and equal columns; the column comparison is proved to be equality of definitions. Assumed and covered by the bounded stand-in: addTableColumns. Some of the contracts used are discharged by the checks of C16 and C17, as listed in the evidence. That parsing equal texts gives equal objects is covered by the stand-in."),
 ("C22", "Every formatting function, lint, the four schema sources, diff.Statements and the functions that write the parts of a diff are proved to report success only if no read, write, command or query failed. Not under contract, and covered by the bounded stand-in only: addTableColumns, and diff.Strings, Files and Sources. Opening a database connection is assumed to report its failures."),
 ("C01", "The functions that read characters and find the end of blanks, words, numbers, comments and quoted texts (peek, advance, next, offset, str and the run* functions) are proved, for every input, to stop exactly at the specified offset and to count lines. That Run calls them for every token and emits what they found, without a gap, is decided by the bounded stand-in."),
 ("C02", "runQuote is proved, for every input, to stop at the closing quote that the specification names, or to report that there is none. The decoding of the text between the quotes (unescapeQuotes) and the composition in Run are decided by the bounded stand-in."),
 ("C03", "The run* functions are proved, for every input, to take exactly the longest blank, word, number, comment or quoted text. The choice among them by the first character in Run, and the keyword table, are decided by the bounded stand-in."),
]
WIP = "the functions of parser.go (and table normalization for C10) are mutually recursive over a token channel; no contract for them was completed, so nothing about them is proved; the bounded driver covers the property but by itself is not this technique"
NA = [("C%02d" % i, WIP) for i in list(range(4, 9)) + [10]]
NA += [
 ("C23", "Round trip: relates two executions of the parser through the whole formatter; it would need the parser's contract to be inverted against the formatter's text, including lexing of the produced text, which is beyond the contracts within reach. C01-C08 and C12-C14 decide its two halves."),
 ("C24", "Termination of two communicating goroutines under all schedules: the contracts here are for sequential functions (partial correctness over a channel's contents); liveness under scheduling cannot be expressed."),
]
# properties of which a substantial part is decided by the bounded stand-in
LEVEL = {"C01": "other", "C02": "other", "C03": "other"}
