#!/usr/bin/env python3
# writes /verif/properties.jsonl (kept as a script so the text is reviewable)
import json
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,state=None,obs=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs: a["observe_at"]=obs
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
p("C01","Lexing accounts for every byte of the input",
 "Splitting a schema text into tokens covers the text completely and in order: each token starts where the previous one ended, its recorded offset and line number are those of its first character, and its text is exactly the input between its start and the start of the next token. The token stream ends only at the real end of the input (end-of-file token) or at text that cannot be a token (an illegal token); no byte value, including NUL and multi-byte or invalid UTF-8, makes the lexer stop early, skip or repeat text, loop forever or crash.",
 ["inputs"],"all byte strings",
 "lexer_test.go and parser_test.go sample a few dozen short ASCII inputs; the claim is over all byte strings, including NUL, invalid UTF-8, unterminated comments and quotes.",
 ["lexer.go"],[("lexer.Run / emit / str","lexer.go"),("peek/advance read-ahead","lexer.go")],
 [("start, cur, peekCount","offset/line of the token being read and of the read-ahead","lexer.go")],["Parser.Parse results and error positions","Token stream"])
p("C02","Quoted identifiers and strings are decoded exactly",
 "A quoted token ends at its first unescaped closing quote, where a doubled quote is always an escaped quote and, inside ' and \" only, a backslash escapes the following character; its decoded value is the text between the quotes with every doubled or backslash-escaped quote replaced by one quote character and every other character (other backslash sequences included) unchanged. A quote that is never closed is reported as an error and never yields a value. Escaping an arbitrary name with the library's own identifier quoting and decoding it again gives back the same name.",
 ["inputs"],"all byte strings for each of the three quote characters",
 "the tests decode a handful of literals; escapes at the boundary of the literal, escaped backslashes, multi-byte text and every combination of them are infinitely many.",
 ["lexer.go","internal/util/util.go"],[("runQuote","lexer.go"),("unescapeQuotes","lexer.go"),("Backquote","internal/util/util.go")],None,["names, defaults, comments in the parsed model"])
p("C03","Tokens are classified by the documented lexical rules",
 "Each token's kind is determined by its text alone: a letter starts a word of letters, digits and underscores that is a keyword exactly if it matches the keyword table ignoring case and otherwise an identifier; digits with optional sign, fraction and exponent form one number; `#...`, `-- ...` and `/*...*/` are comments up to end of line respectively the first closing mark; blanks form one space token; every punctuation character has its own kind; anything else is illegal.",
 ["inputs"],"all byte strings, all 150+ keywords",
 "the lexer tests check some keywords and literals once in one spelling; a rule that is wrong for one keyword, one case variant or one comment shape goes unnoticed.",
 ["lexer.go","tokens_gen.go"],[("lexer.Run","lexer.go"),("runIdent, runNumber, runCComment, runToEOL","lexer.go"),("keywordIdentMap","tokens_gen.go")],None,["Token kinds as seen by the parser"])
p("C04","Parsing is total and fails only with located parse errors",
 "For every byte string, parsing returns normally - it never panics and never reads outside the input - with either the statements and no error, or no statements and an error. Every such error is a ParseError whose message is not empty and whose line and column are the position of a token of that input (or end of input, flagged as such).",
 ["inputs"],"all byte strings given to Parse/ParseString",
 "the tests try a few malformed statements; totality and the error type must hold for every malformed or truncated input at every position of the grammar.",
 ["parser.go","errors.go","lexer.go"],[("Parser.Parse","parser.go"),("newParseError","errors.go"),("parseCtx peek/advance/rewind cursor","parser.go")],
 [("peekCount, peekTokens","one-token look-ahead of the parser over the token stream","parser.go")],["return values of Parse, ParseString"])
p("C05","No statement of the input is lost, merged or invented",
 "When parsing succeeds the result holds exactly one table per CREATE TABLE statement of the input, in input order, each with all comma-separated definitions and options of that statement in order and nothing from any other; only comments, blanks, empty statements, CREATE DATABASE and DROP/SET/USE statements up to their terminating semicolon are skipped. Text that is none of these makes parsing fail instead of being dropped.",
 ["inputs"],"all token sequences",
 "each test parses one or two statements; interactions between consecutive statements, separators, trailing text and skipped statements are not enumerated.",
 ["parser.go"],[("Parser.Parse loop","parser.go"),("parseCreateTable, parseCreateTableFields, eol","parser.go")],None,["the Stmts returned by Parse"])
p("C06","Column definitions are recorded exactly as written",
 "A parsed column carries exactly what its definition states: name, type, length and scale, UNSIGNED/ZEROFILL/BINARY flags, character set, collation, nullability, default value with its quoting, ON UPDATE value, AUTO_INCREMENT, key flags, comment and ENUM/SET values in order, before normalization; attributes that are not written stay unset. A length, UNSIGNED, ZEROFILL, BINARY or value list that the type does not admit or that stands before the place where it may be written, or an incomplete clause, is rejected.",
 ["inputs"],"all column definitions, all orders and combinations of attributes for all column types",
 "the tests cover roughly thirty column definitions; attribute combinations, orders and malformed clauses multiply to an unbounded space.",
 ["parser.go","model/table_column.go"],[("parseTableColumn, parseTableColumnSpec, parseColumnOption, parseSetOrEnum","parser.go"),("column setters","model/table_column.go")],None,["model.TableColumn accessors after parsing"])
p("C07","Index, key and reference definitions are recorded exactly as written",
 "A parsed index carries exactly its kind, constraint symbol, name, USING type, the listed columns in order with prefix length and sort direction, WITH PARSER option and foreign-key reference; a reference carries its table, columns, MATCH kind and ON DELETE / ON UPDATE actions, each from its own clause. Clauses that are absent stay unset; incomplete, contradictory or misspelled clauses are rejected.",
 ["inputs"],"all index and foreign key definitions in table bodies",
 "the tests parse about two dozen definitions; every kind x clause x order combination and every malformed variant has to behave.",
 ["parser.go","model/index.go","model/reference.go"],[("parseTableConstraint, parseTable*Key, parseColumnIndex*","parser.go"),("parseColumnReference, parseReferenceOption","parser.go")],None,["model.Index and model.Reference accessors after parsing"])
p("C08","Table header and table options are recorded exactly as written",
 "A parsed table carries exactly its name, TEMPORARY and IF NOT EXISTS flags and LIKE source as written, and its options as a list in input order, each with its canonical key, its value and a quoting flag that is set exactly for values written as quoted strings. Unknown options, values of the wrong kind and unsupported options are rejected.",
 ["inputs"],"all CREATE TABLE headers and option lists",
 "a dozen option spellings are tested once each; option order, repetition, separators and every option's admissible value kinds are not.",
 ["parser.go","model/table.go"],[("parseCreateTable","parser.go"),("parseCreateTableOptions, parseCreateTableOptionValue","parser.go")],None,["model.Table accessors after parsing"])
p("C09","Column normalization is canonical, idempotent and side-effect free",
 "Normalizing a column replaces synonym types by their base type, supplies the native display length (or DECIMAL(10,0)) of the written type only when none is given, drops an explicit NULL, supplies DEFAULT NULL for nullable columns without default that may have one, unquotes numeric defaults and turns boolean TRUE/FALSE defaults into 1/0, and changes nothing else. Normalizing the result again changes nothing, the original column is left untouched, and the modified flag is false only if the receiver itself is returned.",
 ["inputs"],"all column values (every type, flag, default, length combination)",
 "a table of seven columns is tested; 36 types times attribute combinations are not.",
 ["model/table_column.go","model/columns_gen.go"],[("tablecol.Normalize, NativeLength, Clone","model/table_column.go"),("SynonymType","model/columns_gen.go")],None,["TableColumn.Normalize result and receiver"])
p("C10","Table normalization preserves meaning and loses nothing",
 "Normalizing a table keeps its name, flags, LIKE source, options and all columns in order (each normalized), moves every column-level PRIMARY KEY or UNIQUE attribute - also when a column carries both - to a table-level index over exactly that column placed before the declared indexes, and keeps all declared indexes in order, adding before each foreign key with a symbol a plain index of that name over the same columns exactly if no index of that name is declared in the table. The original table is left untouched.",
 ["inputs"],"all tables: any number of columns, indexes and options in any combination",
 "diff and parser tests exercise a few tables with at most one such column or key.",
 ["model/table.go"],[("table.Normalize","model/table.go")],None,["Table.Normalize result, output of format and diff"])
p("C11","Tables and model objects return exactly what was put into them",
 "Every attribute set on a model object is returned by its getter and affects no other attribute; columns, indexes, options and enum values are listed in the order they were added and none is lost or repeated. Looking up a column by its ID returns the most recently added column of that name, its position and the column right before it (none for the first), an index lookup returns the first index with that ID, an unknown ID finds nothing, and adding a column that already belongs to a table adds an independent copy.",
 ["inputs","histories"],"all sequences of setter and Add calls with arbitrary values",
 "no test covers the lookup structure after more than a couple of insertions, and the setters are tested only through whole-file samples.",
 ["model/table.go","model/table_column.go","model/index.go","model/reference.go","model/statement.go"],[("AddColumn/Lookup* with columnNameToIndex","model/table.go"),("setters and getters","model/*.go"),("Stmts.Lookup","model/statement.go")],
 [("columnNameToIndex","column ID to position, must agree with the column list","model/table.go")],["model API"])
p("C12","Columns are rendered completely and correctly quoted",
 "Formatting a column yields its indent, backquoted name, type, then exactly its present attributes in the fixed order - ENUM/SET values or length and scale, UNSIGNED, ZEROFILL, BINARY, character set, collation, ON UPDATE, nullability, default (quoted exactly if flagged), AUTO_INCREMENT, UNIQUE, PRIMARY or KEY, comment - with every embedded quote doubled so that the text re-lexes to the same values. A column with an invalid type, or an ENUM/SET column without values, is an error and produces no output.",
 ["inputs"],"all column values, all indents",
 "format is tested on one table and through parser round trips of unquoted samples.",
 ["format/format.go"],[("formatTableColumn, formatColumnType","format/format.go"),("Backquote","internal/util/util.go")],None,["bytes written by format.SQL"])
p("C13","Indexes and references are rendered completely and correctly quoted",
 "Formatting an index yields its constraint symbol, kind, name, USING type, all columns in order with length and direction, WITH PARSER option for fulltext indexes, and its reference; formatting a reference yields its table, all columns in order with lengths, MATCH kind and ON DELETE then ON UPDATE actions - each exactly when present and nothing else, names backquoted with embedded backquotes doubled. An index without columns is an error and produces no output.",
 ["inputs"],"all index and reference values",
 "tests render a few fixed definitions; clause combinations and names with special characters are not covered.",
 ["format/format.go","model/reference.go"],[("formatIndex, formatReference, writeReferenceOption","format/format.go")],None,["bytes written by format.SQL"])
p("C14","Tables, databases and statement lists are rendered completely",
 "Formatting a table yields its header (TEMPORARY, IF NOT EXISTS, backquoted name), then either its LIKE clause or all its columns and then all its indexes, one per line with the configured indent and separated by commas, followed by all options in order with quoted values quoted; databases and statement lists are rendered likewise in order. If any part cannot be rendered, or the value is not a model object, an error is returned and nothing of that object is written.",
 ["inputs","configurations"],"all tables, databases, statement lists, indents",
 "separator and indent handling is tested for a few small tables only.",
 ["format/format.go","format/option.go"],[("formatTable, formatDatabase, formatTableOption, format, SQL","format/format.go"),("WithIndent","format/option.go")],None,["bytes written by format.SQL"])
p("C15","A schema diff drops and creates exactly the right tables",
 "Comparing two schemas emits one DROP TABLE for every table that only the old one has and the full CREATE TABLE for every table that only the new one has, drops before creations before alterations, and never drops or creates a table that both have. The output is a function of the two schemas alone: repeated runs give identical text.",
 ["inputs"],"all pairs of statement lists",
 "diff tests use one or two tables per side, so set computations, ordering with several tables and run-to-run differences are not exercised.",
 ["diff/diff.go"],[("newDiffCtx, dropTables, createTables, Statements","diff/diff.go")],None,["bytes written by diff.Statements/Strings"])
p("C16","A table diff drops, adds and changes exactly the right columns",
 "For a table in both schemas (column names distinct) the diff emits one DROP COLUMN for each column only in the old table, one ADD COLUMN with its full definition for each column only in the new table, positioned FIRST or AFTER its immediate predecessor in the new table, and one CHANGE COLUMN to the new definition for each common column whose definition differs, and none for equal ones. Drops precede adds precede changes, and an added column is never placed after a column that does not exist at that point of the script.",
 ["inputs"],"all pairs of tables, any number and interleaving of added, removed and changed columns",
 "tests add at most three columns; the dependency ordering among many new columns and the equality test over all attributes are not covered.",
 ["diff/diff.go","model/table.go"],[("dropTableColumns, addTableColumns, writeAddColumn, alterTableColumns, newAlterCtx, alterTables","diff/diff.go")],None,["bytes written by diff.Statements/Strings"])
p("C17","A table diff drops and adds exactly the right indexes in a safe order",
 "For a table in both schemas the diff drops every index whose definition exists only in the old table and adds every index whose definition exists only in the new one, using DROP PRIMARY KEY, DROP FOREIGN KEY (by symbol, else name) or DROP INDEX (by name, else symbol) as its kind requires. Index drops come before column changes with foreign keys before plain indexes; additions come after them with foreign keys last; an index that can be dropped neither by name nor by symbol is an error.",
 ["inputs"],"all pairs of tables with arbitrary index lists",
 "tests change one or two indexes at a time.",
 ["diff/diff.go"],[("dropTableIndexes, addTableIndexes, alterTables","diff/diff.go")],None,["bytes written by diff.Statements/Strings"])
p("C18","Comparing a schema with an equal one yields no changes",
 "If the two schemas have the same tables with the same column and index definitions, the diff emits no DROP, CREATE or ALTER statement: the output is empty or, in transaction mode, just the fixed BEGIN / foreign-key-check / COMMIT envelope. In transaction mode every emitted change lies inside that envelope and without it no envelope is written, independently of how many changes there are.",
 ["inputs","configurations"],"all schemas, both transaction settings",
 "identity is tested on a few fixed schemas; any attribute whose comparison is not reflexive or order-dependent slips through.",
 ["diff/diff.go"],[("Statements","diff/diff.go"),("alterTableColumns equality","diff/diff.go")],None,["bytes written by diff.Statements/Strings"])
p("C19","A schema source URI selects exactly one source or an error",
 "For every URI string, creating a schema source returns either a usable source or an error, never both or neither: `-` is standard input, `mysql://` takes the rest verbatim as DSN, `local-git:` and `file:` (or no scheme, scheme compared ignoring case) take path and query values from the URI, file URIs naming a host other than localhost and all other schemes are errors.",
 ["inputs"],"all URI strings",
 "a few URIs are tested; no test looks at rejected hosts or at the pair (source, error) for arbitrary strings.",
 ["source.go"],[("NewSchemaSource and constructors","source.go")],None,["return values of NewSchemaSource"])
p("C20","Lint prints every statement once, formatted, or fails",
 "Linting a source writes the formatted text of every parsed statement in order, each terminated by a semicolon and consecutive ones separated by one blank line, using the given format options, and nothing else. If reading, parsing, formatting or any write to the destination fails, lint returns an error.",
 ["inputs","fault_sequences"],"all source contents, all points at which a write can fail",
 "lint has no unit tests; failing writers are not exercised anywhere.",
 ["lint/lint.go"],[("Linter.Run","lint/lint.go")],None,["bytes written and error of Linter.Run"])
p("C21","Identity strings cover every attribute that makes definitions differ",
 "The identity of an index is determined by, and changes with, each of its attributes: name, table, symbol, kind, USING type, every column in order with length and sort direction, options, and its reference with table, match, both actions and every column; likewise for references and index columns. Identities of tables, columns, databases and options are determined by their names, and objects of different classes never share one.",
 ["inputs"],"all attribute values, comparing any two objects that differ in one attribute",
 "no test compares identities; a missing attribute makes diff silently ignore a change.",
 ["model/index.go","model/reference.go","model/table.go","model/table_column.go","model/database.go"],[("ID methods","model/*.go")],None,["ID() results; index diffs"])
p("C22","Failures of readers, writers and sources are never swallowed",
 "Formatting, diffing, linting and reading a schema from a file, git, reader or database report success only if every underlying read, write, command and query they performed succeeded; in particular a destination that refuses the output or a source that fails part-way makes the call return an error.",
 ["fault_sequences","inputs"],"every position at which an underlying operation can fail",
 "the tests never inject a failure into a writer, reader, command or query.",
 ["source.go","format/format.go","diff/diff.go","lint/lint.go","parser.go"],[("error returns of WriteSchema, SQL, Statements, Strings, Sources, Run, ParseFile","source.go, format/format.go, diff/diff.go, lint/lint.go, parser.go")],None,["returned errors"])
p("C23","Formatted schemas parse back to the same schema",
 "Formatting a parsed schema and parsing the result gives a schema with the same tables, columns, indexes and options, so that linting is idempotent and a diff of a schema against its formatted form is empty.",
 ["inputs"],"all accepted schema texts",
 "the tests compare the formatted text of fixed samples but never parse it again.",
 ["parser.go","format/format.go"],[("parser","parser.go"),("formatter","format/format.go")],None,["Parse(format(Parse(x)))"])
p("C24","Abandoned parses leave no lexer running and no parse can block forever",
 "Every call to parse terminates, and after it returns - also with an error in the middle of the input - the background lexer it started stops.",
 ["schedules","inputs"],"all inputs, all interleavings of lexer and parser",
 "scheduling of the two goroutines is not controlled by any test.",
 ["parser.go","lexer.go"],[("context cancellation in Parse","parser.go"),("select in emit and Run","lexer.go")],None,["goroutine count"])
import sys
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
