package schemalex

import (
	"bytes"
	"io"
	"os"
	"strings"

	g "github.com/schemalex/schemalex/internal/gocon"
)

// what net/url finds in a text
func urlBad(s string) bool      { return g.UF("url.bad", s) == "true" }
func urlScheme(s string) string { return g.UF("url.scheme", s) }
func urlHost(s string) string   { return g.UF("url.host", s) }
func urlPath(s string) string   { return g.UF("url.path", s) }
func urlQuery(s, k string) string {
	return g.UF("url.get", g.UF("url.rawquery", s), k)
}

const (
	srcNone = iota
	srcStdin
	srcMySQL
	srcGit
	srcFile
)

// sourceKind is the kind of source a URI asks for
func sourceKind(uri string) int {
	if uri == "-" {
		return srcStdin
	}
	if strings.HasPrefix(uri, "mysql://") {
		return srcMySQL
	}
	if urlBad(uri) {
		return srcNone
	}
	scheme := strings.ToLower(urlScheme(uri))
	if scheme == "local-git" {
		return srcGit
	}
	if (scheme == "file" || scheme == "") && (urlHost(uri) == "" || urlHost(uri) == "localhost") {
		return srcFile
	}
	return srcNone
}

func isReader(s SchemaSource, r io.Reader) bool {
	x, ok := s.(*readerSource)
	return ok && x != nil && x.src == r
}

func isMySQL(s SchemaSource, dsn string) bool {
	x, ok := s.(mysqlSource)
	return ok && string(x) == dsn
}

func isGit(s SchemaSource, dir, file, commitish string) bool {
	x, ok := s.(*localGitSource)
	return ok && x != nil && x.dir == dir && x.file == file && x.commitish == commitish
}

func isFile(s SchemaSource, path string) bool {
	x, ok := s.(localFileSource)
	return ok && string(x) == path
}

//gocon:contract NewSchemaSource
//gocon:props C19
func NewSchemaSource_(uri string) {
	kind := sourceKind(uri)
	src, err := NewSchemaSource(uri)
	g.Ensures("C19 exactly one of source and error", (src != nil) != (err != nil))
	g.Ensures("C19 an error exactly for what is no source", (err != nil) == (kind == srcNone))
	g.Ensures("C19 standard input", g.Implies(kind == srcStdin, isReader(src, os.Stdin)))
	g.Ensures("C19 the DSN is taken verbatim", g.Implies(kind == srcMySQL, isMySQL(src, uri[8:])))
	g.Ensures("C19 git repository", g.Implies(kind == srcGit, isGit(src, urlPath(uri), urlQuery(uri, "file"), urlQuery(uri, "commitish"))))
	g.Ensures("C19 local file", g.Implies(kind == srcFile, isFile(src, urlPath(uri))))
}

//gocon:contract NewReaderSource
//gocon:props C19
func NewReaderSource_(r io.Reader) {
	s := NewReaderSource(r)
	g.Ensures("C19 reads from the reader", isReader(s, r))
}

//gocon:contract NewMySQLSource
//gocon:props C19
func NewMySQLSource_(dsn string) {
	s := NewMySQLSource(dsn)
	g.Ensures("C19 keeps the DSN", isMySQL(s, dsn))
}

//gocon:contract NewLocalFileSource
//gocon:props C19
func NewLocalFileSource_(path string) {
	s := NewLocalFileSource(path)
	g.Ensures("C19 keeps the path", isFile(s, path))
}

//gocon:contract NewLocalGitSource
//gocon:props C19
func NewLocalGitSource_(dir, file, commitish string) {
	s := NewLocalGitSource(dir, file, commitish)
	g.Ensures("C19 keeps directory, file and commit", isGit(s, dir, file, commitish))
}

func isMem(w io.Writer) bool {
	_, ok := w.(*bytes.Buffer)
	return ok
}

//gocon:contract (*readerSource).WriteSchema
//gocon:props C22 C19
func readerSource_WriteSchema(s *readerSource, dst io.Writer) {
	g.Requires(s != nil && s.src != nil && dst != nil && !g.Same(s.src, dst))
	w := g.Written(dst)
	all := g.Content(s.src)
	f := g.ExtFail()
	err := s.WriteSchema(dst)
	g.Ensures("C22 failures are reported", g.Implies(err == nil, g.ExtFail() == f))
	g.Ensures("C22 everything is delivered", g.Implies(err == nil, g.Written(dst) == w+all))
	g.Ensures("C22 no error without a failure", g.Implies(err != nil, g.ExtFail()))
}

//gocon:contract localFileSource.WriteSchema
//gocon:props C22 C19
func localFileSource_WriteSchema(s localFileSource, dst io.Writer) {
	g.Requires(dst != nil)
	w := g.Written(dst)
	f := g.ExtFail()
	err := s.WriteSchema(dst)
	g.Ensures("C22 failures are reported", g.Implies(err == nil, g.ExtFail() == f))
	g.Ensures("C22 the file is delivered", g.Implies(err == nil, g.Written(dst) == w+g.UF("file", string(s))))
	g.Ensures("C22 no error without a failure", g.Implies(err != nil, g.ExtFail()))
}

//gocon:contract localGitSource.WriteSchema
//gocon:props C22 C19
func localGitSource_WriteSchema(s localGitSource, dst io.Writer) {
	g.Requires(dst != nil)
	w := g.Written(dst)
	f := g.ExtFail()
	err := s.WriteSchema(dst)
	g.Ensures("C22 failures are reported", g.Implies(err == nil, g.ExtFail() == f))
	g.Ensures("C22 the version of the file is delivered", g.Implies(err == nil,
		g.Written(dst) == w+g.UF("cmdout", s.dir, g.UF("cmdargs", "git", "show", s.commitish+":"+s.file))))
	g.Ensures("C22 no error without a failure", g.Implies(err != nil, g.ExtFail()))
}

// connecting to a server is out of reach: that a failure is reported is
// assumed
//
//gocon:contract mysqlSource.open
//gocon:props C22
//gocon:trusted
func mysqlSource_open(s mysqlSource) {
	f := g.ExtFail()
	db, err := s.open()
	g.Ensures("C22 a connection or a failure", (db != nil) == (err == nil) && g.ExtFail() == (f || err != nil))
}

// cell is what the server answers in a column of a row
func cell(query string, row, col int) string { return g.UF("cell", query, row, col) }

func createText(k int) string {
	return cell("SHOW CREATE TABLE `"+cell("SHOW TABLES", k+1, 0)+"`", 0, 1) + ";"
}

// mysqlText is the answer for n tables
func mysqlText(n int) string {
	return g.Concat(n, func(k int) string { return sep(k, "\n\n") + createText(k) })
}

func sep(k int, s string) string {
	if k == 0 {
		return ""
	}
	return s
}

//gocon:contract mysqlSource.WriteSchema
//gocon:props C22 C19
func mysqlSource_WriteSchema(s mysqlSource, dst io.Writer) {
	g.Requires(dst != nil)
	w := g.Written(dst)
	f := g.ExtFail()
	err := s.WriteSchema(dst)
	g.Ensures("C22 failures are reported", g.Implies(err == nil, g.ExtFail() == f))
	g.Ensures("C22 no error without a failure", g.Implies(err != nil, g.ExtFail()))
	g.Ensures("C22 all tables are delivered", g.Implies(err == nil, g.Written(dst) == w+mysqlText(g.Rows("SHOW TABLES"))))
}
