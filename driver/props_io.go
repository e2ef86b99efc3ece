package main

import (
	"bytes"
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"io/ioutil"
	"net"
	"net/url"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"

	"github.com/schemalex/schemalex"
	"github.com/schemalex/schemalex/diff"
	"github.com/schemalex/schemalex/format"
	"github.com/schemalex/schemalex/lint"
	"github.com/schemalex/schemalex/model"
)

func init() {
	props["C19"] = c19
	props["C20"] = c20
	props["C22"] = c22
}

// scratch directory with a git repository, and a file
var (
	scratchOnce sync.Once
	scratchDir  string
	scratchGit  bool
)

const fileText = "CREATE TABLE f (id INT);\n"
const gitText = "CREATE TABLE g (id INT);\n"

func scratch() string {
	scratchOnce.Do(func() {
		scratchDir = os.Getenv("ZZ_SCRATCH")
		if scratchDir == "" {
			scratchDir, _ = ioutil.TempDir("", "zzverif")
		}
		ioutil.WriteFile(filepath.Join(scratchDir, "f.sql"), []byte(fileText), 0644)
		d := filepath.Join(scratchDir, "repo")
		os.MkdirAll(d, 0755)
		ioutil.WriteFile(filepath.Join(d, "g.sql"), []byte(gitText), 0644)
		run := func(a ...string) error {
			c := exec.Command("git", a...)
			c.Dir = d
			c.Env = append(os.Environ(), "GIT_CONFIG_GLOBAL=/dev/null", "GIT_CONFIG_SYSTEM=/dev/null", "GIT_AUTHOR_NAME=x", "GIT_AUTHOR_EMAIL=x", "GIT_COMMITTER_NAME=x", "GIT_COMMITTER_EMAIL=x")
			return c.Run()
		}
		scratchGit = run("init", "-q") == nil && run("add", ".") == nil && run("commit", "-qm", "x") == nil && run("tag", "v1") == nil
		if scratchGit {
			ioutil.WriteFile(filepath.Join(d, "g.sql"), []byte("later"), 0644)
			run("commit", "-qam", "y")
		}
	})
	return scratchDir
}

func isNilSrc(s schemalex.SchemaSource) bool { return s == nil }

// writes tells what a source is: its dynamic type and value
func descr(s schemalex.SchemaSource) string { return fmt.Sprintf("%T %+v", s, s) }

func c19(g G) *Fail {
	dir := scratch()
	var uri string
	type expect int
	const (
		expErr expect = iota
		expFile
		expGit
		expMysql
		expStdin
	)
	var exp expect
	var path, file, commit string
	caseMix := func(s string) string {
		b := []byte(s)
		for i := range b {
			if g.p(30) {
				b[i] = strings.ToUpper(s[i : i+1])[0]
			}
		}
		return string(b)
	}
	switch g.Intn(9) {
	case 0:
		uri, exp = "-", expStdin
	case 1:
		path = g.one("user:pw@tcp(localhost:3306)/db", "", "user@/", "user:p%2Fw@tcp(1.2.3.4)/x?parseTime=true&loc=UTC", "bad dsn", "a/b?c#d%zz")
		uri, exp = "mysql://"+path, expMysql
	case 2:
		path, exp = g.one(dir+"/f.sql", dir+"/missing.sql", "/a b/c", "/x/é"), expFile
		uri = caseMix("file") + "://" + g.one("", "localhost") + (&url.URL{Path: path}).EscapedPath()
	case 3:
		path, exp = g.one(dir+"/f.sql", "rel/path.sql", "x.sql"), expFile
		uri = path
	case 4:
		uri, exp = "file://"+g.one("example.com", "localhost:80", "127.0.0.1", "a", "user@host")+dir+"/f.sql", expErr
	case 5:
		path = g.one(dir+"/repo", dir, "/nowhere", "/a b")
		file, commit = g.one("g.sql", "missing", "a b&c", ""), g.one("v1", "HEAD", "nope", "a/b", "")
		v := url.Values{}
		v.Set("file", file)
		v.Set("commitish", commit)
		uri, exp = caseMix("local-git")+"://"+g.one("", "", "host")+(&url.URL{Path: path}).EscapedPath()+"?"+v.Encode(), expGit
	case 6:
		uri, exp = g.one("http", "ftp", "mysqlx", "git", "Mysql", "MYSQL", "localgit", "files", "stdin")+"://"+dir+"/f.sql", expErr
	case 7:
		uri, exp = g.one("%zz", ":", "://", "file://%zz", "\x7f", "http://[::1", "local-git://a b/"), expErr
	case 8:
		uri = g.str()
		u, err := url.Parse(uri)
		if uri == "-" || strings.HasPrefix(uri, "mysql://") {
			return nil
		}
		switch {
		case err != nil || u.Scheme != "" || u.Host != "" && u.Host != "localhost":
			exp = expErr
		default:
			exp, path = expFile, u.Path
		}
	}
	in := fmt.Sprintf("NewSchemaSource(%q)", uri)
	s, err := schemalex.NewSchemaSource(uri)
	if (err == nil) == isNilSrc(s) {
		return failf(in, "source %v and error %v", s, err)
	}
	if exp == expErr {
		if err == nil {
			return failf(in, "no error, but %s", descr(s))
		}
		return nil
	}
	if err != nil {
		return failf(in, "error %v", err)
	}
	var want schemalex.SchemaSource
	switch exp {
	case expStdin:
		want = schemalex.NewReaderSource(os.Stdin)
	case expMysql:
		want = schemalex.NewMySQLSource(path)
	case expFile:
		want = schemalex.NewLocalFileSource(path)
	case expGit:
		want = schemalex.NewLocalGitSource(path, file, commit)
	}
	if descr(s) != descr(want) {
		return failf(in, "the source is %s instead of %s", descr(s), descr(want))
	}
	var b bytes.Buffer
	switch {
	case exp == expFile && path == dir+"/f.sql":
		if err := s.WriteSchema(&b); err != nil || b.String() != fileText {
			return failf(in, "reads %q, error %v", b.String(), err)
		}
	case exp == expGit && path == dir+"/repo" && file == "g.sql" && scratchGit && (commit == "v1" || commit == "HEAD"):
		w := gitText
		if commit == "HEAD" {
			w = "later"
		}
		if err := s.WriteSchema(&b); err != nil || b.String() != w {
			return failf(in, "reads %q, error %v", b.String(), err)
		}
	}
	return nil
}

// ---- readers and writers that fail

var errIO = errors.New("injected failure")

type failWriter struct {
	b      bytes.Buffer
	n      int // fails after n bytes; -1: never
	calls  int // fails at this call; -1: never
	failed bool
}

func (w *failWriter) Write(p []byte) (int, error) {
	if w.calls == 0 || w.n >= 0 && w.b.Len()+len(p) > w.n {
		k := 0
		if w.calls != 0 {
			k = w.n - w.b.Len()
		}
		w.b.Write(p[:k])
		w.failed = true
		return k, errIO
	}
	if w.calls > 0 {
		w.calls--
	}
	w.b.Write(p)
	return len(p), nil
}

func (g G) writer() *failWriter {
	w := &failWriter{n: -1, calls: -1}
	switch g.Intn(4) {
	case 0:
		w.n = g.Intn(200)
	case 1:
		w.n = g.Intn(20)
	case 2:
		w.calls = g.Intn(6)
	}
	return w
}

type failReader struct {
	s    string
	fail bool
	g    G
}

func (r *failReader) Read(p []byte) (int, error) {
	if len(r.s) == 0 {
		if r.fail {
			return 0, errIO
		}
		return 0, io.EOF
	}
	n := 1 + r.g.Intn(len(p))
	if n > len(r.s) {
		n = len(r.s)
	}
	copy(p, r.s[:n])
	r.s = r.s[n:]
	if r.fail && len(r.s) == 0 && r.g.p(50) {
		return n, errIO
	}
	return n, nil
}

type errSource struct{ text string }

func (s errSource) WriteSchema(w io.Writer) error {
	io.WriteString(w, s.text)
	return errIO
}

func c20(g G) *Fail {
	src := g.text(g.tSchema(""), g.p(50))
	if g.p(10) {
		src = g.text(g.mutate(g.tSchema("")), true)
	}
	in := fmt.Sprintf("%s\n(%q)", src, src)
	var o []lint.Option
	var fo []format.Option
	if g.p(60) {
		u, n := g.one(" ", "\t", "xy"), g.Intn(4)
		o = append(o, lint.WithIndent(u, n))
		fo = append(fo, format.WithIndent(u, n))
	}
	stmts, perr := schemalex.New().Parse([]byte(src))
	var want bytes.Buffer
	var ferr error
	for i, s := range stmts {
		if i > 0 {
			want.WriteString("\n\n")
		}
		var b bytes.Buffer
		if ferr = format.SQL(&b, s, fo...); ferr != nil {
			break
		}
		want.Write(b.Bytes())
		want.WriteString(";")
	}
	r := &failReader{s: src, fail: g.p(10), g: g}
	var source schemalex.SchemaSource = schemalex.NewReaderSource(r)
	rfail := r.fail
	if g.p(5) {
		source, rfail = errSource{src}, true
	}
	w := g.writer()
	err := lint.New().Run(context.Background(), source, w, o...)
	if err == nil {
		switch {
		case rfail:
			return failf(in, "no error although the source failed")
		case perr != nil:
			return failf(in, "no error although the text cannot be parsed: %v", perr)
		case ferr != nil:
			return failf(in, "no error although a statement cannot be formatted: %v", ferr)
		case w.failed:
			return failf(in, "no error although the destination failed after %q", w.b.String())
		case w.b.String() != want.String():
			return failf(in, "found    %q\nexpected %q", w.b.String(), want.String())
		}
		return nil
	}
	if !rfail && perr == nil && ferr == nil && !w.failed {
		return failf(in, "error %v", err)
	}
	return nil
}

func c22(g G) *Fail {
	dir := scratch()
	w := g.writer()
	chk := func(in string, err error, other bool) *Fail {
		if err == nil && w.failed {
			return failf(in, "no error although the destination failed after %q", w.b.String())
		}
		if err == nil && other {
			return failf(in, "no error although the input failed; written: %q", w.b.String())
		}
		return nil
	}
	switch g.Intn(9) {
	case 0, 1:
		var v interface{}
		switch g.Intn(7) {
		case 0:
			v = buildTab(g.tab(g.str, g.str))
		case 1:
			v = buildCol(g.col(g.str, g.str))
		case 2:
			v = buildIdx(g.idx(g.str), "t")
		case 3:
			v = buildRef(g.ref(g.str))
		case 4:
			v = model.NewDatabase(g.str())
		case 5:
			v = buildStmts([]PTab{g.tab(g.str, g.str), g.tab(g.str, g.str)})
		case 6:
			if v = g.colType(); g.p(50) {
				v = model.NewTableOption("k", g.str(), g.p(50))
			}
		}
		return chk(fmt.Sprintf("format.SQL of %T %+v", v, v), format.SQL(w, v), false)
	case 2:
		a, b := []PTab{g.dtab("a"), g.dtab("b")}, []PTab{g.dtab("a"), g.dtab("c")}
		bad := g.p(20)
		if bad {
			if g.p(50) {
				b[0].Cols = append(b[0].Cols, PCol{Name: "brand new", Type: model.ColumnTypeEnum})
			} else {
				b[1].Idx = append(b[1].Idx, PIdx{Kind: model.IndexKindNormal, Name: sp("x")})
			}
		}
		err := diff.Statements(w, buildStmts(a), buildStmts(b), diff.WithTransaction(g.p(50)))
		return chk("diff.Statements from\n"+tabs(a)+"to\n"+tabs(b), err, bad)
	case 3:
		a, b := g.text(g.tSchema(""), true), g.text(g.tSchema(""), true)
		if g.p(30) {
			a = g.text(g.mutate(g.tSchema("")), true)
		}
		if g.p(30) {
			b = g.text(g.mutate(g.tSchema("")), true)
		}
		_, e1 := schemalex.New().ParseString(a)
		_, e2 := schemalex.New().ParseString(b)
		in := fmt.Sprintf("diff from %q to %q", a, b)
		if g.p(50) {
			return chk("diff.Strings "+in, diff.Strings(w, a, b), e1 != nil || e2 != nil)
		}
		var sa, sb schemalex.SchemaSource = schemalex.NewReaderSource(strings.NewReader(a)), schemalex.NewReaderSource(strings.NewReader(b))
		f := false
		switch g.Intn(4) {
		case 0:
			sa, f = errSource{a}, true
		case 1:
			sb, f = errSource{b}, true
		}
		return chk("diff.Sources "+in, diff.Sources(w, sa, sb), f || e1 != nil || e2 != nil)
	case 4:
		txt := g.text(g.tSchema(""), true)
		r := &failReader{s: txt, fail: g.p(50), g: g}
		f := r.fail
		err := schemalex.NewReaderSource(r).WriteSchema(w)
		if err == nil && w.b.String() != txt {
			return failf(txt, "the reader source gives %q", w.b.String())
		}
		return chk(fmt.Sprintf("WriteSchema of a reader of %q", txt), err, f)
	case 5:
		p := g.one(dir+"/f.sql", dir+"/missing", dir, dir+"/f.sql/x")
		err := schemalex.NewLocalFileSource(p).WriteSchema(w)
		if err == nil && w.b.String() != fileText {
			return failf(p, "the file source gives %q", w.b.String())
		}
		if f := chk("WriteSchema of file "+p, err, p != dir+"/f.sql"); f != nil {
			return f
		}
		_, err = schemalex.New().ParseFile(p)
		if (err == nil) != (p == dir+"/f.sql") {
			return failf("ParseFile "+p, "error %v", err)
		}
		return nil
	case 6:
		if g.p(80) || !scratchGit {
			return nil
		}
		d := g.one(dir+"/repo", dir+"/repo", dir+"/missing")
		file, commit := g.one("g.sql", "g.sql", "nope.sql"), g.one("v1", "v1", "nope")
		bad := d != dir+"/repo" || file != "g.sql" || commit != "v1"
		err := schemalex.NewLocalGitSource(d, file, commit).WriteSchema(w)
		if err == nil && !bad && w.b.String() != gitText {
			return failf(commit+":"+file, "the git source gives %q", w.b.String())
		}
		return chk("WriteSchema of git "+d+" "+commit+":"+file, err, bad)
	case 7:
		if g.p(50) {
			return nil
		}
		return mysqlCase(g, w)
	case 8:
		src := g.text(g.tSchema(""), true)
		f := g.p(30)
		var s schemalex.SchemaSource = schemalex.NewReaderSource(strings.NewReader(src))
		if f {
			s = errSource{src}
		}
		return chk("lint of "+src, lint.New().Run(context.Background(), s, w), f)
	}
	return nil
}

// ---- a minimal MySQL server

type fakeDB struct {
	tables []string
	fault  string // "", tables-error, rows-error, rows-drop, null, create-error, create-null, create-drop, auth
	at     int
}

func lenenc(s string) []byte {
	if len(s) < 251 {
		return append([]byte{byte(len(s))}, s...)
	}
	return append([]byte{0xfc, byte(len(s)), byte(len(s) >> 8)}, s...)
}

func (d *fakeDB) serve(c net.Conn) {
	defer c.Close()
	seq := byte(0)
	send := func(p []byte) {
		h := []byte{byte(len(p)), byte(len(p) >> 8), byte(len(p) >> 16), seq}
		seq++
		c.Write(append(h, p...))
	}
	recv := func() ([]byte, bool) {
		h := make([]byte, 4)
		if _, err := io.ReadFull(c, h); err != nil {
			return nil, false
		}
		p := make([]byte, int(h[0])|int(h[1])<<8|int(h[2])<<16)
		seq = h[3] + 1
		_, err := io.ReadFull(c, p)
		return p, err == nil
	}
	ok := []byte{0, 0, 0, 2, 0, 0, 0}
	eofP := []byte{0xfe, 0, 0, 2, 0}
	fail := append([]byte{0xff, 0x10, 0x04}, "#HY000injected"...)
	const caps = 1 | 4 | 8 | 512 | 0x2000 | 0x8000 | 0x80000
	hs := append([]byte{10}, "5.7.0\x00"...)
	hs = append(hs, 1, 0, 0, 0)
	hs = append(hs, "abcdefgh\x00"...)
	hs = append(hs, byte(caps&255), byte(caps>>8&255), 33, 2, 0, byte(caps>>16&255), byte(caps>>24&255), 21)
	hs = append(hs, make([]byte, 10)...)
	hs = append(hs, "ijklmnopqrst\x00"...)
	hs = append(hs, "mysql_native_password\x00"...)
	send(hs)
	if _, k := recv(); !k {
		return
	}
	if d.fault == "auth" {
		send(fail)
		return
	}
	send(ok)
	colDef := func(n string) []byte {
		var p []byte
		for _, s := range []string{"def", "", "", "", n, n} {
			p = append(p, lenenc(s)...)
		}
		p = append(p, 0x0c, 33, 0, 0, 1, 0, 0, 0xfd, 0, 0, 0, 0, 0)
		return p
	}
	for {
		p, k := recv()
		if !k || len(p) == 0 || p[0] == 1 {
			return
		}
		if p[0] != 3 {
			send(ok)
			continue
		}
		s := string(p[1:])
		switch {
		case s == "SHOW TABLES":
			if d.fault == "tables-error" {
				send(fail)
				continue
			}
			send([]byte{1})
			send(colDef("t"))
			send(eofP)
			stop := false
			for i, t := range d.tables {
				if i == d.at && d.fault == "rows-error" {
					send(fail)
					stop = true
					break
				}
				if i == d.at && d.fault == "rows-drop" {
					return
				}
				if i == d.at && d.fault == "null" {
					send([]byte{0xfb})
					continue
				}
				send(lenenc(t))
			}
			if !stop {
				send(eofP)
			}
		case strings.HasPrefix(s, "SHOW CREATE TABLE "):
			n := strings.Trim(s[len("SHOW CREATE TABLE "):], "`")
			i := 0
			for k := range d.tables {
				if d.tables[k] == n {
					i = k
				}
			}
			if i == d.at && d.fault == "create-error" {
				send(fail)
				continue
			}
			if i == d.at && d.fault == "create-drop" {
				return
			}
			send([]byte{2})
			send(colDef("Table"))
			send(colDef("Create Table"))
			send(eofP)
			if i == d.at && d.fault == "create-none" {
				send(eofP)
				continue
			}
			if i == d.at && d.fault == "create-null" {
				send(append(lenenc(n), 0xfb))
			} else {
				send(append(lenenc(n), lenenc(createText(n))...))
			}
			send(eofP)
		default:
			send(ok)
		}
	}
}

func createText(n string) string { return "CREATE TABLE `" + n + "` (id INT)" }

func mysqlCase(g G, w *failWriter) *Fail {
	d := &fakeDB{}
	for i := g.Intn(4); i >= 0; i-- {
		d.tables = append(d.tables, fmt.Sprintf("t%d", i))
	}
	d.at = g.Intn(len(d.tables))
	d.fault = g.one("", "", "tables-error", "rows-error", "rows-drop", "null", "create-error", "create-null", "create-drop", "create-none", "auth")
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return nil
	}
	defer l.Close()
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			go d.serve(c)
		}
	}()
	in := fmt.Sprintf("WriteSchema of a database with tables %q, fault %q at table %d", d.tables, d.fault, d.at)
	os.Stderr.Close()
	err = schemalex.NewMySQLSource("u:p@tcp(" + l.Addr().String() + ")/db").WriteSchema(w)
	if err == nil && w.failed {
		return failf(in, "no error although the destination failed after %q", w.b.String())
	}
	if err == nil && d.fault != "" {
		return failf(in, "no error; written: %q", w.b.String())
	}
	if d.fault == "" {
		if err != nil && !w.failed {
			return failf(in, "error %v", err)
		}
		var t []string
		for _, n := range d.tables {
			t = append(t, createText(n)+";")
		}
		if want := strings.Join(t, "\n\n"); err == nil && w.b.String() != want {
			return failf(in, "found    %q\nexpected %q", w.b.String(), want)
		}
	}
	return nil
}

var _ = binary.LittleEndian
