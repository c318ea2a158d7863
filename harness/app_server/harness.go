package app_server

import (
	"errors"
	"io"
	"net/http"
	"strings"

	"github.com/eaburns/peggy/peg"
	"github.com/eaburns/pretty"
	"github.com/eaburns/toaq/ast"
	"github.com/eaburns/toaq/zzverif/osshim"
	"github.com/eaburns/toaq/zzverif/samples"
	"github.com/eaburns/toaq/zzverif/tmplshim"
	"github.com/eaburns/toaq/zzverif/v"
)

// Harnesses lists the entry points.
var Harnesses = map[string]func(){"Requests": Requests}

// recorder is a response.
type recorder struct {
	head   http.Header
	code   int
	body   strings.Builder
	broken bool
}

func (r *recorder) Header() http.Header { return r.head }

func (r *recorder) WriteHeader(c int) {
	if r.code == 0 {
		r.code = c
	}
}

func (r *recorder) Write(p []byte) (int, error) {
	if r.code == 0 {
		r.code = 200
	}
	if r.broken {
		return 0, errors.New("connection reset")
	}
	return r.body.Write(p)
}

// source is a request's body.
type source struct {
	r      *strings.Reader
	broken bool
}

func (s *source) Read(p []byte) (int, error) {
	if s.broken {
		return 0, errors.New("connection reset")
	}
	return s.r.Read(p)
}

func (s *source) Close() error { return nil }

var methods = []string{"POST", "GET", "HEAD", "PUT", "DELETE", "PATCH", "OPTIONS", "", "post", "get"}

// Requests decides what the server answers to any sequence of requests.
func Requests() {
	osshim.Reset("", false)
	n := v.Param("requests", 1)
	for i := 0; i < n; i++ {
		request(i+1 < n)
	}
	v.Reach("answered")
}

// fewTexts are those of all requests but the last.
var fewTexts = []int{0, 8, 13, 30}

func request(few bool) {
	m := methods[v.Force(v.Pick("method", len(methods)))]
	w := &recorder{head: http.Header{}}
	body := &source{}
	var text string
	if m == "POST" {
		if few && v.Param("few", 1) == 1 {
			text = samples.Texts[fewTexts[v.Force(v.Pick("text", len(fewTexts)))]]
		} else {
			text = samples.Texts[v.Force(v.Pick("text", len(samples.Texts)))]
		}
		body.broken = v.Force(v.Pick("broken body", 2)) == 1
	} else {
		text = samples.Texts[0]
	}
	body.r = strings.NewReader(text)
	if m == "GET" {
		k := v.Force(v.Pick("template", 3))
		tmplshim.Missing, tmplshim.Bad = k == 1, k == 2
	}
	w.broken = v.Force(v.Pick("broken connection", 2)) == 1
	v.Ctx(m + " " + text)
	if serve(w, &http.Request{Method: m, Body: body, Header: http.Header{}}) {
		v.Fail("no request fails the handler")
	}
	got := w.body.String()
	if w.broken {
		return
	}
	if m != "POST" {
		// AST and Parse are compared by value below.
		v.Out(got)
	}
	switch {
	case m == "GET" && !tmplshim.Missing && !tmplshim.Bad:
		v.Assert(w.code == 0 || w.code == 200, "GET succeeds")
		v.Assert(got == tmplshim.Page, "GET answers the page")
		v.Reach("page")
	case m == "GET":
		v.Assert(w.code == 500, "GET reports that there is no page")
	case m == "POST" && body.broken:
		v.Assert(w.code == 500, "POST reports that the text cannot be read")
	case m == "POST":
		v.Assert(w.code == 0 || w.code == 200, "POST succeeds")
		check(text, got)
	default:
		v.Assert(w.code == 405, "other methods are refused")
		v.Assert(!strings.Contains(got, "{"), "other methods get no result")
		v.Reach("refused")
	}
}

func serve(w http.ResponseWriter, r *http.Request) (failed bool) {
	defer func() {
		if recover() != nil {
			failed = true
		}
	}()
	rootHandler(w, r)
	return false
}

func check(text, got string) {
	f, ok := object(got)
	v.Assert(ok, "the answer to POST is a JSON object of strings")
	r := samples.Of(text)
	if r.Failed {
		v.Assert(len(f) == 1 && f["Error"] == utf8ed(r.Err), "the answer for a rejected text is the error of the parser")
		v.Reach("rejected")
		return
	}
	_, err := f["Error"]
	v.Assert(!err, "the answer for a text of the language has no error")
	v.Assert(f["Braces"] == r.Braces, "Braces is the bracketed form of the text")
	v.Assert(f["Text"] == r.Words, "Text has the words of the text")
	v.Assert(f["AST"] == pretty.String(r.Text), "AST is the syntax tree of the text")
	tree, e := ast.NewParser(text).Tree()
	v.Assert(e == nil && f["Parse"] == peg.Pretty(tree), "Parse is the parse tree of the text")
	l, ok := f["Logic"]
	v.Assert(ok, "Logic is there")
	v.Out(f["Braces"] + "|" + f["Text"] + "|" + f["Parse"])
	switch {
	case r.Unsupported:
		v.Assert(l != "" && l != "fragment", "Logic says why a text has no meaning")
		v.Reach("unsupported")
	case r.Meaning == "":
		v.Assert(l == "fragment", "Logic tells fragments")
		v.Reach("fragment")
	default:
		v.Assert(l == r.Meaning, "Logic is the meaning of the text")
		v.Out(l)
		v.Reach("meaning")
	}
}

// utf8ed is the string as JSON carries it.
func utf8ed(s string) string { return strings.ToValidUTF8(s, "\ufffd") }

// object reads a JSON object of strings.
func object(s string) (map[string]string, bool) {
	p := &reader{s: s}
	f := map[string]string{}
	p.blank()
	if !p.take('{') {
		return nil, false
	}
	p.blank()
	if p.take('}') {
		return f, p.end()
	}
	for {
		p.blank()
		k, ok := p.str()
		if !ok {
			return nil, false
		}
		p.blank()
		if !p.take(':') {
			return nil, false
		}
		p.blank()
		x, ok := p.str()
		if !ok {
			return nil, false
		}
		if _, dup := f[k]; dup {
			return nil, false
		}
		f[k] = x
		p.blank()
		if p.take(',') {
			continue
		}
		return f, p.take('}') && p.end()
	}
}

type reader struct {
	s string
	i int
}

func (p *reader) take(c byte) bool {
	if p.i < len(p.s) && p.s[p.i] == c {
		p.i++
		return true
	}
	return false
}

func (p *reader) blank() {
	for p.take(' ') || p.take('\n') || p.take('\t') || p.take('\r') {
	}
}

func (p *reader) end() bool { p.blank(); return p.i == len(p.s) }

func (p *reader) str() (string, bool) {
	if !p.take('"') {
		return "", false
	}
	var b []byte
	for p.i < len(p.s) {
		c := p.s[p.i]
		p.i++
		switch {
		case c == '"':
			return string(b), true
		case c < ' ':
			return "", false
		case c != '\\':
			b = append(b, c)
			continue
		}
		if p.i >= len(p.s) {
			return "", false
		}
		c = p.s[p.i]
		p.i++
		switch c {
		case 'n':
			b = append(b, '\n')
		case 't':
			b = append(b, '\t')
		case 'r':
			b = append(b, '\r')
		case 'b':
			b = append(b, '\b')
		case 'f':
			b = append(b, '\f')
		case 'u':
			if p.i+4 > len(p.s) {
				return "", false
			}
			x := rune(0)
			for _, d := range p.s[p.i : p.i+4] {
				k := strings.IndexByte("0123456789abcdef", byte(d)|0x20)
				if d >= '0' && d <= '9' {
					k = int(d - '0')
				}
				if k < 0 {
					return "", false
				}
				x = x*16 + rune(k)
			}
			p.i += 4
			b = append(b, string(x)...)
		default:
			b = append(b, c)
		}
	}
	return "", false
}

var _ = io.EOF
