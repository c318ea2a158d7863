// Package dicts decides what loading a dictionary gives.
package dicts

import (
	"errors"
	"io"
	"net/http"
	"strings"

	"github.com/eaburns/toaq/dict"
	"github.com/eaburns/toaq/zzverif/netshim"
	"github.com/eaburns/toaq/zzverif/v"
)

// Harnesses lists the entry points.
var Harnesses = map[string]func(){"Load": Load, "Builtin": Builtin}

type source struct {
	s      string
	closed bool
	broken bool
}

func (s *source) Read(p []byte) (int, error) {
	if s.s == "" {
		if s.broken {
			return 0, errors.New("connection reset")
		}
		return 0, io.EOF
	}
	n := copy(p, s.s)
	s.s = s.s[n:]
	return n, nil
}

func (s *source) Close() error { s.closed = true; return nil }

// heads are words as the service has them, and as the dictionary has them.
var heads = [][2]string{
	{"kato", "kato"}, {"Kato", "kato"}, {"káto", "kato"}, {"KÁTO", "kato"}, {"kátoq", "katoq"}, {"jı", "ji"}, {"hoaq", "hoaq"}, {"Hóaq", "hoaq"}, {"", ""},
	{"ruq bio", "ruq bio"}, {"nheq'eo", "nheq'eo"}, {"do/ka", "doka"}, {"mải", "mai"}, {"MẢI", "mai"}, {"jâı", "jai"}, {"ǍI", "ai"}, {"ĭ", "i"},
}

var bodies = []string{"▯ is good", "", "a \"b\" \\ c", "Ünï ▯\n"}

// Load decides what loading a dictionary gives for any answer of the service.
func Load() {
	const url, query = "http://toadua/api", `{"action": "search", "q": "x"}`
	src := &source{}
	kind := v.Force(v.Pick("answer", 11))
	var want []dict.Word
	data := ""
	if kind <= 1 {
		n := v.Force(v.Pick("entries", v.Param("entries", 2)+1))
		for i := 0; i < n; i++ {
			h := heads[v.Force(v.Pick("head", len(heads)))]
			w := dict.Word{Word: h[1], Def: bodies[0], By: "me", Score: i - 1}
			if i == 0 {
				w.Def = bodies[v.Force(v.Pick("body", len(bodies)))]
			}
			want = append(want, w)
			if data != "" {
				data += ", "
			}
			data += `{"head": ` + quote(h[0]) + `, "body": ` + quote(w.Def) + `, "by": "me", "score": ` + []string{"-1", "0", "1", "2"}[i] + `, "other": [1]}`
		}
	}
	fails := true
	text := ""
	msg := ""
	switch kind {
	case 0:
		src.s = `{"success": true, "data": [` + data + `]}`
		fails = false
	case 1:
		src.s = "{ \"extra\": {\"data\": 1},\n\t\"data\": [" + data + `], "success": true, "error": "ignored"}`
		fails = false
	case 2:
		src.s = `{"success": false, "error": "no such thing", "data": []}`
		msg = "no such thing"
	case 3:
		src.s = `{"success": false}`
	case 4:
		src.s = `{"error": ""}`
	case 5:
		src.s = `{"success": true}`
	case 6:
		src.s = `{"success": true, "data": null}`
	case 7:
		src.s = `{"success": true, "data": [{"head": "ka`
		src.broken = v.Force(v.Pick("broken", 2)) == 1
	case 8:
		src.s = `{"success": true, "data": {"head": "kato"}}`
	case 9:
		src.s = ``
		src.broken = v.Force(v.Pick("broken", 2)) == 1
	case 10:
		text = "network is unreachable"
	}
	asked := 0
	netshim.Serve = func(method, u, contentType string, body io.Reader) (*http.Response, error) {
		asked++
		v.Assert(method == "POST" && u == url, "the service is asked at the URL")
		q := ""
		if body != nil {
			b, err := io.ReadAll(body)
			v.Assert(err == nil, "the query can be read")
			q = string(b)
		}
		v.Assert(q == query, "the service gets the query")
		v.Assert(strings.HasPrefix(contentType, "application/json"), "the query is JSON")
		if text != "" {
			return nil, errors.New(text)
		}
		return &http.Response{StatusCode: 200, Body: src, Header: http.Header{}}, nil
	}
	v.Ctx(src.s)
	ws, err, failed := load(url, query)
	v.Assert(!failed, "loading does not fail otherwise than with an error")
	v.Assert(asked == 1, "the service is asked once")
	v.Assert(text != "" || src.closed, "the answer is closed")
	if fails {
		v.Assert(err != nil && ws == nil, "an answer without entries is an error")
		v.Assert(msg == "" || strings.Contains(err.Error(), msg), "the error of the service is told")
		v.Reach("errors")
		return
	}
	v.Assert(err == nil && ws != nil, "an answer with entries is not an error")
	m := map[string]dict.Word{}
	for _, w := range want {
		m[w.Word] = w
	}
	v.Assert(len(ws) == len(m), "every word has an entry")
	for k, w := range m {
		g, ok := ws[k]
		v.Assert(ok && g == w, "the entry of a word is the service's last one, without tones")
	}
	v.Reach("loaded")
}

func load(url, query string) (ws map[string]dict.Word, err error, failed bool) {
	defer func() {
		if recover() != nil {
			failed = true
		}
	}()
	ws, err = dict.Load(url, query)
	return ws, err, false
}

func quote(s string) string {
	q := `"`
	for i := 0; i < len(s); i++ {
		switch c := s[i]; c {
		case '"', '\\':
			q += `\` + s[i:i+1]
		case '\n':
			q += `\n`
		default:
			q += s[i : i+1]
		}
	}
	return q + `"`
}

// Builtin decides that the dictionary that comes with the code is keyed as a loaded one.
func Builtin() {
	n := 0
	for k, w := range dict.Words {
		if k != w.Word {
			v.Ctx(k)
			v.Fail("a word is at its own key")
		}
		for i := 0; i < len(k); i++ {
			if k[i] >= 'A' && k[i] <= 'Z' {
				v.Ctx(k)
				v.Fail("a word is in lower case")
			}
		}
		n++
	}
	v.Assert(n > 1000, "there are words")
	v.Reach("words")
}
