// Package netshim stands in for the HTTP client: requests go to Serve.
package netshim

import (
	"io"
	"net/http"

	"github.com/eaburns/toaq/zzverif/v"
)

// Serve answers a request.
var Serve func(method, url, contentType string, body io.Reader) (*http.Response, error)

type transport struct{}

func (transport) RoundTrip(r *http.Request) (*http.Response, error) {
	var body io.Reader
	if r.Body != nil {
		body = r.Body
	}
	return Serve(r.Method, r.URL.String(), r.Header.Get("Content-Type"), body)
}

func init() {
	if !v.Symbolic() {
		http.DefaultTransport = transport{}
	}
}

// Post is what the engine runs for http.Post.
func Post(url, contentType string, body io.Reader) (*http.Response, error) {
	r, err := Serve("POST", url, contentType, body)
	if err != nil {
		return nil, err
	}
	return r, nil
}
