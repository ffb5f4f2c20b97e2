// Package minihttp stands for net/http in generated clients: it has what they
// use of it, and passes requests to a transport.
package minihttp

import (
	"context"
	"errors"
	"io"
)

type Header map[string][]string

// CanonicalHeaderKey is the key under which the methods of a Header find
// values.
func CanonicalHeaderKey(k string) string {
	b := []byte(k)
	for i, c := range b {
		switch {
		case c >= 'a' && c <= 'z' && (i == 0 || b[i-1] == '-'):
			b[i] = c - 'a' + 'A'
		case c >= 'A' && c <= 'Z' && i > 0 && b[i-1] != '-':
			b[i] = c - 'A' + 'a'
		}
	}
	return string(b)
}

func (h Header) Set(k, v string) { h[CanonicalHeaderKey(k)] = []string{v} }

func (h Header) Add(k, v string) {
	k = CanonicalHeaderKey(k)
	h[k] = append(h[k], v)
}

func (h Header) Del(k string) { delete(h, CanonicalHeaderKey(k)) }

func (h Header) Values(k string) []string { return h[CanonicalHeaderKey(k)] }

func (h Header) Get(k string) string {
	if v := h[CanonicalHeaderKey(k)]; len(v) > 0 {
		return v[0]
	}
	return ""
}

type Request struct {
	Method string
	URL    string
	Header Header
	Body   io.Reader
	ctx    context.Context
}

func NewRequest(method, uri string, body io.Reader) (*Request, error) {
	return NewRequestWithContext(context.Background(), method, uri, body)
}

func NewRequestWithContext(ctx context.Context, method, uri string, body io.Reader) (*Request, error) {
	if ctx == nil {
		return nil, errors.New("net/http: nil Context")
	}
	return &Request{Method: method, URL: uri, Header: Header{}, Body: body, ctx: ctx}, nil
}

func (r *Request) WithContext(ctx context.Context) *Request {
	if ctx == nil {
		panic("nil context")
	}
	c := *r
	c.ctx = ctx
	return &c
}

func (r *Request) Context() context.Context { return r.ctx }

type Response struct {
	Status     string
	StatusCode int
	Header     Header
	Body       io.ReadCloser
	Request    *Request
}

// A RoundTripper answers requests.
type RoundTripper interface {
	RoundTrip(*Request) (*Response, error)
}

type Client struct{ Transport RoundTripper }

var DefaultClient = &Client{}

func (c *Client) Do(r *Request) (*Response, error) {
	if c.Transport == nil {
		return nil, errors.New("no transport")
	}
	rsp, err := c.Transport.RoundTrip(r)
	if rsp != nil {
		rsp.Request = r
	}
	return rsp, err
}
