//go:build go1.21

// Package calls calls the methods of a generated client.
package calls

import (
	"context"
	"encoding/xml"
	"errors"
	"io"
	"reflect"
	"strings"

	ws "aqwari.net/xml/internal/zzverif/callsws"
	http "aqwari.net/xml/internal/zzverif/minihttp"
	"aqwari.net/xml/internal/zzverif/vnd"
)

const soapenv = "http://schemas.xmlsoap.org/soap/envelope/"

// server records requests and answers them.
type server struct {
	requests []*http.Request
	bodies   []string
	answer   string
	err      error
	closed   int
	status   int
}

type body struct {
	*strings.Reader
	s *server
}

func (b body) Close() error { b.s.closed++; return nil }

func (s *server) RoundTrip(r *http.Request) (*http.Response, error) {
	s.requests = append(s.requests, r)
	text := ""
	if r.Body != nil {
		b, err := io.ReadAll(r.Body)
		vnd.Assert(err == nil, "the request can be read")
		text = string(b)
	}
	s.bodies = append(s.bodies, text)
	if s.err != nil {
		return nil, s.err
	}
	status := s.status
	if status == 0 {
		status = 200
	}
	return &http.Response{StatusCode: status, Status: itoa(status) + " S", Header: http.Header{}, Body: body{strings.NewReader(s.answer), s}}, nil
}

// el is an element of a message.
type el struct {
	name  xml.Name
	text  string
	attrs []xml.Attr
	kids  []*el
}

func parse(s string) *el {
	d := xml.NewDecoder(strings.NewReader(s))
	root := &el{}
	stack := []*el{root}
	for {
		tok, err := d.Token()
		if err == io.EOF {
			return root
		}
		vnd.Assert(err == nil, "a well formed request")
		top := stack[len(stack)-1]
		switch t := tok.(type) {
		case xml.StartElement:
			k := &el{name: t.Name}
			for _, a := range t.Attr {
				if a.Name.Space != "xmlns" && a.Name.Local != "xmlns" {
					k.attrs = append(k.attrs, a)
				}
			}
			top.kids = append(top.kids, k)
			stack = append(stack, k)
		case xml.EndElement:
			stack = stack[:len(stack)-1]
		case xml.CharData:
			top.text += string(t)
		}
	}
}

// all are the elements below e with a name, in order.
func (e *el) all(name string) []*el {
	var got []*el
	for _, k := range e.kids {
		if k.name.Local == name {
			got = append(got, k)
		}
		got = append(got, k.all(name)...)
	}
	return got
}

// one is the only element with a name.
func (e *el) one(name string) *el {
	got := e.all(name)
	vnd.Assert(len(got) == 1, "every part of the input is sent once")
	return got[0]
}

type key struct{}

const chars = "a <&'>\n"

// op is one of the calls that can be made.
type op struct {
	name         string
	address      string
	verb, action string
	in, out      string
	call         func(c *ws.Client, ctx context.Context, v values) error
	check        func(e *el, v values)
}

func (o op) oneway() bool { return o.out == "" }

type values struct {
	s, t string
	n    int
}

const post, get = "http://post.example/p?x=1&y=%20", "http://get.example/"

func sentText(e *el, v values) { vnd.Assert(e.one("text").text == v.s, "the value of a part") }

var ops = []op{
	{"one", post, "POST", "urn:one", "OneIn", "OneOut", func(c *ws.Client, ctx context.Context, v values) error {
		_, err := c.One(ctx, v.s)
		return err
	}, sentText},
	{"two", post, "POST", "urn:two", "TwoIn", "TwoOut", func(c *ws.Client, ctx context.Context, v values) error {
		_, err := c.Two(ctx, v.n, ws.Rec{R: v.s, N: v.n + 1, K: v.t})
		return err
	}, func(e *el, v values) {
		vnd.Assert(e.one("count").text == itoa(v.n), "the value of a part")
		r := e.one("rec")
		vnd.Assert(r.one("r").text == v.s && r.one("n").text == itoa(v.n+1), "the elements of a part")
		vnd.Assert(v.t == "" && len(r.attrs) == 0 || len(r.attrs) == 1 && r.attrs[0].Value == v.t, "the attributes of a part")
	}},
	{"many", post, "POST", "urn:many", "ManyIn", "None", func(c *ws.Client, ctx context.Context, v values) error {
		return c.Many(ctx, ws.ManyIn{AB: v.s, List: []int{v.n, 7}, Type: ws.Enum(v.t)})
	}, func(e *el, v values) {
		vnd.Assert(e.one("a-b").text == v.s && e.one("type").text == v.t, "the values of the parts")
		vnd.Assert(e.one("list").text == itoa(v.n)+" 7", "the value of a list")
	}},
	{"send", post, "POST", "", "OneIn", "", func(c *ws.Client, ctx context.Context, v values) error { return c.Send(ctx, v.s) }, sentText},
	{"get", get, "GET", "urn:get", "", "OneOut", func(c *ws.Client, ctx context.Context, v values) error {
		_, err := c.Get(ctx, v.s)
		return err
	}, nil},
	{"put", get, "GET", "", "", "OneOut", func(c *ws.Client, ctx context.Context, v values) error {
		_, err := c.Put(ctx, v.s)
		return err
	}, nil},
	{"ping", post, "POST", "urn:ping", "", "OneOut", func(c *ws.Client, ctx context.Context, v values) error {
		_, err := c.Ping(ctx)
		return err
	}, func(e *el, v values) { vnd.Assert(len(e.all("text")) == 0, "there are no parts") }},
	{"poke", post, "POST", "urn:poke", "", "", func(c *ws.Client, ctx context.Context, v values) error { return c.Poke(ctx) },
		func(e *el, v values) { vnd.Assert(len(e.all("text")) == 0, "there are no parts") }},
}

func itoa(n int) string {
	if n < 0 {
		return "-" + itoa(-n)
	}
	if n < 10 {
		return string(rune('0' + n))
	}
	return itoa(n/10) + itoa(n%10)
}

func envelope(s string) string {
	return "<e:Envelope xmlns:e='" + soapenv + "'><e:Header/><e:Body>" + s + "</e:Body></e:Envelope>"
}

func (s *server) sent(o op, i int, v values) {
	r := s.requests[i]
	vnd.Assert(r.URL == o.address, "sent to the address of the port")
	vnd.Assert(r.Method == o.verb, "with the method of the port")
	var actions []string
	for k, v := range r.Header {
		if http.CanonicalHeaderKey(k) == "Soapaction" {
			actions = append(actions, v...)
		}
	}
	vnd.Assert(len(actions) == 1 && actions[0] == o.action, "and the action of the operation")
	vnd.Assert(r.Context().Value(key{}) == i, "in the context of the call")
	if o.check != nil {
		vnd.Observe("request", s.bodies[i])
		e := parse(s.bodies[i])
		vnd.Assert(len(e.kids) == 1 && e.kids[0].name == xml.Name{Space: soapenv, Local: "Envelope"}, "a SOAP envelope")
		b := e.one("Body")
		vnd.Assert(b.name.Space == soapenv, "with a body")
		o.check(b, v)
	}
}

// H_request: two calls of any operations.
func H_request() {
	s := &server{answer: envelope("")}
	c := &ws.Client{HTTPClient: &http.Client{Transport: s}}
	for i := 0; i < 2; i++ {
		o := ops[vnd.Choose(len(ops))]
		v := values{vnd.StringOf(chars, 2-i), "k", 5 - 6*i}
		if i == 1 {
			v.t = ""
		} else {
			v.s += vnd.StringOf(chars, vnd.Tier())
		}
		err := o.call(c, context.WithValue(context.Background(), key{}, i), v)
		vnd.Assert(err == nil, "an answered call succeeds")
		vnd.Assert(len(s.requests) == i+1, "one request for every call")
		vnd.Assert(s.closed == i+1, "the response is closed")
		s.sent(o, i, v)
	}
}

// H_hooks: a request goes through the hooks.
func H_hooks() {
	s := &server{answer: envelope("")}
	o := ops[vnd.Choose(len(ops))]
	c := &ws.Client{HTTPClient: &http.Client{Transport: s}}
	hooked, answered := 0, 0
	if vnd.Choose(2) == 1 {
		c.RequestHook = func(r *http.Request) *http.Request {
			hooked++
			q := *r
			q.Header = http.Header{"SOAPAction": {"other"}}
			return &q
		}
		o.action = "other"
	}
	fault := vnd.Choose(2) == 1
	c.ResponseHook = func(r *http.Response) *http.Response {
		answered++
		if fault {
			q := *r
			q.Body = io.NopCloser(strings.NewReader("<"))
			return &q
		}
		return r
	}
	v := values{"s", "t", 1}
	err := o.call(c, context.WithValue(context.Background(), key{}, 0), v)
	vnd.Assert((err != nil) == fault, "the response of the hook is used")
	vnd.Assert(hooked <= 1 && answered == 1, "hooks are called once")
	s.sent(o, 0, v)
}

// H_errors: errors, malformed answers and faults are errors.
func H_errors() {
	s := &server{}
	o := ops[vnd.Choose(len(ops))]
	c := &ws.Client{HTTPClient: &http.Client{Transport: s}}
	good := envelope("")
	want := ""
	switch vnd.Choose(4) {
	case 0:
		s.err = errors.New("refused")
		want = "refused"
	case 1: // cut short
		s.answer = good[:vnd.Choose(len(good))]
		if s.answer == "" && o.oneway() {
			s.status = 500 // would be no error otherwise
		}
	case 2:
		code, text := vnd.StringOf("ab<", vnd.Choose(3)), vnd.StringOf("xy&", vnd.Choose(3))
		esc := strings.NewReplacer("<", "&lt;", "&", "&amp;")
		s.answer = "<e:Fault>"
		if code != "" {
			s.answer += "<faultcode>" + esc.Replace(code) + "</faultcode>"
		}
		if text != "" {
			s.answer += "<faultstring>" + esc.Replace(text) + "</faultstring>"
		}
		if vnd.Choose(2) == 1 {
			s.answer += "<detail>it <b>is</b> late</detail>"
		}
		s.answer = envelope(s.answer + "</e:Fault>")
		want = text
		err := o.call(c, context.Background(), values{"s", "t", 1})
		vnd.Assert(err != nil, "a fault is an error")
		vnd.Assert(strings.Contains(err.Error(), code), "with the code of the fault")
		vnd.Assert(strings.Contains(err.Error(), text), "and its text")
		return
	case 3:
		s.answer = strings.Replace(good, "</e:Body>", vnd.StringOf("<&>", 1), 1)
	}
	err := o.call(c, context.Background(), values{"s", "t", 1})
	vnd.Assert(err != nil, "a failed call is an error")
	vnd.Assert(strings.Contains(err.Error(), want), "the error of the transport")
}

// H_oneway: calls of operations that may not be answered, to servers that
// answer nothing, something that is no element, or something of their own.
func H_oneway() {
	s := &server{}
	o := ops[vnd.Choose(len(ops))]
	c := &ws.Client{HTTPClient: &http.Client{Transport: s}}
	s.status = []int{200, 202, 204, 299, 199, 300, 404, 500}[vnd.Choose(8)]
	nothing := false
	switch vnd.Choose(4) {
	case 0:
		nothing = true
	case 1:
		s.answer = vnd.StringOf(" \n", 1)
		nothing = true
	case 2:
		s.answer = "<?xml version='1.0'?><!-- -->"
		nothing = true
	case 3:
		s.answer = envelope([]string{"", "<x/>", "<x>a<y k='v'>b</y></x>"}[vnd.Choose(3)])
	}
	v := values{"s", "t", 1}
	err := o.call(c, context.WithValue(context.Background(), key{}, 0), v)
	switch {
	case !nothing:
		vnd.Assert(err == nil, "an answered call succeeds")
	case o.oneway() && s.status >= 200 && s.status < 300:
		vnd.Assert(err == nil, "nothing need be sent in answer to a one-way operation")
	default:
		vnd.Assert(err != nil, "a call without an answer fails")
	}
	vnd.Assert(s.closed == 1, "the response is closed")
	s.sent(o, 0, v)
}

// H_results: the results of a call are the parts of the response.
func H_results() {
	s := &server{}
	c := &ws.Client{HTTPClient: &http.Client{Transport: s}}
	ctx := context.Background()
	// The element around the results has the name of the operation, or
	// one derived from it.
	suffix := []string{"", "Response"}[vnd.Choose(2)]
	space := []string{"", "\n <!-- <x/> -->"}[vnd.Choose(2)]
	wrap := func(op, msg string, parts ...string) string {
		if vnd.Choose(2) == 1 { // default namespace
			s := "<" + op + suffix + " xmlns='w'>" + space + "<" + msg + ">"
			for _, p := range parts {
				s += space + strings.NewReplacer("<P:", "<", "</P:", "</").Replace(p)
			}
			return envelope(space + s + "</" + msg + ">" + space + "</" + op + suffix + ">")
		}
		s := "<P:" + op + suffix + " xmlns:P='w'><P:" + msg + ">"
		for _, p := range parts {
			s += space + p
		}
		return envelope(s + "</P:" + msg + "></P:" + op + suffix + ">" + space)
	}
	x := vnd.StringOf("ab&<\n", 2)
	esc := strings.NewReplacer("<", "&lt;", "&", "&amp;").Replace(x)
	switch vnd.Choose(3) {
	case 0:
		s.answer = wrap("one", "OneOut", "<P:answer>"+esc+"</P:answer>")
		got, err := c.One(ctx, "q")
		vnd.Observe("operation", "one")
		vnd.Assert(err == nil, "a response is decoded")
		vnd.Assert(got == x, "the result is the part of the response")
	case 1:
		s.answer = wrap("get", "OneOut", "<P:answer>"+esc+"</P:answer>")
		got, err := c.Get(ctx, "q")
		vnd.Observe("operation", "get")
		vnd.Assert(err == nil, "a response is decoded")
		vnd.Assert(got == x, "the result is the part of the response")
	case 2:
		flag := vnd.Choose(2) == 1
		parts := []string{"<P:flag>" + []string{"false", "true"}[b2i(flag)] + "</P:flag>", "<P:word>" + esc + "</P:word>"}
		if vnd.Choose(2) == 1 {
			parts[0], parts[1] = parts[1], parts[0]
		}
		s.answer = wrap("two", "TwoOut", parts...)
		got, err := c.Two(ctx, 1, ws.Rec{})
		vnd.Observe("operation", "two")
		vnd.Assert(err == nil, "a response is decoded")
		vnd.Assert(got.Flag == flag && string(got.Word) == x, "the results are the parts of the response")
	}
}

// via makes a call, and another one with what the first one returned.
func via[T any](call func(c *ws.Client, ctx context.Context, v T) (T, error), want ...T) func(c *ws.Client, i int) bool {
	return func(c *ws.Client, i int) bool {
		var zero T
		got, err := call(c, context.Background(), zero)
		if err != nil {
			return false
		}
		if want != nil && !reflect.DeepEqual(got, want[i]) {
			return false
		}
		_, err = call(c, context.Background(), got)
		return err == nil
	}
}

var echoes = []struct {
	name  string
	texts []string
	call  func(c *ws.Client, i int) bool
}{
	{"date", []string{"2004-02-28Z"}, via((*ws.Client).Echodate)},
	{"hexBinary", []string{"00ff"}, via((*ws.Client).EchohexBinary, []byte{0, 255})},
	{"base64Binary", []string{"AAEC"}, via((*ws.Client).Echobase64Binary, []byte{0, 1, 2})},
	{"boolean", []string{"true", "false"}, via((*ws.Client).Echoboolean, true, false)},
	{"int", []string{"-2147483648", "0", "17"}, via((*ws.Client).Echoint, -1<<31, 0, 17)},
	{"unsignedByte", []string{"0", "255"}, via((*ws.Client).EchounsignedByte, 0, 255)},
	{"unsignedLong", []string{"18446744073709551615"}, via((*ws.Client).EchounsignedLong, 1<<64-1)},
	{"decimal", []string{"-1.25", "0"}, via((*ws.Client).Echodecimal, -1.25, 0)},
	{"anyURI", []string{"urn:x"}, via((*ws.Client).EchoanyURI, "urn:x")},
	{"NMTOKEN", []string{"a.b"}, via((*ws.Client).EchoNMTOKEN, "a.b")},
}

// H_kinds: a value received in a result is sent as the same text.
func H_kinds() {
	e := echoes[vnd.Choose(len(echoes))]
	i := vnd.Choose(len(e.texts))
	text := e.texts[i]
	vnd.Observe("type", e.name)
	s := &server{answer: envelope("<r xmlns='w'><Out" + e.name + "><q>" + text + "</q></Out" + e.name + "></r>")}
	c := &ws.Client{HTTPClient: &http.Client{Transport: s}}
	ok := e.call(c, i)
	sent := ""
	if ok {
		vnd.Observe("sent", s.bodies[1])
		sent = parse(s.bodies[1]).one("p").text
	}
	vnd.Assert(ok && sent == text, "a value is received, and sent again")
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}
