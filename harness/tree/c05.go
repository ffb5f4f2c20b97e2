package tree

import (
	"bytes"
	"errors"
	"io"

	"aqwari.net/xml/internal/zzverif/vnd"
	"aqwari.net/xml/xmltree"
)

var errFull = errors.New("destination full")

// failing fails its k'th write, or the one that goes over a byte limit.
type failing struct {
	buf    bytes.Buffer
	writes int
	failAt int // the write that fails (0: none)
	limit  int // bytes accepted (-1: any)
	once   bool
	failed bool
	err    error // what it fails with
}

func (f *failing) Write(p []byte) (int, error) {
	f.writes++
	if f.failAt != 0 && (f.writes == f.failAt || f.writes > f.failAt && !f.once) {
		f.failed = true
		return 0, f.err
	}
	if f.limit >= 0 && f.buf.Len()+len(p) > f.limit && !(f.once && f.failed) {
		f.failed = true
		n := f.limit - f.buf.Len()
		f.buf.Write(p[:n])
		return n, f.err
	}
	return f.buf.Write(p)
}

var encDocs = []string{
	"<r/>",
	"<r>text</r>",
	"<r a='1'><b/></r>",
	"<r xmlns='u' xmlns:p='v'><p:a k='x&amp;y'>text</p:a><b><c/>\n<d>&lt;</d></b></r>",
}

func checkEncode(doc string, f *failing, cyclic bool) {
	el, err := xmltree.Parse([]byte(doc))
	vnd.Assert(err == nil, "parse")
	if cyclic {
		if len(el.Children) > 0 {
			el.Children[len(el.Children)-1].Children = el.Children
		}
	}
	want := xmltree.Marshal(el)
	f.err = []error{errFull, io.EOF, io.ErrShortWrite, io.ErrClosedPipe}[vnd.Choose(4)]
	vnd.Observe("doc", doc)
	err = xmltree.Encode(f, el)
	if f.failed {
		vnd.Cover("failed")
		vnd.Assert(err != nil, "a write failed and Encode returned nil")
	} else {
		vnd.Cover("succeeded")
		vnd.Assert(err == nil, "no write failed and Encode returned an error")
		vnd.Assert(f.buf.String() == string(want), "Encode wrote something else than Marshal")
	}
}

// H_encode_nth: the k'th write fails, once or for ever, any k.
func H_encode_nth() {
	i := vnd.Choose(len(encDocs))
	k := vnd.Int(0, 60+40*vnd.Tier())
	once := vnd.Bool()
	checkEncode(encDocs[i], &failing{failAt: k, limit: -1, once: once}, false)
}

// H_encode_limit: the destination accepts only some number of bytes.
func H_encode_limit() {
	i := vnd.Choose(len(encDocs))
	n := vnd.Int(0, 150)
	once := vnd.Bool()
	checkEncode(encDocs[i], &failing{limit: n, once: once}, false)
}

// H_encode_cycle: a tree that contains itself; the note about it is output too.
func H_encode_cycle() {
	k := vnd.Int(0, 60)
	once := vnd.Bool()
	checkEncode("<r a='1'><b/></r>", &failing{failAt: k, limit: -1, once: once}, true)
}

// H_encode_text: content of any kind.
func H_encode_text() {
	n := vnd.Choose(3)
	t := vnd.StringOf("a \n", n)
	k := vnd.Int(0, 20)
	checkEncode("<r><a>"+t+"</a></r>", &failing{failAt: k, limit: -1, once: vnd.Bool()}, false)
}

var _ io.Writer = (*failing)(nil)
