//verif:file pkg=internal/verifchain props=C42 keep=github.com/tdex-network/tdex-daemon/pkg/explorer/esplora
package verifchain

// A node of the chain that is asked over HTTP.

import (
	"encoding/json"
	"errors"
	"io"
	"io/ioutil"
	"net/http"
	"net/http/httptest"
	"net/url"
	"strings"

	nd "github.com/tdex-network/tdex-daemon/internal/verifnd"
	"github.com/tdex-network/tdex-daemon/internal/veriftx"
	"github.com/tdex-network/tdex-daemon/pkg/bufferutil"
	"github.com/tdex-network/tdex-daemon/pkg/explorer"
	"github.com/tdex-network/tdex-daemon/pkg/explorer/esplora"
	"github.com/vulpemventures/go-elements/transaction"
)

const base, quote = "5ac9f65c0efcc4775e0baec4ec03abdde22473cd3cf33c0419ca290e0751b225", "1adcc1e8564a6f01c957a0f7fcb8badce9c126d790550e6d6817aa752369ae5f"

func must(err error) {
	if err != nil {
		panic(err)
	}
}

type object = map[string]interface{}

// node answers requests by what they ask for; what it has no answer to is
// refused.
type node struct {
	answers map[string]string
	posts   map[string]string
	sent    []string
	height  string
	refusal string
	code    int
	cut     bool // the connection breaks
}

var theNode *node

func (n *node) answer(method, path, body string) (int, string) {
	if path == "/blocks/tip/height" {
		return 200, n.height
	}
	m := n.answers
	if method == "POST" {
		n.sent = append(n.sent, path+" "+body)
		m = n.posts
	} else {
		nd.Assert(method == "GET", "a request of another kind")
	}
	if a, ok := m[path]; ok {
		return 200, a
	}
	if n.refusal == "" {
		return 404, "unknown 100% of it"
	}
	return n.code, n.refusal
}

func (n *node) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	b, err := ioutil.ReadAll(r.Body)
	must(err)
	if n.cut {
		panic(http.ErrAbortHandler)
	}
	code, text := n.answer(r.Method, r.URL.Path, string(b))
	w.WriteHeader(code)
	w.Write([]byte(text))
}

type body struct{ text string }

func (b body) Read([]byte) (int, error) { panic("read at once") }
func (b body) Close() error             { return nil }

//verif:model net/http.NewRequest
func mNewRequest(method, to string, in io.Reader) (*http.Request, error) {
	if !strings.HasPrefix(to, "http://node/") {
		return nil, errors.New("bad address")
	}
	text := ""
	if in != nil {
		text = nd.Field(in, "s").(string)
	}
	return &http.Request{Method: method, URL: &url.URL{Path: strings.TrimPrefix(to, "http://node")}, Header: http.Header{}, Body: body{text}}, nil
}

//verif:model (net/http.Header).Set
func mSet(h http.Header, k, v string) { h[k] = []string{v} }

//verif:model (*net/http.Client).Do
func mDo(c *http.Client, r *http.Request) (*http.Response, error) {
	if theNode.cut {
		return nil, errors.New("connection lost")
	}
	code, text := theNode.answer(r.Method, r.URL.Path, r.Body.(body).text)
	return &http.Response{StatusCode: code, Body: body{text}}, nil
}

//verif:model io/ioutil.ReadAll
func mReadAll(r io.Reader) ([]byte, error) { return []byte(r.(body).text), nil }

//verif:model encoding/json.Marshal
func mMarshal(v interface{}) ([]byte, error) { return []byte(nd.Blob("json", v)), nil }

//verif:model encoding/json.Unmarshal
func mUnmarshal(data []byte, v interface{}) error {
	x, ok := nd.Unblob("json", string(data))
	if !ok || !nd.JSONInto(v, x) {
		return errors.New("malformed")
	}
	return nil
}

//verif:model (*github.com/vulpemventures/go-elements/transaction.Transaction).VirtualSize
func mSize(t *transaction.Transaction) int { return 100 + len(t.Outputs) }

//verif:model (*github.com/vulpemventures/go-elements/transaction.Transaction).Weight
func mWeight(t *transaction.Transaction) int { return 400 + len(t.Outputs) }

func text(v interface{}) string {
	b, err := json.Marshal(v)
	must(err)
	return string(b)
}

// start runs a node and a service that asks it.
func start() (*node, explorer.Service, func()) {
	n := &node{height: "77", answers: map[string]string{}, posts: map[string]string{}}
	theNode = n
	at, stop := "http://node", func() {}
	if !nd.Symbolic() {
		s := httptest.NewServer(n)
		at, stop = s.URL, s.Close
	}
	svc, err := esplora.NewService(at, 5000)
	must(err)
	return n, svc, stop
}

// refuse makes the node refuse with another status and a text that looks like an answer.
func (n *node) refuse(text string) {
	if k := nd.Choice("refusal", 4); k > 0 {
		n.refusal, n.code = text, []int{404, 503, 202}[k-1]
	}
}

// paid is a transaction with a plain output and one only a key reads.
func paid(number uint32, asset string, value uint64, key []byte) *transaction.Transaction {
	t := veriftx.New(number)
	t.Inputs = append(t.Inputs, veriftx.Spend(strings.Repeat("ab", 32), 3, []byte{1, 2}))
	t.Outputs = []*transaction.TxOutput{
		veriftx.Plain(asset, value, veriftx.Foreign(byte(number))),
		veriftx.Hidden(asset, value, veriftx.Foreign(byte(number+10)), key),
	}
	return t
}

// coin is what the node tells about an unspent output.
func coin(id string, vout int, out *transaction.TxOutput, asset string, value uint64, hidden bool) object {
	c := object{"txid": id, "vout": vout, "status": object{"confirmed": true}}
	if hidden {
		c["assetcommitment"], c["valuecommitment"] = bufferutil.CommitmentFromBytes(out.Asset), bufferutil.CommitmentFromBytes(out.Value)
	} else {
		c["asset"], c["value"] = asset, value
	}
	return c
}
