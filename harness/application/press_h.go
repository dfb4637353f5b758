//verif:file pkg=internal/core/application props=C22,C24,C37,C40
package application

import (
	"encoding/json"
	"strings"

	"github.com/tdex-network/tdex-daemon/internal/core/ports"
	nd "github.com/tdex-network/tdex-daemon/internal/verifnd"
)

//verif:model encoding/json.Marshal
func mJSON(v interface{}) ([]byte, error) { return []byte(nd.Blob("json", v)), nil }

type topic struct{ code int }

func (t topic) Code() int     { return t.code }
func (t topic) Label() string { return "topic" + string([]byte{byte('0' + t.code)}) }

// press records what is published.
type press struct {
	ports.SecurePubSub
	topics, messages []string
}

func (p *press) TopicsByCode() map[int]ports.Topic {
	m := map[int]ports.Topic{}
	for i := 0; i < 6; i++ {
		m[i] = topic{i}
	}
	return m
}

func (p *press) Publish(topic, message string) error {
	p.topics, p.messages = append(p.topics, topic), append(p.messages, message)
	return nil
}

func number(v interface{}) uint64 {
	if n, ok := v.(json.Number); ok {
		u := uint64(0)
		for _, c := range []byte(n.String()) {
			u = u*10 + uint64(c-'0')
		}
		return u
	}
	return v.(uint64)
}

func fields(v interface{}) map[string]interface{} {
	m := map[string]interface{}{}
	switch f := v.(type) {
	case map[string]interface{}:
		return f
	case map[string]string:
		for k, x := range f {
			m[k] = x
		}
	case map[string]uint64:
		for k, x := range f {
			m[k] = x
		}
	}
	return m
}

func read(message string) map[string]interface{} {
	if nd.Symbolic() {
		v, _ := nd.Unblob("json", message)
		return fields(v)
	}
	m := map[string]interface{}{}
	d := json.NewDecoder(strings.NewReader(message))
	d.UseNumber()
	must(d.Decode(&m))
	return m
}
