//verif:file pkg=internal/verifpset props=C15,C16,C19,C20,C21,C22,C24,C33,C37,C38,C39,C40
package verifpset

// A partial transaction printed in base64 is an opaque text holding it.

import (
	"errors"

	nd "github.com/tdex-network/tdex-daemon/internal/verifnd"
	"github.com/vulpemventures/go-elements/address"
	"github.com/vulpemventures/go-elements/pset"
)

//verif:model github.com/vulpemventures/go-elements/pset.NewPsetFromBase64
func mDecode(s string) (*pset.Pset, error) {
	v, ok := nd.Unblob("pset", s)
	if !ok {
		return nil, errors.New("not a pset")
	}
	p := v.(pset.Pset)
	for i := range p.Inputs {
		if !p.Inputs[i].IsSane() {
			return nil, errors.New("not sane")
		}
	}
	return &p, nil
}

//verif:model (*github.com/vulpemventures/go-elements/pset.Pset).ToBase64
func mEncode(p *pset.Pset) (string, error) { return nd.Blob("pset", *p), nil }

// As the library does, without the rest of its package.
//
//verif:model github.com/vulpemventures/go-elements/address.GetScriptType
func mScriptType(script []byte) int {
	switch script[0] {
	case 0:
		if len(script[2:]) == 20 {
			return address.P2WpkhScript
		}
		return address.P2WshScript
	case 0xa9:
		return address.P2ShScript
	case 0x76:
		return address.P2PkhScript
	}
	return address.P2MultiSigScript
}
