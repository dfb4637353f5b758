//verif:file pkg=internal/core/application props=C22,C23,C37
package application

import (
	"bytes"

	"github.com/tdex-network/tdex-daemon/internal/core/domain"
	nd "github.com/tdex-network/tdex-daemon/internal/verifnd"
	"github.com/tdex-network/tdex-daemon/internal/veriftx"
	"github.com/vulpemventures/go-elements/transaction"
)

// spendable checks that a stored coin has all it takes to spend its output,
// which the key given reads.
func spendable(c domain.Unspent, out *transaction.TxOutput, key []byte) {
	_, was, err := c.ToUtxo().Parse()
	ok := err == nil && was != nil
	nd.Assert(ok, "a stored coin cannot be spent")
	if !ok {
		return
	}
	nd.Assert(bytes.Equal(was.Script, out.Script) && bytes.Equal(was.Asset, out.Asset) && bytes.Equal(was.Value, out.Value), "a stored coin is not the output")
	if !out.IsConfidential() {
		zero := make([]byte, 32)
		nd.Assert(len(c.ValueBlinder) == 0 || bytes.Equal(c.ValueBlinder, zero), "a stored coin has blinders its output does not have")
		nd.Assert(len(c.AssetBlinder) == 0 || bytes.Equal(c.AssetBlinder, zero), "a stored coin has blinders its output does not have")
		return
	}
	nd.Cover("confidential")
	value, asset := veriftx.Blinders(out, key)
	nd.Assert(bytes.Equal(c.ValueBlinder, value) && bytes.Equal(c.AssetBlinder, asset), "a stored coin has other blinders than its output")
	nd.Assert(bytes.Equal(c.Nonce, out.Nonce), "a stored coin has another nonce than its output")
}
