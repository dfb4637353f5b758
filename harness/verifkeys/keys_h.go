//verif:file pkg=internal/verifkeys props=C07,C12,C13,C15,C20,C21,C22,C23,C24,C25,C32,C33,C35,C36,C37,C38,C39,C40,C41,C42
package verifkeys

// Stand-ins for the key derivation libraries: every derived value is an opaque
// term built from what it is derived from, so different inputs never collide.
// The replay runs on the real libraries.

import (
	"crypto/elliptic"
	"errors"
	"strings"

	"github.com/btcsuite/btcd/btcec"
	"github.com/btcsuite/btcd/chaincfg"
	"github.com/btcsuite/btcutil/hdkeychain"
	nd "github.com/tdex-network/tdex-daemon/internal/verifnd"
	"github.com/vulpemventures/go-elements/address"
	"github.com/vulpemventures/go-elements/network"
	"github.com/vulpemventures/go-elements/payment"
	"github.com/vulpemventures/go-elements/slip77"
)

var (
	SeedA = strings.Split("leave dice fine decrease dune ribbon ocean earn lunar account silver admit cheap fringe disorder trade because trade steak clock grace video jacket equal", " ")
	SeedB = strings.Split("legal winner thank year wave sausage worth useful legal winner thank yellow", " ")
)

var mnemonic string

//verif:model github.com/tdex-network/tdex-daemon/config.Set
func mConfigSet(k string, v interface{}) {
	if k != "MNEMONIC" {
		return
	}
	mnemonic, _ = v.(string)
}

//verif:model github.com/tdex-network/tdex-daemon/config.GetMnemonic
func mConfigMnemonic() []string {
	if mnemonic == "" {
		return nil
	}
	return strings.Split(mnemonic, " ")
}

//verif:model github.com/btcsuite/btcutil.Hash160
func mHash160(b []byte) []byte { return []byte(nd.Blob("hash160", string(b))) }

//verif:model github.com/vulpemventures/go-bip39.IsMnemonicValid
func mMnemonicValid(m string) bool {
	return m == strings.Join(SeedA, " ") || m == strings.Join(SeedB, " ")
}

//verif:model github.com/vulpemventures/go-bip39.NewSeed
func mSeed(m, pass string) []byte { return []byte(nd.Blob("seed", m+"|"+pass)) }

type hdNode struct {
	parent string
	step   uint32
}

var (
	nodes = map[*hdkeychain.ExtendedKey]string{}
	privs = map[*btcec.PrivateKey]string{}
	pubs  = map[*btcec.PublicKey]string{}
	binds = map[*payment.Payment]string{}
)

//verif:model github.com/btcsuite/btcutil/hdkeychain.NewMaster
func mMaster(seed []byte, net *chaincfg.Params) (*hdkeychain.ExtendedKey, error) {
	k := &hdkeychain.ExtendedKey{}
	nodes[k] = nd.Blob("master", string(seed))
	return k, nil
}

//verif:model (*github.com/btcsuite/btcutil/hdkeychain.ExtendedKey).Derive
func mDerive(k *hdkeychain.ExtendedKey, i uint32) (*hdkeychain.ExtendedKey, error) {
	c := &hdkeychain.ExtendedKey{}
	nodes[c] = nd.Blob("child", hdNode{nodes[k], i})
	return c, nil
}

//verif:model (*github.com/btcsuite/btcutil/hdkeychain.ExtendedKey).String
func mNodeString(k *hdkeychain.ExtendedKey) string { return nodes[k] }

//verif:model github.com/btcsuite/btcutil/hdkeychain.NewKeyFromString
func mNodeParse(s string) (*hdkeychain.ExtendedKey, error) {
	k := &hdkeychain.ExtendedKey{}
	nodes[k] = s
	return k, nil
}

//verif:model github.com/btcsuite/btcutil/base58.Encode
func m58Encode(b []byte) string { return string(b) }

//verif:model github.com/btcsuite/btcutil/base58.Decode
func m58Decode(s string) []byte { return []byte(s) }

//verif:model (*github.com/btcsuite/btcutil/hdkeychain.ExtendedKey).ECPrivKey
func mNodePriv(k *hdkeychain.ExtendedKey) (*btcec.PrivateKey, error) {
	p := &btcec.PrivateKey{}
	privs[p] = nodes[k]
	return p, nil
}

//verif:model (*github.com/btcsuite/btcutil/hdkeychain.ExtendedKey).ECPubKey
func mNodePub(k *hdkeychain.ExtendedKey) (*btcec.PublicKey, error) {
	p := &btcec.PublicKey{}
	pubs[p] = nd.Blob("pub", nodes[k])
	return p, nil
}

//verif:model (*github.com/btcsuite/btcd/btcec.PrivateKey).Serialize
func mPrivBytes(p *btcec.PrivateKey) []byte { return []byte(privs[p]) }

//verif:model (*github.com/btcsuite/btcd/btcec.PublicKey).SerializeCompressed
func mPubBytes(p *btcec.PublicKey) []byte { return []byte(pubs[p]) }

//verif:model (*github.com/btcsuite/btcd/btcec.PrivateKey).PubKey
func mPubOf(p *btcec.PrivateKey) *btcec.PublicKey {
	q := &btcec.PublicKey{}
	pubs[q] = nd.Blob("pub", privs[p])
	return q
}

//verif:model github.com/btcsuite/btcd/btcec.PrivKeyFromBytes
func mPrivFromBytes(c elliptic.Curve, b []byte) (*btcec.PrivateKey, *btcec.PublicKey) {
	p := &btcec.PrivateKey{}
	privs[p] = string(b)
	return p, mPubOf(p)
}

//verif:model github.com/btcsuite/btcd/btcec.S256
func mCurve() *btcec.KoblitzCurve { return nil }

// Keys of the wallet and 33 bytes starting with 2 or 3 are keys.
//
//verif:model github.com/btcsuite/btcd/btcec.ParsePubKey
func mParsePub(b []byte, c *btcec.KoblitzCurve) (*btcec.PublicKey, error) {
	_, own := nd.Unblob("pub", string(b))
	if !own && (len(b) != 33 || b[0] != 2 && b[0] != 3) {
		return nil, errors.New("not a key")
	}
	p := &btcec.PublicKey{}
	pubs[p] = string(b)
	return p, nil
}

//verif:model github.com/vulpemventures/go-elements/slip77.FromSeed
func mSlipSeed(seed []byte) (*slip77.Slip77, error) {
	return &slip77.Slip77{MasterKey: []byte(nd.Blob("slip77", string(seed)))}, nil
}

//verif:model github.com/vulpemventures/go-elements/slip77.FromMasterKey
func mSlipMaster(k []byte) (*slip77.Slip77, error) { return &slip77.Slip77{MasterKey: k}, nil }

type slipKey struct{ master, script string }

//verif:model (*github.com/vulpemventures/go-elements/slip77.Slip77).DeriveKey
func mSlipDerive(s *slip77.Slip77, script []byte) (*btcec.PrivateKey, *btcec.PublicKey, error) {
	p, q := &btcec.PrivateKey{}, &btcec.PublicKey{}
	privs[p] = nd.Blob("blindkey", slipKey{string(s.MasterKey), string(script)})
	pubs[q] = nd.Blob("pub", privs[p])
	return p, q, nil
}

// keyed lists the public keys with a script; the hash of a key is its position.
var keyed []string

func scriptOf(pub string) []byte {
	at := len(keyed)
	for i, k := range keyed {
		if k == pub {
			at = i
			break
		}
	}
	if at == len(keyed) {
		keyed = append(keyed, pub)
	}
	return append([]byte{0, 20, byte(at + 1)}, make([]byte, 19)...)
}

//verif:model github.com/vulpemventures/go-elements/payment.FromPublicKey
func mPayment(pub *btcec.PublicKey, net *network.Network, blind *btcec.PublicKey) *payment.Payment {
	if pub == nil {
		panic("no key")
	}
	script := scriptOf(pubs[pub])
	return &payment.Payment{Script: append([]byte{0x76}, script[2:]...), WitnessScript: script, PublicKey: pub, BlindingKey: blind, Network: net}
}

type confAddr struct{ script, blind, net string }

//verif:model (*github.com/vulpemventures/go-elements/payment.Payment).ConfidentialWitnessPubKeyHash
func mConfAddr(p *payment.Payment) (string, error) {
	return nd.Blob("address", confAddr{string(p.WitnessScript), pubs[p.BlindingKey], p.Network.Blech32}), nil
}

//verif:model github.com/vulpemventures/go-elements/address.ToOutputScript
func mOutputScript(addr string) ([]byte, error) {
	v, ok := nd.Unblob("address", addr)
	if !ok {
		return nil, errors.New("not an address")
	}
	return []byte(v.(confAddr).script), nil
}

//verif:model github.com/vulpemventures/go-elements/address.FromConfidential
func mFromConfidential(addr string) (*address.ConfidentialAddress, error) {
	v, ok := nd.Unblob("address", addr)
	if !ok {
		return nil, errors.New("not an address")
	}
	return &address.ConfidentialAddress{Address: "of " + addr, BlindingKey: []byte(v.(confAddr).blind)}, nil
}
