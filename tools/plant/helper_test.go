package demo

import (
	"crypto/sha256"
	"testing"

	"github.com/btcsuite/btcd/btcec"
	"github.com/cosmos/cosmos-sdk/types/bech32"
	"github.com/fdymylja/tmos/core/apiserver"
	coinv1 "github.com/fdymylja/tmos/core/coin/v1alpha1"
	"github.com/fdymylja/tmos/core/meta"
	"github.com/fdymylja/tmos/core/rbac"
	rbacv1 "github.com/fdymylja/tmos/core/rbac/v1alpha1"
	"github.com/fdymylja/tmos/runtime"
	"github.com/fdymylja/tmos/runtime/authentication/user"
	"github.com/fdymylja/tmos/runtime/module"
	"github.com/fdymylja/tmos/x/authn"
	authnv1 "github.com/fdymylja/tmos/x/authn/v1alpha1"
	cryptov1 "github.com/fdymylja/tmos/x/authn/crypto/secp256k1"
	"github.com/fdymylja/tmos/x/bank"
	bankv1 "github.com/fdymylja/tmos/x/bank/v1alpha1"
	"github.com/fdymylja/tmos/x/distribution"
	"github.com/tendermint/tendermint/abci/types"
	tmproto "github.com/tendermint/tendermint/proto/tendermint/types"
	"golang.org/x/crypto/ripemd160"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/anypb"
)

var _ = apiserver.Module{}
var _ = meta.SingletonID
var _ = rbacv1.ExternalAccountRoleID

const chain = "demo-chain"

type acct struct {
	priv *btcec.PrivateKey
	pub  []byte
	addr string
}

func key(i byte) *acct {
	h := sha256.Sum256([]byte{i, 'd'})
	p, pub := btcec.PrivKeyFromBytes(btcec.S256(), h[:])
	a := &acct{priv: p, pub: pub.SerializeCompressed()}
	s := sha256.Sum256(a.pub)
	r := ripemd160.New()
	r.Write(s[:])
	a.addr, _ = bech32.ConvertAndEncode("test", r.Sum(nil))
	return a
}

func (a *acct) sign(msg []byte) []byte {
	h := sha256.Sum256(msg)
	s, err := a.priv.Sign(h[:])
	if err != nil {
		panic(err)
	}
	out := make([]byte, 64)
	r, ss := s.R.Bytes(), s.S.Bytes()
	copy(out[32-len(r):32], r)
	copy(out[64-len(ss):], ss)
	return out
}

func coins(x ...string) []*coinv1.Coin {
	var out []*coinv1.Coin
	for i := 0; i < len(x); i += 2 {
		out = append(out, &coinv1.Coin{Denom: x[i], Amount: x[i+1]})
	}
	return out
}

type signer struct {
	k        *acct
	seq, num uint64
}

type txSpec struct {
	msgs    []proto.Message
	signers []signer
	fee     []*coinv1.Coin
	payer   string
	memo    string
	timeout uint64
	mode    authnv1.SignMode
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func mb(m proto.Message) []byte {
	b, err := proto.MarshalOptions{Deterministic: true}.Marshal(m)
	must(err)
	return b
}

func (t txSpec) raw() *authnv1.TxRaw {
	body := &authnv1.TxBody{Memo: t.memo, TimeoutHeight: t.timeout}
	for _, m := range t.msgs {
		body.Messages = append(body.Messages, &anypb.Any{TypeUrl: "/" + string(m.ProtoReflect().Descriptor().FullName()), Value: mb(m)})
	}
	mode := t.mode
	if mode == 0 {
		mode = authnv1.SignMode_SIGN_MODE_DIRECT
	}
	ai := &authnv1.AuthInfo{Fee: &authnv1.Fee{Amount: t.fee, Payer: t.payer}}
	for _, s := range t.signers {
		ai.SignerInfos = append(ai.SignerInfos, &authnv1.SignerInfo{
			PublicKey: &anypb.Any{TypeUrl: "/tmos.x.authn.crypto.v1alpha1.PubKey", Value: mb(&cryptov1.PubKey{Key: s.k.pub})},
			ModeInfo:  &authnv1.ModeInfo{Sum: &authnv1.ModeInfo_Single_{Single: &authnv1.ModeInfo_Single{Mode: mode}}},
			Sequence:  s.seq,
		})
	}
	raw := &authnv1.TxRaw{BodyBytes: mb(body), AuthInfoBytes: mb(ai)}
	for _, s := range t.signers {
		doc := &authnv1.SignDoc{BodyBytes: raw.BodyBytes, AuthInfoBytes: raw.AuthInfoBytes, ChainId: chain, AccountNumber: s.num}
		raw.Signatures = append(raw.Signatures, s.k.sign(mb(doc)))
	}
	return raw
}

func (t txSpec) bytes() []byte { return mb(t.raw()) }

type app struct {
	rt *runtime.Runtime
	runtime.ABCIApplication
	t *testing.T
}

// newApp starts a chain where accounts 0.. of the keys hold "1000test" and "50foo".
func newApp(t *testing.T, keys int, extra ...module.Module) *app {
	b := runtime.NewBuilder()
	auth := authn.NewModule()
	b.AddModule(auth)
	b.AddModule(rbac.NewModule())
	b.SetDecoder(auth.GetTxDecoder())
	b.AddModule(bank.NewModule())
	b.AddModule(distribution.NewModule())
	for _, m := range extra {
		b.AddModule(m)
	}
	rt, err := b.Build()
	must(err)
	a := &app{rt, runtime.NewABCIApplication(rt), t}
	a.InitChain(types.RequestInitChain{ChainId: chain})
	for i := 0; i < keys; i++ {
		must(rt.Deliver(user.NewUsersFromString("authn"), &authnv1.MsgCreateAccount{Account: &authnv1.Account{Address: key(byte(i)).addr}}))
		must(rt.Deliver(user.NewUsersFromString("bank"), &bankv1.MsgSetBalance{Address: key(byte(i)).addr, Amount: coins("test", "1000", "foo", "50")}))
	}
	must(rt.Deliver(user.NewUsersFromString("bank"), &bankv1.MsgSetBalance{Address: "fee_collector"}))
	a.begin(1)
	return a
}

func (a *app) begin(h int64) {
	a.BeginBlock(types.RequestBeginBlock{Header: tmproto.Header{Height: h}})
}

func (a *app) deliver(x txSpec) types.ResponseDeliverTx {
	return a.DeliverTx(types.RequestDeliverTx{Tx: x.bytes()})
}

func (a *app) balance(addr, denom string) string {
	b := new(bankv1.Balance)
	if err := a.rt.Get(meta.NewStringID(addr), b); err != nil {
		return "0"
	}
	for _, c := range b.Balance {
		if c.Denom == denom {
			return c.Amount
		}
	}
	return "0"
}

func (a *app) account(addr string) *authnv1.Account {
	x := new(authnv1.Account)
	if err := a.rt.Get(meta.NewStringID(addr), x); err != nil {
		return nil
	}
	return x
}

func send(from, to string, amt ...string) proto.Message {
	return &bankv1.MsgSendCoins{FromAddress: from, ToAddress: to, Amount: coins(amt...)}
}
