//go:build go1.25

package worlds

import (
	"bytes"
	"crypto/ed25519"
	"crypto/rand"
	"crypto/sha256"
	"crypto/tls"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	nethttp "net/http"
	"strings"
	"time"

	"github.com/mutecomm/mute/serviceguard/client"
	"github.com/mutecomm/mute/serviceguard/client/packetproto"
	"github.com/mutecomm/mute/serviceguard/client/walletstore"
	"github.com/mutecomm/mute/serviceguard/common/signkeys"
	"github.com/mutecomm/mute/serviceguard/common/token"
	"github.com/mutecomm/mute/serviceguard/common/types"
	"github.com/mutecomm/mute/serviceguard/common/walletauth"
	"github.com/mutecomm/mute/zzverif/sched"
	"github.com/mutecomm/mute/zzverif/shim/http"
	simsql "github.com/mutecomm/mute/zzverif/shim/sql"
	"github.com/mutecomm/mute/zzverif/sim"
	"github.com/ronperry/cryptoedge/eccutil"
	"github.com/ronperry/cryptoedge/jjm"
)

func init() {
	register(&sim.World{Name: "wallet", Props: []string{"C05", "C06", "C07", "C08"}, Body: walletWorld, Bubble: true,
		Nontrivial: func(r *sim.Run) bool { return r.Counter["debited"] > 0 }})
}

// issuer is the simulated service guard and wallet server.
type edPair struct {
	pub  [32]byte
	priv [64]byte
}

func newEd() *edPair {
	p, s, err := ed25519.GenerateKey(rand.Reader)
	if err != nil {
		panic(err)
	}
	k := &edPair{}
	copy(k.pub[:], p)
	copy(k.priv[:], s)
	return k
}

type issuer struct {
	usage  string
	signer *edPair
	gen    *signkeys.KeyGenerator
	kp     *signkeys.KeyPair
	srv    *jjm.GenericBlindingServer
	curve  *eccutil.Curve
	params map[string]jjm.BlindingParamServer
	srvs   map[string]*jjm.GenericBlindingServer // by key id
}

func newIssuer(usage string) *issuer {
	is := &issuer{usage: usage, signer: newEd(), params: map[string]jjm.BlindingParamServer{}}
	is.gen = signkeys.New(packetproto.Curve, packetproto.Rand, packetproto.HashFunc)
	is.gen.Usage = usage
	is.gen.PublicKey = &is.signer.pub
	is.gen.PrivateKey = &is.signer.priv
	is.srvs = map[string]*jjm.GenericBlindingServer{}
	is.curve = eccutil.SetCurve(packetproto.Curve, packetproto.Rand, packetproto.HashFunc)
	is.newKey()
	return is
}

func (is *issuer) newKey() {
	kp, err := is.gen.GenKey()
	if err != nil {
		panic(err)
	}
	is.kp = kp
	is.srv = jjm.NewGenericBlindingServer(kp.PrivateKey, &kp.PublicKey.PublicKey, is.curve)
	is.srvs[string(kp.PublicKey.KeyID[:])] = is.srv
}

func (is *issuer) newParams(canReissue bool) []byte {
	pub, priv, err := is.srv.GetParams()
	if err != nil {
		panic(err)
	}
	id := make([]byte, 16)
	rand.Read(id)
	is.params[string(id)] = priv.(jjm.BlindingParamServer)
	pk, err := is.kp.PublicKey.Marshal()
	if err != nil {
		panic(err)
	}
	b, err := types.Params{PublicKey: pk, PublicParams: pub.(jjm.BlindingParamClient), PrivateParams: id, CanReissue: canReissue}.Marshal()
	if err != nil {
		panic(err)
	}
	return b
}

// signToken issues a token directly (the wallet server is its own client).
func (is *issuer) signToken(t *token.Token) []byte {
	pub, priv, err := is.srv.GetParams()
	if err != nil {
		panic(err)
	}
	bc := jjm.NewGenericBlindingClient(&is.kp.PublicKey.PublicKey, is.curve)
	cm := jjm.NewClearMessage(t.Hash())
	bf, bm, err := bc.Blind(pub, cm)
	if err != nil {
		panic(err)
	}
	bs, err := is.srv.Sign(priv, bm)
	if err != nil {
		panic(err)
	}
	sig, _, err := bc.Unblind(bf, cm, bs)
	if err != nil {
		panic(err)
	}
	s := sig.(jjm.ClearSignature)
	t.AddSignature(&s)
	b, err := t.Marshal()
	if err != nil {
		panic(err)
	}
	return b
}

type wWorld struct {
	r                *sim.Run
	s                *sched.Sched
	faults           bool
	pNet, pSQL, pMal int
	intx             bool

	// servers
	root      *edPair
	issuers   map[string]*issuer
	keys      map[string]*issuer // by key id
	keyObj    map[string]*signkeys.PublicKey
	funds     int
	counter   uint64
	authCache map[string]map[string]interface{}
	authFail  map[string]int
	reCache   map[string]map[string]interface{}
	spent     map[string]string // token hash -> how
	usedParam map[string]bool
	debited   int
	consumed  int // tokens spent by users
	reissues  int
	lookup    map[string][]byte // answers of the key lookup service, overriding
	badList   int               // adversarial verify key list, 0: genuine
	rogue     *issuer           // not certified by the trust root
	offered   map[string]bool   // genuine tokens offered to ReceiveToken, by hash; true: accepted
	offers    [][]byte

	// client
	walletKey *edPair
	contacts  []*edPair
	db        *simsql.DB
	ws        *walletstore.Storage
	c         *client.Client
	epoch     int
	updErr    int               // failed writes since the last start
	held      map[string]string // token hash -> holder, handed out and not given back
	ghost     map[string]bool   // spent by a user but possibly still stored (crash before DelToken)
	usages    []string
	users     int
	prop      string
}

// The server side.

func (w *wWorld) verifyToken(tb []byte) (*token.Token, *issuer, error) {
	t, err := token.Unmarshal(tb)
	if err != nil {
		return nil, nil, rpcError("issuer: bad package")
	}
	kid, _ := t.Properties()
	is := w.keys[string(kid[:])]
	if is == nil {
		return nil, nil, rpcError("issuer: wrong issuer")
	}
	pk := w.keyObj[string(kid[:])]
	if pk.Expire < time.Now().Unix() {
		return nil, nil, rpcError("issuer: token expired")
	}
	sig := t.GetSignature()
	if !is.curve.Curve.IsOnCurve(sig.PointR.X, sig.PointR.Y) {
		return nil, nil, rpcError("issuer: bad signature in token")
	}
	cs := jjm.NewClearSignature(&pk.PublicKey)
	cs.PointR, cs.ScalarS, cs.ScalarR = sig.PointR, sig.ScalarS, sig.ScalarR
	ok, err := jjm.NewGenericBlindingClient(&pk.PublicKey, is.curve).Verify(cs, jjm.NewClearMessage(t.Hash()))
	if err != nil || !ok {
		return nil, nil, rpcError("issuer: bad signature in token")
	}
	return t, is, nil
}

// spend is a user presenting a token to a service.
func (w *wWorld) spend(tb []byte, priv *[64]byte, how string) error {
	pkt, err := packetproto.Client{}.Spend(tb, priv)
	if err != nil {
		return err
	}
	p, err := new(types.SpendPacket).Unmarshal(pkt)
	if err != nil {
		return err
	}
	t, _, err := w.verifyToken(p.Token)
	if err != nil {
		return err
	}
	_, owner := t.Properties()
	if err := p.Verify(owner); err != nil {
		return rpcError("issuer: owner signature verification failed")
	}
	h := hex.EncodeToString(t.Hash())
	if x := w.spent[h]; x != "" {
		return fmt.Errorf("token %s already spent by %s", h[:8], x)
	}
	w.spent[h] = how
	return nil
}

func (w *wWorld) addKey(is *issuer) {
	id := is.kp.PublicKey.KeyID
	w.keys[string(id[:])] = is
	pk := is.kp.PublicKey
	w.keyObj[string(id[:])] = &pk
}

func (w *wWorld) serve(host, method string, raw json.RawMessage) (map[string]interface{}, error) {
	switch method {
	case "WalletServer.GetToken":
		var a struct{ AuthToken, Usage string }
		json.Unmarshal(raw, &a)
		at, err := base64.StdEncoding.DecodeString(a.AuthToken)
		if err != nil {
			return nil, rpcError("walletserver: bad token")
		}
		pk, _, ctr, err := walletauth.AuthToken(at).CheckToken()
		if err != nil || *pk != w.walletKey.pub {
			w.r.Fail("C07", "bad-auth", "the client asks for a token for %s with an authentication token which is not its own or not one at all (%d bytes)", a.Usage, len(at))
			return nil, rpcError("walletserver: bad token")
		}
		if c := w.authCache[string(at)]; c != nil {
			return c, nil
		}
		if ctr <= w.counter {
			return nil, rpcError(fmt.Sprintf("ErrReplay: %d", w.counter))
		}
		is := w.issuers[a.Usage]
		if is == nil {
			return nil, rpcError("walletserver: server error")
		}
		w.counter = ctr
		if w.funds <= 0 {
			return nil, rpcError("walletserver: insufficient funds")
		}
		w.funds--
		w.debited++
		w.r.Counter["debited"]++
		t := token.New(&is.kp.PublicKey.KeyID, &w.walletKey.pub)
		tb := is.signToken(t)
		pkm, _ := is.kp.PublicKey.Marshal()
		var params []byte
		if w.r.Bool(1, 3) {
			params = is.newParams(w.r.Bool(1, 2))
		}
		rep := map[string]interface{}{"Token": base64.StdEncoding.EncodeToString(tb),
			"Params": base64.StdEncoding.EncodeToString(params), "PubKeyUsed": base64.StdEncoding.EncodeToString(pkm)}
		w.authCache[string(at)] = rep
		w.r.Logf("  walletserver: debit #%d for %s: token %x", w.debited, a.Usage, t.Hash()[:4])
		return rep, nil
	case "ServiceGuard.GetParams":
		is := w.issuerByHost(host)
		if is == nil {
			return nil, rpcError("issuer: wrong issuer")
		}
		b := is.newParams(w.r.Bool(2, 3))
		if w.faults && w.r.Fault("bad-params", w.pMal, 100) {
			b = w.badParams(b)
		}
		return map[string]interface{}{"Packet": base64.StdEncoding.EncodeToString(b)}, nil
	case "ServiceGuard.Reissue":
		var a struct{ Packet string }
		json.Unmarshal(raw, &a)
		pb, err := base64.StdEncoding.DecodeString(a.Packet)
		if err != nil {
			return nil, rpcError("issuer: bad package")
		}
		p, err := new(types.ReissuePacket).Unmarshal(pb)
		if err != nil {
			return nil, rpcError("issuer: bad package")
		}
		if p.CallType != types.CallTypeReissue {
			return nil, rpcError("issuer: wrong calltype")
		}
		h := p.Hash()
		t, is, err := w.verifyToken(p.Token)
		if err != nil {
			return nil, err
		}
		_, owner := t.Properties()
		if err := p.Verify(owner); err != nil {
			return nil, rpcError("issuer: owner signature verification failed")
		}
		if c := w.reCache[string(h[:])]; c != nil {
			return c, nil
		}
		th := hex.EncodeToString(t.Hash())
		if x := w.spent[th]; x != "" {
			if !w.ghost[th] {
				w.r.Fail("C06", "double-spend", "the client presented token %s in a second request, it was spent before by %s", th[:8], x)
			}
			return nil, rpcError("issuer: token double spend")
		}
		if u := w.held[th]; u != "" {
			w.r.Fail("C06", "reissue-of-held", "token %s was reissued while it was handed out to %s", th[:8], u)
		}
		pk, _, id, _, err := types.UnmarshalParams(p.Params)
		if err != nil {
			return nil, rpcError("issuer: bad package")
		}
		if g := w.keyObj[string(pk.KeyID[:])]; g != nil {
			gb, _ := g.Marshal()
			pb, _ := pk.Marshal()
			if !bytes.Equal(gb, pb) {
				w.r.Fail("C08", "altered-key-used", "a reissue was made for an altered copy of the issuer's key")
			}
		} else {
			w.r.Fail("C08", "uncertified-key-used", "a reissue was made for a key of no certified issuer")
		}
		if pk.Usage != is.usage {
			w.r.Fail("C08", "other-usage", "a token for %s was sent to be reissued as a token for %s", is.usage, pk.Usage)
			return nil, rpcError("issuer: parameter and Token usage mismatch")
		}
		priv, ok := is.params[string(id)]
		if !ok {
			return nil, rpcError("issuer: parameters have expired")
		}
		if w.usedParam[string(id)] {
			return nil, rpcError("issuer: parameter double spend")
		}
		bm, err := jjm.NewBlindMessage(&pk.PublicKey).Unmarshal(p.BlindToken)
		if err != nil {
			return nil, rpcError("issuer: bad package")
		}
		srv := is.srvs[string(pk.KeyID[:])]
		if srv == nil {
			return nil, rpcError("issuer: bad package")
		}
		bs, err := srv.Sign(priv, bm)
		if err != nil {
			return nil, rpcError("issuer: bad package")
		}
		sb, err := bs.Marshal()
		if err != nil {
			return nil, rpcError("issuer: bad package")
		}
		w.spent[th] = "reissue"
		w.usedParam[string(id)] = true
		w.reissues++
		pkm, _ := pk.Marshal()
		rep := map[string]interface{}{"Packet": base64.StdEncoding.EncodeToString(sb), "PubkeyUsed": base64.StdEncoding.EncodeToString(pkm)}
		w.reCache[string(h[:])] = rep
		w.r.Logf("  issuer: reissued token %s", th[:8])
		return rep, nil
	case "PublicService.VerifyKeys":
		return w.verifyKeys(), nil
	case "PublicService.LookupKey":
		var a struct{ KeyID string }
		json.Unmarshal(raw, &a)
		id, _ := hex.DecodeString(a.KeyID)
		if b, ok := w.lookup[string(id)]; ok {
			return map[string]interface{}{"Key": base64.StdEncoding.EncodeToString(b)}, nil
		}
		if pk := w.keyObj[string(id)]; pk != nil {
			b, _ := pk.Marshal()
			return map[string]interface{}{"Key": base64.StdEncoding.EncodeToString(b)}, nil
		}
		return nil, rpcError("keylookup: key not found")
	}
	return nil, rpcError("unknown method " + method)
}

func (w *wWorld) verifyKeys() map[string]interface{} {
	var l []string
	for _, u := range w.usages {
		l = append(l, hex.EncodeToString(w.issuers[u].signer.pub[:]))
	}
	pub, priv := &w.root.pub, &w.root.priv
	evil := hex.EncodeToString(w.rogue.signer.pub[:])
	switch w.badList {
	case 1: // signed by somebody else
		l = append(l, evil)
		pub, priv = &w.rogue.signer.pub, &w.rogue.signer.priv
	case 2: // signed by somebody else in the name of the trust root
		l = append(l, evil)
		priv = &w.rogue.signer.priv
	}
	list := strings.Join(l, ", ")
	sig := ed25519.Sign(priv[:], []byte(list))
	switch w.badList {
	case 3: // added after signing
		list += ", " + evil
	case 4:
		list = evil
	case 5:
		list = evil
		sig = nil
	}
	return map[string]interface{}{"PublicKey": hex.EncodeToString(pub[:]), "Signature": hex.EncodeToString(sig), "KeyList": list}
}

// forgedKey returns a key of issuer is that the client must not use, or a
// reply to a key lookup that does not answer the question.
func (w *wWorld) forgedKey(pk signkeys.PublicKey, kind int) []byte {
	switch kind {
	case 0: // another usage
		pk.Usage = map[bool]string{true: "UID", false: "Message"}[pk.Usage == "Message"]
	case 1:
		pk.Expire += 1 << 20
	case 2:
		pk.Signer = w.issuers[w.usages[0]].signer.pub
	case 3: // another usage with a matching key id
		pk.Usage = map[bool]string{true: "UID", false: "Message"}[pk.Usage == "Message"]
		pk.KeyID = pk.CalcKeyID()
	case 4: // claims to be signed by a genuine signer
		pk.Signer = w.issuers[w.usages[0]].signer.pub
		pk.KeyID = pk.CalcKeyID()
	case 5: // the public key of somebody else
		pk.PublicKey = w.rogue.kp.PublicKey.PublicKey
	case 6: // coordinates moved
		b := append(pk.PublicKey.X.Bytes(), pk.PublicKey.Y.Bytes()...)
		n := 1 + w.r.Choose(len(b)-2)
		pk.PublicKey.X = new(big.Int).SetBytes(b[:n])
		pk.PublicKey.Y = new(big.Int).SetBytes(b[n:])
	case 7:
		b, _ := w.issuers[w.usages[0]].kp.PublicKey.Marshal()
		return b
	case 8:
		b, _ := pk.Marshal()
		return b[:w.r.Choose(len(b))]
	case 9:
		return w.r.Bytes(w.r.Choose(200))
	}
	b, _ := pk.Marshal()
	return b
}

// receive offers a token to the wallet, as a caller which received it from
// somebody else does.
func (w *wWorld) receive() {
	r := w.r
	usage := w.usages[r.Choose(len(w.usages))]
	is := w.issuers[usage]
	owner := w.walletKey.pub
	kind := r.Weighted(3, 2, 2, 2, 4, 3, 2, 4, 2)
	var tb []byte
	genuine, nobody := false, false
	ask := usage
	switch kind {
	case 0:
		genuine = true
	case 1: // again
		if len(w.offers) > 0 {
			tb = w.offers[r.Choose(len(w.offers))]
		} else {
			genuine = true
		}
	case 2: // belongs to somebody else
		owner = w.contacts[r.Choose(len(w.contacts))].pub
		if r.Bool(1, 3) {
			nobody = true
		}
	case 3: // for another purpose
		ask = map[bool]string{true: "UID", false: "Message"}[usage == "Message"]
	case 4: // damaged
	case 5: // signed by somebody else
		is = w.rogue
	case 6: // expired
		is = newIssuer(usage)
		is.signer = w.issuers[usage].signer
		is.gen.PublicKey, is.gen.PrivateKey = &is.signer.pub, &is.signer.priv
		is.gen.ExpireTime = -1 - int64(r.Choose(100))
		is.newKey()
		w.addKey(is)
		if r.Bool(1, 2) {
			id := is.kp.PublicKey.KeyID
			w.lookup[string(id[:])] = w.forgedKey(is.kp.PublicKey, 1)
		}
	case 7: // of a key the client does not know, forged on lookup
		is.newKey()
		w.addKey(is)
		id := is.kp.PublicKey.KeyID
		w.lookup[string(id[:])] = w.forgedKey(is.kp.PublicKey, r.Choose(10))
		genuine = true // the client may learn the key in another way
		if r.Bool(1, 2) {
			ask = map[bool]string{true: "UID", false: "Message"}[usage == "Message"]
		}
	case 8: // of a genuine key the client does not know
		is.newKey()
		w.addKey(is)
		genuine = true
	}
	var t *token.Token
	if tb == nil {
		t = token.New(&is.kp.PublicKey.KeyID, &owner)
		if nobody {
			t = token.New(&is.kp.PublicKey.KeyID, nil)
		}
		tb = is.signToken(t)
		if is == w.rogue {
			id := is.kp.PublicKey.KeyID
			w.keys[string(id[:])] = is
			if r.Bool(1, 2) {
				w.lookup[string(id[:])], _ = is.kp.PublicKey.Marshal()
			} else {
				w.lookup[string(id[:])] = w.forgedKey(is.kp.PublicKey, r.Choose(10))
			}
		}
		if genuine {
			w.offers = append(w.offers, tb)
			h := hex.EncodeToString(t.Hash())
			if _, ok := w.offered[h]; !ok {
				w.offered[h] = false
			}
		}
		if kind == 4 {
			orig := tb
			tb = damage(r, tb)
			if bytes.Equal(orig, tb) {
				tb[r.Choose(len(tb))] ^= 1
			}
			r.Logf("damaged at %s", diffRange(orig, tb))
			if d, _, err := w.verifyToken(tb); err == nil && bytes.Equal(d.Hash(), t.Hash()) {
				w.offered[hex.EncodeToString(t.Hash())] = false // another encoding of the same token
			}
		}
	}
	w.users++
	name := fmt.Sprintf("r%d", w.users)
	r.Logf("%s: a token for %s arrives (kind %d)", name, ask, kind)
	w.s.Go(name, func() { w.receiveOne(name, ask, kind, tb) })
}

func (w *wWorld) receiveOne(name, ask string, kind int, tb []byte) error {
	r := w.r
	before := -1
	if t, err := token.Unmarshal(tb); err == nil {
		before = w.stored(hex.EncodeToString(t.Hash()))
	}
	err := w.c.ReceiveToken(ask, tb)
	sched.Alive()
	r.Logf("  %s: ReceiveToken -> %v", name, err)
	r.Eval("C08")
	if err != nil {
		return err
	}
	// accepted: it must be a genuine token of ours for this purpose
	t, uerr := token.Unmarshal(tb)
	if uerr != nil {
		r.Fail("C08", "accepted-garbage", "a malformed token was accepted: %v", uerr)
		return nil
	}
	h := hex.EncodeToString(t.Hash())
	kid, o := t.Properties()
	is := w.keys[string(kid[:])]
	switch {
	case is == nil || is == w.rogue:
		r.Fail("C08", "accepted-forged", "token %s signed by a key of no certified issuer was accepted", h[:8])
	case o == nil || *o != w.walletKey.pub:
		r.Fail("C08", "accepted-foreign", "token %s of another owner was accepted", h[:8])
	case is.usage != ask:
		r.Fail("C08", "accepted-usage", "token %s for %s was accepted for %s", h[:8], is.usage, ask)
	default:
		if _, _, err := w.verifyToken(tb); err != nil {
			r.Fail("C08", "accepted-invalid", "token %s was accepted, but the issuer does not accept it: %v", h[:8], err)
		}
	}
	if _, ok := w.offered[h]; !ok {
		r.Fail("C08", "accepted-unoffered", "token %s accepted (kind %d)", h[:8], kind)
	}
	if before == 1 {
		r.Fail("C08", "accepted-twice", "token %s, which is in the wallet already, was accepted again", h[:8])
	}
	w.offered[h] = true
	return nil
}

// stored reports whether a token is in the wallet.
func (w *wWorld) stored(h string) int {
	n := 0
	w.plain(func() { w.db.QueryRow("SELECT COUNT(*) FROM walletTokens WHERE Hash=?;", h).Scan(&n) })
	return n
}

// plain runs f without simulated disk faults and scheduling.
func (w *wWorld) plain(f func()) {
	h := simsql.Hook
	simsql.Hook = nil
	defer func() { simsql.Hook = h }()
	f()
}

func diffRange(a, b []byte) string {
	s := fmt.Sprintf("len %d->%d:", len(a), len(b))
	for i := range b {
		if i < len(a) && a[i] != b[i] {
			s += fmt.Sprintf(" %d:%02x->%02x", i, a[i], b[i])
		}
	}
	return s
}

// damage returns an altered copy of b.
func damage(r *sim.Run, b []byte) []byte {
	c := append([]byte{}, b...)
	switch r.Choose(4) {
	case 0:
		for n := r.Range(1, 3); n > 0; n-- {
			c[r.Choose(len(c))] ^= 1 << uint(r.Choose(8))
		}
	case 1:
		c = c[:r.Choose(len(c))]
	case 2: // zero a range
		i := r.Choose(len(c))
		for j := i; j < len(c) && j < i+r.Range(1, 40); j++ {
			c[j] = 0
		}
	case 3: // swap two ranges
		n := len(c) / 4
		i, j := r.Choose(len(c)-n), r.Choose(len(c)-n)
		x := append([]byte{}, c[i:i+n]...)
		copy(c[i:], c[j:j+n])
		copy(c[j:], x)
	}
	return c
}

// badParams returns blinding parameters that the client must refuse.
func (w *wWorld) badParams(b []byte) []byte {
	pk, pub, id, re, err := types.UnmarshalParams(b)
	if err != nil {
		panic(err)
	}
	pkb, _ := pk.Marshal()
	switch w.r.Choose(6) {
	case 5: // genuine ones for another purpose
		for _, u := range w.usages {
			if u != pk.Usage {
				return w.issuers[u].newParams(re)
			}
		}
		return nil
	case 0:
		pub.PointRs1.X = new(big.Int).Add(pub.PointRs1.X, big.NewInt(1))
	case 1:
		pub.PointRs2 = *eccutil.ZeroPoint()
	case 2: // another issuer's key
		pkb, _ = w.rogue.kp.PublicKey.Marshal()
	case 3:
		pkb = w.forgedKey(*pk, w.r.Choose(7))
		if g, _ := pk.Marshal(); bytes.Equal(g, pkb) {
			pkb = nil
		}
	case 4:
		return b[:w.r.Choose(len(b))]
	}
	c, err := types.Params{PublicKey: pkb, PublicParams: *pub, PrivateParams: id, CanReissue: re}.Marshal()
	if err != nil {
		panic(err)
	}
	return c
}

func (w *wWorld) issuerByHost(host string) *issuer {
	for _, u := range w.usages {
		is := w.issuers[u]
		if strings.HasPrefix(host, hex.EncodeToString(is.signer.pub[:])[:48]) {
			return is
		}
	}
	return nil
}

// handle is the simulated network.
func (w *wWorld) handle(req *nethttp.Request, cfg *tls.Config) (*nethttp.Response, error) {
	q, err := readRPC(req)
	if err != nil {
		return nil, err
	}
	m := q.Method[strings.Index(q.Method, ".")+1:]
	w.r.Eval("C08")
	if trusts(cfg, otherCA) {
		w.r.Fail("C08", "untrusted-server", "%s is sent to a server certified by a foreign authority", m)
	}
	if !trusts(cfg, simCA) {
		return nil, fmt.Errorf("x509: certificate signed by unknown authority")
	}
	// the wallet call is retried AuthTokenRetry times by design: never lose
	// more replies to the same auth token than that
	at := ""
	if m == "GetToken" {
		var a struct{ AuthToken string }
		json.Unmarshal(q.Params, &a)
		at = a.AuthToken
	}
	may := func() bool {
		return w.faults && (at == "" || w.authFail[at] < client.AuthTokenRetry)
	}
	fail := func() {
		if at != "" {
			w.authFail[at]++
		}
	}
	sched.Yield("send " + m)
	if may() && w.r.Fault("request-lost", w.pNet, 100) {
		fail()
		return nil, http.ErrNet
	}
	if may() && w.r.Fault("server-error", w.pNet, 300) {
		fail()
		return rpcReply(req, q, nil, rpcError([]string{"walletserver: server error", "issuer: server errror", "x", ""}[w.r.Choose(4)])), nil
	}
	res, rerr := w.serve(req.URL.Host, q.Method, q.Params)
	w.r.Logf("  %s: %s -> err=%v", sched.Name(), m, rerr)
	sched.Yield("reply " + m)
	if may() && w.r.Fault("reply-lost", w.pNet, 100) {
		fail()
		return nil, http.ErrNet
	}
	if rerr == nil && may() && w.r.Fault("reply-malformed", w.pMal, 100) {
		fail()
		return mangle(w.r, req, q, res), nil
	}
	for _, f := range []string{"PubKeyUsed", "PubkeyUsed"} {
		k, ok := res[f].(string)
		if !ok || rerr != nil || !may() || !w.r.Fault("reply-altered-key", w.pMal, 150) {
			continue
		}
		fail()
		b, _ := base64.StdEncoding.DecodeString(k)
		pk, err := new(signkeys.PublicKey).Unmarshal(b)
		if err != nil {
			panic(err)
		}
		n := map[string]interface{}{}
		for x, y := range res {
			n[x] = y
		}
		n[f] = base64.StdEncoding.EncodeToString(w.forgedKey(*pk, w.r.Choose(7)))
		res = n
	}
	return rpcReply(req, q, res, rerr), nil
}

// sqlHook is the simulated disk.
func (w *wWorld) sqlHook(op, q string) error {
	if !sched.InTask() {
		return nil
	}
	verb := op
	if i := strings.IndexByte(q, ' '); i > 0 && strings.HasSuffix(op, "ec") || strings.HasSuffix(op, "ry") {
		verb = q[:i]
	}
	if sched.Pause(verb) {
		return simsql.ErrDead
	}
	switch {
	case op == "open", op == "exec" && strings.HasPrefix(q, "DELETE"):
		// DelToken cannot report an error
		return nil
	case strings.HasPrefix(q, "SELECT Hash, State"):
		// GetAuthToken cannot report an error
		return nil
	}
	if w.faults && w.r.Fault("disk-error", w.pSQL, 1000) {
		w.r.Logf("  disk error: %s", simsql.Short(q))
		if !strings.HasPrefix(q, "SELECT") {
			w.updErr++
		}
		return simsql.ErrDisk
	}
	return nil
}

// The client side.

func (w *wWorld) open() {
	db, err := simsql.Open("simsqlite3", scratchFile(w.r, "wallet.db"))
	if err != nil {
		panic(err)
	}
	db.SetMaxOpenConns(8)
	w.db = db
	w.ws, err = walletstore.New(db)
	if err != nil {
		panic(fmt.Sprintf("walletstore.New: %v", err))
	}
	w.c, err = client.New([]types.Backend{{Type: "database", Value: db}}, w.ws, &w.walletKey.priv, simCA)
	if err != nil {
		panic(fmt.Sprintf("client.New: %v", err))
	}
	w.held = map[string]string{}
	w.c.GoOnline()
	w.c.GetVerifyKeys()
}

func (w *wWorld) crash() {
	w.s.Kill()
	simsql.Crash()
	w.db.Close()
	w.epoch++
	w.updErr = 0
	w.r.Logf("CRASH and restart")
	f := w.faults
	w.faults = false
	w.open()
	w.faults = f
}

// user is one consumer of a token.
func (w *wWorld) user(name, usage string, owner *edPair, use int) {
	e, err := w.c.GetToken(usage, &owner.pub)
	sched.Alive()
	w.r.Logf("  %s: GetToken(%s) -> %v %v", name, usage, short(e), err)
	if err != nil {
		return
	}
	if e == nil {
		w.r.Fail("C07", "nil-token", "GetToken returned neither a token nor an error (LastError: %v)", w.c.LastError)
		return
	}
	h := hex.EncodeToString(e.Hash)
	w.r.Eval("C06")
	if o := w.held[h]; o != "" {
		w.r.Fail("C06", "two-holders", "token %s was handed out to %s while %s still holds it", h[:8], name, o)
	}
	if x := w.spent[h]; x != "" && !w.ghost[h] {
		w.r.Fail("C06", "spent-handed-out", "token %s was handed out to %s although it had been consumed by %s", h[:8], name, x)
	}
	if e.Usage != usage {
		w.r.Fail("C06", "wrong-usage", "GetToken(%s) returned a token for %s", usage, e.Usage)
	}
	if e.OwnerPubKey == nil || *e.OwnerPubKey != owner.pub {
		w.r.Fail("C06", "wrong-owner", "GetToken returned a token of another owner")
	}
	w.held[h] = name
	sched.Yield("holding")
	switch use {
	case 0: // used
		if err := w.spend(e.Token, &owner.priv, name); err != nil && !w.ghost[h] {
			w.r.Fail("C06", "unusable", "token %s handed out to %s is not accepted: %v", h[:8], name, err)
		} else if err == nil {
			w.consumed++
		}
		w.ghost[h] = true // until DelToken has returned
		sched.Yield("used")
		w.c.DelToken(e.Hash)
		sched.Alive()
		delete(w.held, h)
		delete(w.ghost, h)
	case 1: // given back
		delete(w.held, h)
		w.c.UnlockToken(e.Hash)
	}
	w.r.Logf("  %s done", name)
}

func short(e *client.TokenEntry) string {
	if e == nil {
		return "nil"
	}
	return fmt.Sprintf("%x", e.Hash[:4])
}

func walletWorld(r *sim.Run) {
	w := &wWorld{r: r, issuers: map[string]*issuer{}, keys: map[string]*issuer{}, keyObj: map[string]*signkeys.PublicKey{},
		authCache: map[string]map[string]interface{}{}, authFail: map[string]int{}, reCache: map[string]map[string]interface{}{},
		offered: map[string]bool{}, rogue: newIssuer("Message"), spent: map[string]string{}, usedParam: map[string]bool{}, lookup: map[string][]byte{}, ghost: map[string]bool{}}
	w.root = newEd()
	client.TrustRoot = &w.root.pub
	w.walletKey = newEd()
	w.usages = []string{"Message", "UID"}[:1+r.Choose(2)]
	for _, u := range w.usages {
		w.issuers[u] = newIssuer(u)
		w.addKey(w.issuers[u])
	}
	for i := 0; i < 2; i++ {
		w.contacts = append(w.contacts, newEd())
	}
	w.funds = r.Range(2, 12)
	w.pNet = []int{10, 0, 25, 40}[r.Choose(4)]
	w.pMal = []int{0, 10, 25}[r.Choose(3)]
	w.pSQL = []int{0, 8, 30}[r.Choose(3)]
	pCrash := []int{0, 1, 3}[r.Choose(3)]
	if r.NoFault {
		pCrash = 0
	}
	pRecv := []int{0, 2, 8}[r.Choose(3)]
	if r.Prop == "C08" {
		pRecv = 8
	}
	w.s = sched.New(r, "C07")
	http.Handler = w.handle
	simsql.Hook = w.sqlHook
	simsql.Wait = func(try int) bool {
		if try > 60 || !sched.InTask() {
			w.updErr++
			r.Counter["sql-busy"]++
			return false
		}
		return !sched.Pause("busy")
	}
	defer func() {
		w.s.Close()
		simsql.Hook, simsql.Wait = nil, nil
		http.Handler = nil
		if w.db != nil {
			simsql.Crash()
			w.db.Close()
		}
	}()
	w.s.OnStep = func() { time.Sleep(time.Millisecond) }
	w.open()
	w.faults = !r.NoFault
	ops := r.Range(3, 25)
	maxTasks := r.Range(1, 3)
	for i := 0; i < ops; i++ {
		r.Op("op")
		switch r.Weighted(6, 1, 1, 1, pCrash, 2, pRecv, pRecv/2) {
		case 0:
			w.users++
			name := fmt.Sprintf("u%d", w.users)
			u := w.usages[r.Choose(len(w.usages))]
			o := w.contacts[r.Choose(len(w.contacts))]
			use := r.Weighted(4, 1)
			r.Logf("%s wants a token for %s", name, u)
			w.s.Go(name, func() { w.user(name, u, o, use) })
		case 1:
			r.Logf("resume an interrupted reissue")
			w.s.Go("house", func() {
				if h := w.ws.GetInReissue(); h != nil {
					_, err := w.c.ReissueToken(h, nil)
					r.Logf("  housekeeping: reissue of %x: %v", h[:4], err)
				}
			})
		case 2:
			r.Logf("go offline and online")
			w.s.Go("offline", func() {
				w.c.GoOffline()
				w.c.GoOnline()
				w.c.GetVerifyKeys()
			})
		case 3:
			d := time.Duration(r.Range(1, 30)) * time.Minute
			r.Logf("%v pass", d)
			time.Sleep(d)
		case 4:
			r.CountFault("crash")
			w.crash()
		case 5:
			if len(w.usages) > 0 {
				w.prefetch()
			}
		case 6:
			w.receive()
		case 7:
			w.badList = r.Choose(6)
			r.Logf("verify key list of kind %d", w.badList)
			w.s.Go("keys", func() {
				if err := w.c.GetVerifyKeys(); err == nil && w.badList != 0 {
					r.Logf("  bad verify key list: no error")
				}
			})
		}
		n := r.Choose(60)
		for j := 0; j < n || w.s.Live() >= maxTasks; j++ {
			if !w.s.Step() {
				break
			}
			if pCrash > 0 && w.s.Live() > 0 && r.Fault("crash", pCrash, 400) {
				w.crash()
				break
			}
		}
		r.Eval("C07")
	}
	// faults stop
	r.Op("settle")
	w.faults = false
	w.badList = 0
	r.Logf("faults stop")
	if !w.s.Run(5000) {
		r.Fail("C07", "stuck", "operations did not finish within 5000 steps after faults stopped")
	}
	w.lookup = map[string][]byte{}
	if w.noUnlockErr() {
		r.Eval("C07")
		for _, h := range w.locked() {
			r.Fail("C07", "locked", "token %s stays locked although nobody holds or reissues it", h[:8])
		}
	}
	if r.Bool(1, 3) {
		d := time.Duration(r.Range(22, 29)) * 24 * time.Hour
		r.Logf("%v pass", d)
		time.Sleep(d)
		for _, u := range w.usages { // as the issuer's keypool does
			w.issuers[u].newKey()
			w.addKey(w.issuers[u])
		}
	}
	w.settle()
}

// noUnlockErr reports whether every unlocking of a token succeeded since the
// last start; UnlockToken cannot report an error.
func (w *wWorld) noUnlockErr() bool { return w.updErr == 0 }

// locked returns the tokens which are locked.
func (w *wWorld) locked() (l []string) {
	w.plain(func() {
		rows, err := w.db.Query("SELECT Hash FROM walletTokens WHERE LockID!=0 ORDER BY Hash;")
		if err != nil {
			panic(err)
		}
		defer rows.Close()
		for rows.Next() {
			var h string
			rows.Scan(&h)
			if w.held[h] == "" {
				l = append(l, h)
			}
		}
	})
	return
}

// prefetch loads a token for the own wallet.
func (w *wWorld) prefetch() {
	u := w.usages[w.r.Choose(len(w.usages))]
	w.r.Logf("prefetch a token for %s", u)
	w.s.Go("prefetch", func() {
		h, err := w.c.WalletToken(u, nil)
		hs := ""
		if h != nil {
			hs = hex.EncodeToString(h[:4])
		}
		w.r.Logf("  prefetch: %s %v", hs, err)
	})
}

func (w *wWorld) tokens() (l []*client.TokenEntry) {
	rows, err := w.db.Query("SELECT Hash FROM walletTokens ORDER BY Hash;")
	if err != nil {
		panic(err)
	}
	var hs []string
	for rows.Next() {
		var h string
		rows.Scan(&h)
		hs = append(hs, h)
	}
	rows.Close()
	for _, h := range hs {
		b, _ := hex.DecodeString(h)
		e, err := w.ws.GetToken(b, -1)
		if err != nil {
			w.r.Fail("C05", "unreadable", "stored token %s cannot be read: %v", h[:8], err)
			continue
		}
		l = append(l, e)
	}
	return
}

// drain takes all tokens out of the wallet. No new ones can be bought, so this
// also takes those of interrupted reissues (no background runner is there).
func (w *wWorld) drain() {
	r := w.r
	r.Op("drain")
	funds := w.funds
	w.funds = 0
	for _, u := range w.usages {
		for _, o := range w.contacts {
			for fails := 0; fails < 3; {
				e, err := w.c.GetToken(u, &o.pub)
				r.Logf("  drain %s: %s %v", u, short(e), err)
				if err != nil || e == nil {
					fails++
					continue
				}
				h := hex.EncodeToString(e.Hash)
				if err := w.spend(e.Token, &o.priv, "drain"); err != nil && !w.ghost[h] {
					r.Fail("C06", "unusable", "token %s handed out is not accepted: %v", h[:8], err)
				} else if err == nil {
					if _, ok := w.offered[h]; !ok {
						w.consumed++
					}
				}
				w.c.DelToken(e.Hash)
			}
		}
	}
	r.Eval("C07")
	for _, e := range w.tokens() {
		if e.ServerPacket != nil {
			r.Fail("C07", "unfinished", "no token can be obtained, but the interrupted reissue of token %x is not finished (LastError: %v)", e.Hash[:4], w.c.LastError)
		}
	}
	w.funds = funds
}

func (w *wWorld) settle() {
	r := w.r
	// a clean restart gives back what interrupted users still held
	w.crash()
	// finish an interrupted wallet call
	for i := 0; i < 6; i++ {
		at, _ := w.ws.GetAuthToken()
		if at == nil {
			break
		}
		_, err := w.c.WalletToken(w.usages[i%len(w.usages)], &w.contacts[0].pub)
		r.Logf("  finishing the wallet call: %v", err)
	}
	if r.Bool(1, 3) {
		w.drain()
	}
	// the background runner finishes the rest
	w.c.Runner()
	w.c.Runner()
	time.Sleep(2 * time.Minute)
	done := make(chan bool)
	go func() { w.c.GoOffline(); close(done) }()
	select {
	case <-done:
	case <-time.After(time.Hour):
		r.Fail("C07", "offline-blocks", "GoOffline did not return within an hour")
	}
	time.Sleep(10 * time.Second)
	w.c.GoOnline()
	toks := w.tokens()
	r.Eval("C05")
	good := 0
	for _, e := range toks {
		h := hex.EncodeToString(e.Hash)
		if e.ServerPacket != nil {
			r.Fail("C05", "unfinished", "the interrupted reissue of token %s is never finished (LastError: %v)", h[:8], w.c.LastError)
		}
		if t, err := token.Unmarshal(e.Token); err == nil {
			kid, _ := t.Properties()
			if k := w.keyObj[string(kid[:])]; k != nil && (k.Usage != e.Usage || k.Expire != e.Expire) {
				r.Fail("C08", "altered-key-believed", "token %s for %s expiring at %d is stored as a token for %s expiring at %d", h[:8], k.Usage, k.Expire, e.Usage, e.Expire)
			}
		}
		if w.ghost[h] {
			continue
		}
		var priv *[64]byte
		for _, c := range w.contacts {
			if e.OwnerPubKey != nil && c.pub == *e.OwnerPubKey {
				priv = &c.priv
			}
		}
		if e.OwnerPubKey != nil && *e.OwnerPubKey == w.walletKey.pub {
			priv = &w.walletKey.priv
		}
		if priv == nil {
			priv = e.OwnerPrivKey
		}
		if priv == nil {
			r.Fail("C05", "no-owner-key", "token %s cannot be used: its owner is neither a contact nor a stored key", h[:8])
			continue
		}
		t, err := token.Unmarshal(e.Token)
		if err != nil || !bytes.Equal(t.Hash(), e.Hash) {
			r.Fail("C05", "mixed-up", "token %s is stored under another token's hash", h[:8])
			continue
		}
		if x := w.spent[h]; x != "" {
			r.Fail("C05", "dead-token", "the wallet still offers token %s which was consumed by %s", h[:8], x)
			continue
		}
		if _, _, err := w.verifyToken(e.Token); err != nil {
			r.Fail("C05", "invalid-token", "the wallet stores token %s which the issuer does not accept: %v", h[:8], err)
			continue
		}
		if _, ok := w.offered[h]; ok {
			delete(w.offered, h)
			continue
		}
		good++
	}
	for h, acc := range w.offered {
		if acc {
			r.Fail("C05", "lost-received", "token %s was received, but it is not in the wallet", h[:8])
		}
	}
	r.Eval("C08")
	for _, u := range w.usages { // genuine tokens are accepted
		is := w.issuers[u]
		for i := 0; i < 2; i++ {
			t := token.New(&is.kp.PublicKey.KeyID, &w.walletKey.pub)
			tb := is.signToken(t)
			w.offered[hex.EncodeToString(t.Hash())] = false
			if err := w.receiveOne("final", u, 0, tb); err != nil {
				r.Fail("C08", "rejected", "a genuine token is rejected after faults stopped: %v (LastError: %v)", err, w.c.LastError)
			}
			if err := w.receiveOne("final", u, 1, tb); err == nil {
				r.Fail("C08", "accepted-twice", "a token is accepted twice")
			}
			w.c.DelToken(t.Hash())
			is.newKey()
			w.addKey(is)
		}
	}
	r.Logf("debited %d, consumed %d, usable in wallet %d", w.debited, w.consumed, good)
	r.Check(good+w.consumed == w.debited, "C05", map[bool]string{true: "lost", false: "extra"}[good+w.consumed < w.debited],
		"the account was debited %d tokens, but %d were consumed and %d are usable", w.debited, w.consumed, good)
	// progress
	w.funds += 10
	absent := r.Bool(1, 4)
	if absent { // tokens left in the wallet expire
		for i := r.Choose(3); i > 0; i-- {
			h, err := w.c.WalletToken(w.usages[r.Choose(len(w.usages))], nil)
			r.Logf("  prefetched %x: %v", clip4(h), err)
		}
		d := time.Duration(r.Range(22, 45)) * 24 * time.Hour
		r.Logf("%v pass", d)
		time.Sleep(d)
		for _, u := range w.usages {
			w.issuers[u].newKey()
			w.addKey(w.issuers[u])
		}
		w.funds += 30
	}
	for _, u := range w.usages {
		for _, o := range w.contacts {
			ok := false
			var err error
			for i := 0; i < 4 && !ok; i++ {
				var e *client.TokenEntry
				e, err = w.c.GetToken(u, &o.pub)
				if err == nil && e != nil {
					h := hex.EncodeToString(e.Hash)
					if serr := w.spend(e.Token, &o.priv, "final"); serr != nil && !w.ghost[h] {
						r.Fail("C06", "unusable", "token %s handed out finally is not accepted: %v", h[:8], serr)
					}
					w.c.DelToken(e.Hash)
					ok = !w.ghost[h]
				}
			}
			r.Check(ok, "C07", "no-token", "no token for %s can be obtained after faults stopped: %v (LastError: %v)", u, err, w.c.LastError)
		}
	}
	w.c.GoOffline()
	time.Sleep(10 * time.Second)
	r.Counter[fmt.Sprintf("state:d%d c%d re%d n%d", w.debited, w.consumed, w.reissues, len(toks))]++
	_ = sha256.Size
}

func clip4(b []byte) []byte {
	if len(b) > 4 {
		return b[:4]
	}
	return b
}
