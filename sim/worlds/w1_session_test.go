//go:build go1.25

package worlds

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"reflect"
	"strings"
	"time"
	"unsafe"

	"github.com/mutecomm/mute/cipher"
	"github.com/mutecomm/mute/cryptengine"
	"github.com/mutecomm/mute/encode/base64"
	"github.com/mutecomm/mute/keydb"
	"github.com/mutecomm/mute/keyserver/hashchain"
	"github.com/mutecomm/mute/msg"
	"github.com/mutecomm/mute/msg/session"
	"github.com/mutecomm/mute/msg/session/memstore"
	"github.com/mutecomm/mute/uid"
	"github.com/mutecomm/mute/util/times"
	"github.com/mutecomm/mute/zzverif/sim"
)

// errInjected is the error of an injected storage fault.
var errInjected = errors.New("sim: injected I/O error")

// simStore wraps a session.Store: every call is a possible storage error or
// crash point; states are copied so that only what was explicitly stored
// survives.
type simStore struct {
	session.Store
	r       *sim.Run
	who     string
	errP    int // probability of an error, in 1/1000
	crashP  int
	armed   bool // faults only inside an operation
	calls   int
	used    map[string]bool // message keys handed out and then deleted
	touched []touch
	faulted bool // a fault was injected
}

type touch struct {
	key    string
	sender bool
	idx    uint64
}

func (s *simStore) point(op string) error {
	s.calls++
	if !s.armed {
		return nil
	}
	if s.crashP > 0 && s.r.Fault("store-crash", s.crashP, 1000) {
		s.r.Logf("  crash of %s before %s", s.who, op)
		s.faulted = true
		panic(sim.Crash{Where: op})
	}
	if s.errP > 0 && s.r.Fault("store-error", s.errP, 1000) {
		s.r.Logf("  error of %s in %s", s.who, op)
		s.faulted = true
		return errInjected
	}
	return nil
}

func copyKE(k *uid.KeyEntry) *uid.KeyEntry {
	if k == nil {
		return nil
	}
	c := *k
	return &c
}

func copyState(st *session.State) *session.State {
	if st == nil {
		return nil
	}
	c := *st
	c.NextSenderSessionPub = copyKE(st.NextSenderSessionPub)
	c.NextRecipientSessionPubSeen = copyKE(st.NextRecipientSessionPubSeen)
	return &c
}

func (s *simStore) GetSessionState(k string) (*session.State, error) {
	if err := s.point("GetSessionState"); err != nil {
		return nil, err
	}
	st, err := s.Store.GetSessionState(k)
	return copyState(st), err
}

func (s *simStore) SetSessionState(k string, st *session.State) error {
	if err := s.point("SetSessionState"); err != nil {
		return err
	}
	return s.Store.SetSessionState(k, copyState(st))
}

func (s *simStore) StoreSession(k, rkh, ck string, send, recv []string) error {
	if err := s.point("StoreSession"); err != nil {
		return err
	}
	s.r.Counter["sessions-stored"]++
	return s.Store.StoreSession(k, rkh, ck, append([]string{}, send...), append([]string{}, recv...))
}

func (s *simStore) HasSession(k string) bool {
	s.point0("HasSession")
	return s.Store.HasSession(k)
}

func (s *simStore) point0(op string) {
	e := s.errP
	s.errP = 0
	s.point(op)
	s.errP = e
}

func (s *simStore) GetPrivateKeyEntry(h string) (*uid.KeyEntry, error) {
	if err := s.point("GetPrivateKeyEntry"); err != nil {
		return nil, err
	}
	return s.Store.GetPrivateKeyEntry(h)
}

func (s *simStore) GetPublicKeyEntry(m *uid.Message) (*uid.KeyEntry, string, error) {
	if err := s.point("GetPublicKeyEntry"); err != nil {
		return nil, "", err
	}
	return s.Store.GetPublicKeyEntry(m)
}

func (s *simStore) GetMessageKey(k string, sender bool, i uint64) (*[64]byte, error) {
	if err := s.point("GetMessageKey"); err != nil {
		return nil, err
	}
	mk, err := s.Store.GetMessageKey(k, sender, i)
	if err == nil && s.armed {
		s.touched = append(s.touched, touch{k, sender, i})
	}
	return mk, err
}

func (s *simStore) NumMessageKeys(k string) (uint64, error) {
	if err := s.point("NumMessageKeys"); err != nil {
		return 0, err
	}
	return s.Store.NumMessageKeys(k)
}

func (s *simStore) GetRootKeyHash(k string) (*[64]byte, error) {
	if err := s.point("GetRootKeyHash"); err != nil {
		return nil, err
	}
	return s.Store.GetRootKeyHash(k)
}

func (s *simStore) GetChainKey(k string) (*[32]byte, error) {
	if err := s.point("GetChainKey"); err != nil {
		return nil, err
	}
	return s.Store.GetChainKey(k)
}

func (s *simStore) DelMessageKey(k string, sender bool, i uint64) error {
	if err := s.point("DelMessageKey"); err != nil {
		return err
	}
	return s.Store.DelMessageKey(k, sender, i)
}

func (s *simStore) AddSessionKey(h, j, p string, t uint64) error {
	if err := s.point("AddSessionKey"); err != nil {
		return err
	}
	return s.Store.AddSessionKey(h, j, p, t)
}

func (s *simStore) GetSessionKey(h string) (string, string, error) {
	if err := s.point("GetSessionKey"); err != nil {
		return "", "", err
	}
	return s.Store.GetSessionKey(h)
}

func (s *simStore) DelPrivSessionKey(h string) error {
	if err := s.point("DelPrivSessionKey"); err != nil {
		return err
	}
	return s.Store.DelPrivSessionKey(h)
}

// newCryptEngine returns the real CryptEngine session store on top of keyDB.
func newCryptEngine(k *keydb.KeyDB) *cryptengine.CryptEngine {
	ce := cryptengine.New()
	v := reflect.ValueOf(ce).Elem()
	t := reflect.TypeOf(k)
	for i := 0; i < v.NumField(); i++ {
		if v.Field(i).Type() == t {
			*(**keydb.KeyDB)(unsafe.Pointer(v.Field(i).UnsafeAddr())) = k
			return ce
		}
	}
	panic("no key database in CryptEngine")
}

type party struct {
	name  string
	uids  []*uid.Message
	store *simStore
	mem   *memstore.MemStore
	db    *keydb.KeyDB
	num   uint64 // number of message keys generated at once
	bad   bool   // damaged messages were presented to it
}

type wireMsg struct {
	id       int
	from, to *party
	fu, tu   *uid.Message
	enc      string
	plain    []byte
	signed   bool
	done     bool // decrypted by its recipient
	attempts int
	tampered bool // a damaged copy was presented before
	keyID    touch
}

type sessWorld struct {
	r       *sim.Run
	p       []*party
	msgs    []*wireMsg
	numKeys uint64
	avg     uint
	keydb   bool
}

const (
	pRoundTrip = "C01"
	pIntegrity = "C02"
	pKeyOnce   = "C03"
	pRecover   = "C04"
)

func (w *sessWorld) newParty(name string, nids int, withDB bool) *party {
	p := &party{name: name}
	for i := 0; i < nids; i++ {
		m, err := uid.Create(name+strings.Repeat("x", i)+"@mute.berlin", false, "", "", uid.Strict, hashchain.TestEntry, cipher.RandReader)
		if err != nil {
			panic(err)
		}
		p.uids = append(p.uids, m)
	}
	if withDB {
		dbname := scratchFile(w.r, name)
		pass := []byte("pass-" + name)
		if err := keydb.Create(dbname, pass, 64); err != nil {
			panic(err)
		}
		var err error
		p.db, err = keydb.Open(dbname, pass)
		if err != nil {
			panic(err)
		}
		for _, m := range p.uids {
			if err := p.db.AddPrivateUID(m); err != nil {
				panic(err)
			}
		}
		p.store = &simStore{Store: newCryptEngine(p.db), r: w.r, who: name}
	} else {
		p.mem = memstore.New()
		p.store = &simStore{Store: p.mem, r: w.r, who: name}
	}
	return p
}

// introduce gives a the KeyInit material of b.
func (w *sessWorld) introduce(b *party, u *uid.Message, to []*party) {
	now := uint64(times.Now())
	ki, pubHash, priv, err := u.KeyInit(1, now+times.Day, now-times.Day, false, "mute.berlin", "", "", cipher.RandReader)
	if err != nil {
		panic(err)
	}
	ke, err := ki.KeyEntryECDHE25519(u.SigPubKey())
	if err != nil {
		panic(err)
	}
	kep, _ := ki.KeyEntryECDHE25519(u.SigPubKey())
	if err := kep.SetPrivateKey(priv); err != nil {
		panic(err)
	}
	if b.db != nil {
		if err := b.db.AddPrivateKeyInit(ki, pubHash, u.SigPubKey(), priv, ""); err != nil {
			panic(err)
		}
	} else {
		b.mem.AddPrivateKeyEntry(kep)
	}
	for _, a := range to {
		if a.db != nil {
			if err := a.db.AddPublicKeyInit(ki); err != nil {
				panic(err)
			}
		} else {
			a.mem.AddPublicKeyEntry(u.Identity(), ke)
		}
	}
}

// op runs f as one operation of p with storage faults armed.
func (w *sessWorld) op(p *party, f func() error) (err error, crashed bool) {
	p.store.armed = true
	p.store.touched = nil
	defer func() {
		p.store.armed = false
		if e := recover(); e != nil {
			if _, ok := e.(sim.Crash); ok {
				crashed = true
				err = errors.New("crash")
				return
			}
			panic(e)
		}
	}()
	err = f()
	return
}

func (w *sessWorld) encrypt(from, to *party, n int, sign bool, status int) {
	r := w.r
	var plain []byte
	if n > 0 {
		plain = r.Bytes(n)
	}
	fu, tu := from.uids[r.Choose(len(from.uids))], to.uids[r.Choose(len(to.uids))]
	var out bytes.Buffer
	args := &msg.EncryptArgs{Writer: &out, From: fu, To: tu, NymAddress: "nym-" + from.name,
		SenderLastKeychainHash: hashchain.TestEntry, Reader: bytes.NewReader(plain), NumOfKeys: from.num,
		AvgSessionSize: w.avg, Rand: cipher.RandReader, KeyStore: from.store, StatusCode: msg.StatusCode(status)}
	if status != msg.StatusOK {
		plain = nil // these are empty
		r.Counter[fmt.Sprintf("status-%d", status)]++
	}
	if sign {
		args.PrivateSigKey = fu.PrivateSigKey64()
	}
	var err error
	var crashed bool
	faults := r.FaultCount()
	r.Guard(pRecover, "encrypt", func() {
		err, crashed = w.op(from, func() error {
			_, e := msg.Encrypt(args)
			return e
		})
	})
	r.Logf("encrypt %s->%s len=%d sign=%v err=%v", from.name, to.name, n, sign, errClass(err))
	// a message key may be used for at most one released ciphertext
	if err != nil {
		if !crashed && r.FaultCount() == faults {
			r.Eval(pRecover)
			r.Fail(w.prop(pRecover, from, to), "encrypt-fails:"+errClass(err), "encryption %s->%s fails without any fault: %v", from.name, to.name, err)
		}
		return
	}
	r.Eval(pRecover)
	m := &wireMsg{id: len(w.msgs), from: from, to: to, fu: fu, tu: tu, enc: out.String(), plain: plain, signed: sign}
	for _, t := range from.store.touched {
		if !t.sender {
			continue
		}
		id := fmt.Sprintf("%s/%d", t.key, t.idx)
		r.Check(!from.store.used[id], pKeyOnce, "key-reused", "message key %d of a session of %s encrypted two messages", t.idx, from.name)
		if from.store.used == nil {
			from.store.used = map[string]bool{}
		}
		from.store.used[id] = true
		_, e := from.store.Store.GetMessageKey(t.key, true, t.idx)
		r.Check(e != nil, pKeyOnce, "send-key-kept", "the key of a sent message (index %d) can still be read from the store of %s", t.idx, from.name)
		m.keyID = t
	}
	w.msgs = append(w.msgs, m)
}

// prop returns the property an unexpected failure between from and to counts
// for (def, unless another one it breaks is under test).
func (w *sessWorld) prop(def string, from, to *party) string {
	switch w.r.Prop {
	case pRoundTrip:
		return pRoundTrip
	case pIntegrity:
		if from.bad || to.bad {
			return pIntegrity
		}
	case pRecover:
		if from.store.faulted || to.store.faulted {
			return pRecover
		}
	}
	return def
}

func errClass(err error) string {
	if err == nil {
		return "ok"
	}
	s := err.Error()
	if len(s) > 60 {
		s = s[:60]
	}
	return s
}

func (w *sessWorld) tryDecrypt(to *party, enc string) (plain []byte, sender, sig string, err error, crashed bool) {
	var res bytes.Buffer
	err, crashed = w.op(to, func() error {
		in := base64.NewDecoder(bytes.NewBufferString(enc))
		v, ph, e := msg.ReadFirstOuterHeader(in)
		if e != nil {
			return e
		}
		if v != msg.Version {
			return errors.New("wrong version")
		}
		sender, sig, e = msg.Decrypt(&msg.DecryptArgs{Writer: &res, Identities: to.uids, PreHeader: ph, Reader: in,
			NumOfKeys: to.num, Rand: cipher.RandReader, KeyStore: to.store})
		return e
	})
	return res.Bytes(), sender, sig, err, crashed
}

// deliver hands m to its recipient.
func (w *sessWorld) deliver(m *wireMsg) {
	r := w.r
	faults := r.FaultCount()
	var plain []byte
	var sender, sig string
	var err error
	var crashed bool
	m.attempts++
	if r.Guard(pRecover, "decrypt", func() { plain, sender, sig, err, crashed = w.tryDecrypt(m.to, m.enc) }) {
		m.done = true
		return
	}
	r.Logf("deliver #%d %s->%s first=%v attempt=%d: %s", m.id, m.from.name, m.to.name, !m.done, m.attempts, errClass(err))
	if m.done {
		r.CountFault("duplicate-delivery")
		r.Check(err != nil, pIntegrity, "replay-accepted", "message #%d was accepted a second time", m.id)
		return
	}
	if err != nil {
		if !crashed && r.FaultCount() == faults {
			if m.tampered {
				r.Check(false, pIntegrity, "blocked:"+errClass(err), "intact message #%d is rejected after a damaged copy of it was presented: %v", m.id, err)
			}
			if m.attempts > 1 {
				r.Check(false, pRecover, "redelivery:"+errClass(err), "message #%d cannot be decrypted after an interrupted attempt: %v", m.id, err)
			} else {
				r.Check(false, w.prop(pRoundTrip, m.from, m.to), "undecryptable:"+errClass(err), "message #%d %s->%s delivered intact is rejected: %v", m.id, m.from.name, m.to.name, err)
			}
			m.done = true
		}
		return
	}
	m.done = true
	if m.attempts > 1 {
		r.Eval(pRecover)
	}
	if m.tampered {
		r.Eval(pIntegrity)
	}
	r.Check(bytes.Equal(plain, m.plain), pRoundTrip, "content", "message #%d decrypted to different content (%d vs %d bytes)", m.id, len(plain), len(m.plain))
	r.Check(sender == m.fu.Identity(), pRoundTrip, "sender", "message #%d reported from %q", m.id, sender)
	r.Check((sig != "") == m.signed, pRoundTrip, "signature", "message #%d signed=%v but signature %q reported", m.id, m.signed, sig)
	for _, t := range m.to.store.touched {
		if t.sender {
			continue
		}
		_, e := m.to.store.Store.GetMessageKey(t.key, false, t.idx)
		r.Check(e != nil, pKeyOnce, "recv-key-kept", "the key of a received message (index %d) can still be read from the store of %s", t.idx, m.to.name)
	}
}

// tamper delivers a damaged copy of m (or m to the wrong party).
func (w *sessWorld) tamper(m *wireMsg) {
	r := w.r
	to := m.to
	enc := m.enc
	raw, err := base64.Decode(enc)
	if err != nil {
		panic(err)
	}
	raw = append([]byte{}, raw...)
	kind := r.Choose(7)
	switch kind {
	case 0, 1: // flip one bit somewhere
		i := r.Choose(len(raw))
		raw[i] ^= 1 << uint(r.Choose(8))
		if i < 2 { // the version is checked by the caller
			return
		}
	case 2: // flip a bit in the last 200 bytes (HMAC) or the first 400
		if r.Choose(2) == 0 {
			raw[len(raw)-1-r.Choose(200)] ^= 1 << uint(r.Choose(8))
		} else {
			raw[2+r.Choose(400)] ^= 1 << uint(r.Choose(8))
		}
	case 3: // truncate
		raw = raw[:r.Choose(len(raw))]
	case 4: // tail of another message
		o := w.msgs[r.Choose(len(w.msgs))]
		oraw, _ := base64.Decode(o.enc)
		if o == m {
			return
		}
		cut := 7200 + r.Choose(3000)
		raw = append(raw[:cut:cut], oraw[cut:]...)
	case 5: // swap two blocks
		a := r.Choose(len(raw) - 64)
		b := r.Choose(len(raw) - 64)
		ca := append([]byte{}, raw[a:a+32]...)
		cb := append([]byte{}, raw[b:b+32]...)
		copy(raw[a:], cb)
		copy(raw[b:], ca)
	case 6: // misdelivery
		for _, p := range w.p {
			if p != m.to {
				to = p
			}
		}
	}
	if kind != 6 {
		orig, _ := base64.Decode(m.enc)
		if len(raw) == len(orig) {
			// the top bit of a Curve25519 public key does not belong to the key
			// (RFC 7748): both encodings denote the same ephemeral key
			c := append([]byte{}, raw...)
			c[72] = c[72]&0x7f | orig[72]&0x80
			if bytes.Equal(c, orig) {
				return
			}
		}
		enc = base64.Encode(raw)
	}
	kinds := []string{"bit-flip", "bit-flip", "bit-flip", "truncation", "splice", "block-swap", "misdelivery"}
	r.CountFault(kinds[kind])
	m.tampered = true
	to.bad = true
	var e error
	var sender string
	if r.Guard(pIntegrity, "decrypt-tampered", func() { _, sender, _, e, _ = w.tryDecrypt(to, enc) }) {
		return
	}
	r.Logf("tampered #%d kind %s: %s", m.id, kinds[kind], errClass(e))
	r.Check(e != nil, pIntegrity, "tampered-accepted:"+kinds[kind], "a damaged (%s) copy of message #%d was accepted as coming from %q", kinds[kind], m.id, sender)
}

func w1(r *sim.Run, keyDB bool) {
	w := &sessWorld{r: r, keydb: keyDB}
	w.numKeys = []uint64{2, 1, 3, 5, 50, 0}[r.Weighted(4, 2, 3, 2, 1, 1)]
	w.avg = []uint{1, 2, 3, 10, 1000}[r.Choose(5)]
	names := []string{"alice", "bob"}
	if r.Bool(1, 3) {
		names = append(names, "carol")
	}
	// swap roles so that both orders of identity comparison are exercised
	for _, n := range names {
		p := w.newParty(n, 1+r.Weighted(4, 1), keyDB)
		p.num = w.numKeys
		if r.Bool(1, 4) {
			p.num = []uint64{2, 1, 3, 5, 50, 0}[r.Weighted(4, 2, 3, 2, 1, 1)]
		}
		w.p = append(w.p, p)
	}
	defer func() {
		for _, p := range w.p {
			if p.db != nil {
				p.db.Close()
			}
		}
	}()
	for _, p := range w.p {
		var o []*party
		for _, q := range w.p {
			if q != p {
				o = append(o, q)
			}
		}
		for _, u := range p.uids {
			w.introduce(p, u, o)
		}
	}
	// per-run fault rates
	tamperW := []int{0, 1, 4}[r.Choose(3)]
	dupW := []int{0, 1, 3}[r.Choose(3)]
	dropW := []int{0, 1, 3}[r.Choose(3)]
	crashP := []int{0, 0, 5, 20}[r.Choose(4)]
	errP := []int{0, 0, 5, 20}[r.Choose(4)]
	if r.Prop == pIntegrity && tamperW == 0 {
		tamperW = 3
	}
	order := r.Choose(4) // delivery order: fifo, lifo, random, random
	if r.NoFault {
		tamperW, dupW, dropW, crashP, errP, order = 0, 0, 0, 0, 0, 0
	}
	for _, p := range w.p {
		p.store.crashP, p.store.errP = crashP, errP
	}
	r.Logf("parties=%d keys=%d avg=%d tamper=%d dup=%d drop=%d crash=%d err=%d order=%d", len(w.p), w.numKeys, w.avg, tamperW, dupW, dropW, crashP, errP, order)
	steps := r.Range(4, 40)
	if keyDB {
		steps = r.Range(4, 24)
	}
	dropped := map[int]bool{}
	pick := func() *wireMsg {
		var c []*wireMsg
		for _, m := range w.msgs {
			if !m.done && !dropped[m.id] {
				c = append(c, m)
			}
		}
		if len(c) == 0 {
			return nil
		}
		switch order {
		case 0:
			return c[0]
		case 1:
			r.CountFault("reorder")
			return c[len(c)-1]
		}
		i := r.Choose(len(c))
		if i != 0 {
			r.CountFault("reorder")
		}
		return c[i]
	}
	sendW, delW := 5, 5
	wStatus := [][]int{{1, 0, 0}, {10, 1, 1}, {3, 0, 1}}[r.Weighted(2, 1, 1)]
	if r.Bool(1, 4) {
		sendW = 12
	}
	if !keyDB && r.Bool(1, 20) {
		// a long one-way stretch: the sender goes on without any answer
		r.Op("burst")
		f := r.Choose(len(w.p))
		t := (f + 1 + r.Choose(len(w.p)-1)) % len(w.p)
		n := 20 + r.Choose(430)
		every := 1 + r.Choose(120)
		for i := 1; i <= n; i++ {
			w.encrypt(w.p[f], w.p[t], 1, false, 0)
			if len(w.msgs) == 0 {
				continue
			}
			m := w.msgs[len(w.msgs)-1]
			switch {
			case m.done || m.from != w.p[f] || dropped[m.id]:
			case i%every == 0 || i == n:
				for k := 0; k < 50 && !m.done; k++ {
					w.deliver(m)
				}
			default:
				r.Counter["burst-lost"]++
				dropped[m.id] = true
			}
		}
		r.Counter["burst-sends"] += n
	}
	for i := 0; i < steps; i++ {
		switch r.Weighted(sendW, delW, tamperW, dupW, dropW, 1) {
		case 0:
			f := r.Choose(len(w.p))
			t := (f + 1 + r.Choose(len(w.p)-1)) % len(w.p)
			n := r.Weighted(6, 1, 1)
			size := []int{r.Range(1, 40), 0, msg.MaxContentLength - r.Choose(3)}[n]
			r.Op(fmt.Sprintf("send%d%d", f, t))
			w.encrypt(w.p[f], w.p[t], size, r.Bool(1, 3), []int{msg.StatusOK, msg.StatusReset, msg.StatusError}[r.Weighted(wStatus...)])
		case 1:
			m := pick()
			r.Op("deliver")
			if m != nil {
				r.Shape(fmt.Sprintf("m%d", m.id))
				w.deliver(m)
			}
		case 2:
			if len(w.msgs) > 0 {
				r.Op("tamper")
				w.tamper(w.msgs[r.Choose(len(w.msgs))])
			}
		case 3:
			var c []*wireMsg
			for _, m := range w.msgs {
				if m.done {
					c = append(c, m)
				}
			}
			if len(c) > 0 {
				r.Op("dup")
				w.deliver(c[r.Choose(len(c))])
			}
		case 4:
			if m := pick(); m != nil {
				r.Op("drop")
				r.CountFault("message-loss")
				dropped[m.id] = true
			}
		case 5:
			r.Op("time")
			time.Sleep(time.Duration(r.Range(1, 100)) * time.Hour)
		}
	}
	// faults stop: everything still in flight arrives, then both directions work
	for _, p := range w.p {
		p.store.crashP, p.store.errP = 0, 0
	}
	for {
		m := pick()
		if m == nil {
			break
		}
		r.Op("settle")
		w.deliver(m)
	}
	for round := 0; round < 2; round++ {
		for i := range w.p {
			for j := range w.p {
				if i != j {
					r.Op("final")
					w.encrypt(w.p[i], w.p[j], 20, false, 0)
					if m := pick(); m != nil {
						w.deliver(m)
					}
				}
			}
		}
	}
}

func init() {
	register(&sim.World{Name: "session", Bubble: true, Body: func(r *sim.Run) { w1(r, false) }})
	register(&sim.World{Name: "sessiondb", Bubble: true, Body: func(r *sim.Run) { w1(r, true) }})
}

var _ io.Reader
