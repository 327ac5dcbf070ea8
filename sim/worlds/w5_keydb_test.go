//go:build go1.25

package worlds

import (
	"fmt"
	"sort"

	"github.com/mutecomm/mute/cipher"
	"github.com/mutecomm/mute/cryptengine"
	"github.com/mutecomm/mute/encode/base64"
	"github.com/mutecomm/mute/keydb"
	"github.com/mutecomm/mute/keyserver/hashchain"
	"github.com/mutecomm/mute/msg/session"
	"github.com/mutecomm/mute/msg/session/memstore"
	"github.com/mutecomm/mute/uid"
	"github.com/mutecomm/mute/uid/identity"
	"github.com/mutecomm/mute/util/times"
	"github.com/mutecomm/mute/zzverif/sim"
)

type kSession struct {
	root, chain string
	keys        [2][]string // receive, send; "" once deleted
}

type kSessKey struct{ json, priv string }

type kUID struct {
	id, json, sig, enc, reply string
	count, pos                uint64
}

type kInit struct{ hash, json, sig, priv string }

type kModel struct {
	pass     string
	kv       map[string]string
	states   map[string]string
	sessions map[string]kSession
	keys     map[string]kSessKey
	priv     []kUID
	pub      []kUID
	privKI   []kInit
	pubKI    map[string]string
	chain    map[string][]string
}

func newKModel(pass string) *kModel {
	return &kModel{pass: pass, kv: map[string]string{}, states: map[string]string{}, sessions: map[string]kSession{}, keys: map[string]kSessKey{},
		pubKI: map[string]string{}, chain: map[string][]string{}}
}

func (m *kModel) getPass() string  { return m.pass }
func (m *kModel) setPass(p string) { m.pass = p }

func (m *kModel) clone() *kModel {
	c := newKModel(m.pass)
	for k, v := range m.kv {
		c.kv[k] = v
	}
	for k, v := range m.states {
		c.states[k] = v
	}
	for k, v := range m.sessions {
		for i := range v.keys {
			v.keys[i] = append([]string{}, v.keys[i]...)
		}
		c.sessions[k] = v
	}
	for k, v := range m.keys {
		c.keys[k] = v
	}
	for k, v := range m.pubKI {
		c.pubKI[k] = v
	}
	for k, v := range m.chain {
		c.chain[k] = append([]string{}, v...)
	}
	c.priv = append([]kUID{}, m.priv...)
	c.pub = append([]kUID{}, m.pub...)
	c.privKI = append([]kInit{}, m.privKI...)
	return c
}

// keyWorld drives one key database and the session store on top of it.
type keyWorld struct {
	candStore[*kModel]
	db    *keydb.KeyDB
	st    session.Store
	mem   bool
	users []string
	uids  map[string][]*uid.Message // all versions, by identity
	posn  uint64
	inits []*uid.KeyInit
	iuid  []*uid.Message
}

var keyDomains = []string{"mute.one", "MUTE.two"}

func (w *keyWorld) name3(kind string) string { return fmt.Sprintf("%s%d", kind, w.r.Choose(3)) }

func stateString(s *session.State) string {
	if s == nil {
		return "none"
	}
	k := func(e *uid.KeyEntry) string {
		if e == nil {
			return "nil"
		}
		return string(e.JSON())
	}
	return fmt.Sprintf("%d %d %d %s %s %s %s %s %v", s.SenderSessionCount, s.SenderMessageCount, s.MaxRecipientCount, k(&s.RecipientTemp), k(&s.SenderSessionPub),
		k(s.NextSenderSessionPub), k(s.NextRecipientSessionPubSeen), s.NymAddress, s.KeyInitSession)
}

func (w *keyWorld) dumpDB() []string {
	var out []string
	add := func(f string, a ...interface{}) { out = append(out, fmt.Sprintf(f, a...)) }
	for i := 0; i < 3; i++ {
		k := fmt.Sprintf("state%d", i)
		s, err := w.st.GetSessionState(k)
		add("%s %s %v", k, stateString(s), err)
		k = fmt.Sprintf("session%d", i)
		if !w.st.HasSession(k) {
			add("%s none", k)
			_, e1 := w.st.GetRootKeyHash(k)
			_, e2 := w.st.GetChainKey(k)
			_, e3 := w.st.NumMessageKeys(k)
			_, e4 := w.st.GetMessageKey(k, true, 0)
			if e1 == nil || e2 == nil || e3 == nil || e4 == nil {
				add("%s has contents although it does not exist", k)
			}
		} else {
			root, e1 := w.st.GetRootKeyHash(k)
			chain, e2 := w.st.GetChainKey(k)
			n, e3 := w.st.NumMessageKeys(k)
			if e1 == nil && e2 == nil {
				add("%s %x %x %d %v", k, root[:4], chain[:4], n, e3)
			} else {
				add("%s errors %v %v %v", k, e1, e2, e3)
			}
			for dir := 0; dir < 2; dir++ {
				l := ""
				for j := uint64(0); j < n+2; j++ {
					x, err := w.st.GetMessageKey(k, dir == 1, j)
					if err != nil {
						l += " -"
					} else {
						l += fmt.Sprintf(" %x", x[:3])
					}
				}
				add("%s keys %d%s", k, dir, l)
			}
		}
		k = fmt.Sprintf("hash%d", i)
		js, p, err := w.st.GetSessionKey(k)
		add("%s %q %q %v", k, js, p, err == session.ErrNoKeyEntry)
		if err != nil && err != session.ErrNoKeyEntry {
			add("%s error %v", k, err)
		}
	}
	if w.mem {
		return out
	}
	for _, k := range []string{"k1", "k2"} {
		v, err := w.db.GetValue(k)
		add("value %s %q %v", k, v, err)
	}
	v, err := w.db.Version()
	add("version %s %v", v, err)
	for _, u := range w.users {
		m, rep, err := w.db.GetPrivateUID(u, true)
		if err != nil {
			add("private %s none", u)
		} else {
			rs := ""
			if rep != nil {
				rs = string(rep.JSON())
			}
			add("private %s %s %s %s %s", u, m.JSON(), m.PrivateSigKey(), m.PrivateEncKey(), rs)
			if m2, _, err := w.db.GetPrivateUID(u, false); err != nil || string(m2.JSON()) != string(m.JSON()) {
				add("private %s differs without private keys", u)
			}
		}
		for _, pos := range []uint64{0, w.posn / 2, w.posn, w.posn + 5} {
			m, p, found, err := w.db.GetPublicUID(u, pos)
			if m == nil {
				add("public %s %d %v %v", u, pos, found, err)
			} else {
				add("public %s %d %d %s %v %v", u, pos, p, m.JSON(), found, err)
			}
		}
	}
	ids, err := w.db.GetPrivateIdentities()
	sort.Strings(ids)
	add("identities %q %v", ids, err)
	for _, d := range keyDomains {
		ids, err := w.db.GetPrivateIdentitiesForDomain(d)
		sort.Strings(ids)
		add("identities %s %q %v", d, ids, err)
		pos, found, err := w.db.GetLastHashChainPos(d)
		add("last %s %d %v %v", d, pos, found, err)
		e, err := w.db.GetLastHashChainEntry(d)
		add("entry %s %s %v", d, e, err == nil)
		for i := uint64(0); i <= pos+1; i++ {
			e, err := w.db.GetHashChainEntry(d, i)
			add("entry %s %d %s %v", d, i, e, err == nil)
		}
	}
	for i, ki := range w.inits {
		k, sig, priv, err := w.db.GetPrivateKeyInit(fmt.Sprintf("pubhash%d", i))
		if err != nil {
			add("private init %d none", i)
		} else {
			add("private init %d %s %s %s", i, k.JSON(), sig, priv)
		}
		k, err = w.db.GetPublicKeyInit(ki.SigKeyHash())
		if err != nil {
			add("public init %d none", i)
		} else {
			add("public init %d %s", i, k.JSON())
		}
		if _, err := w.st.GetPrivateKeyEntry(fmt.Sprintf("pubhash%d", i)); err != nil && err != session.ErrNoKeyEntry {
			add("private entry %d: %v", i, err)
		} else {
			add("private entry %d %v", i, err == nil)
		}
		ke, nym, err := w.st.GetPublicKeyEntry(w.iuid[i])
		if err != nil && err != session.ErrNoKeyEntry {
			add("public entry %d: %v", i, err)
		} else if err != nil {
			add("public entry %d none", i)
		} else {
			add("public entry %d %s %s", i, ke.HASH, nym)
		}
	}
	return out
}

func (w *keyWorld) dumpModel(m *kModel) []string {
	var out []string
	add := func(f string, a ...interface{}) { out = append(out, fmt.Sprintf(f, a...)) }
	bin := func(s string, n int) []byte {
		b, _ := base64.Decode(s)
		return b[:n]
	}
	for i := 0; i < 3; i++ {
		k := fmt.Sprintf("state%d", i)
		s, ok := m.states[k]
		if !ok {
			s = "none"
		}
		add("%s %s %v", k, s, error(nil))
		k = fmt.Sprintf("session%d", i)
		if x, ok := m.sessions[k]; !ok {
			add("%s none", k)
		} else {
			add("%s %x %x %d %v", k, bin(x.root, 4), bin(x.chain, 4), len(x.keys[0]), error(nil))
			for dir := 0; dir < 2; dir++ {
				l := ""
				for _, y := range x.keys[dir] {
					if y == "" {
						l += " -"
					} else {
						l += fmt.Sprintf(" %x", bin(y, 3))
					}
				}
				add("%s keys %d%s", k, dir, l+" - -")
			}
		}
		k = fmt.Sprintf("hash%d", i)
		sk, ok := m.keys[k]
		add("%s %q %q %v", k, sk.json, sk.priv, !ok)
	}
	if w.mem {
		return out
	}
	for _, k := range []string{"k1", "k2"} {
		add("value %s %q %v", k, m.kv[k], error(nil))
	}
	add("version %s %v", "1", error(nil))
	idset := map[string]bool{}
	for _, u := range w.users {
		var best *kUID
		for i := range m.priv {
			if m.priv[i].id == u {
				idset[u] = true
				if best == nil || m.priv[i].count > best.count {
					best = &m.priv[i]
				}
			}
		}
		if best == nil {
			add("private %s none", u)
		} else {
			add("private %s %s %s %s %s", u, best.json, best.sig, best.enc, best.reply)
		}
		for _, pos := range []uint64{0, w.posn / 2, w.posn, w.posn + 5} {
			best = nil
			for i := range m.pub {
				if x := &m.pub[i]; x.id == u && x.pos <= pos && (best == nil || x.pos > best.pos) {
					best = x
				}
			}
			if best == nil {
				add("public %s %d %v %v", u, pos, false, error(nil))
			} else {
				add("public %s %d %d %s %v %v", u, pos, best.pos, best.json, true, error(nil))
			}
		}
	}
	var ids []string
	for u := range idset {
		ids = append(ids, u)
	}
	sort.Strings(ids)
	add("identities %q %v", ids, error(nil))
	for _, d := range keyDomains {
		var l []string
		for _, u := range ids {
			if _, dom, _ := identity.Split(u); dom == identity.MapDomain(d) {
				l = append(l, u)
			}
		}
		add("identities %s %q %v", d, l, error(nil))
		ch := m.chain[d]
		pos, e := 0, ""
		if len(ch) > 0 {
			pos, e = len(ch)-1, ch[len(ch)-1]
		}
		add("last %s %d %v %v", d, pos, len(ch) > 0, error(nil))
		add("entry %s %s %v", d, e, len(ch) > 0)
		for i := 0; i <= pos+1; i++ {
			if i < len(ch) {
				add("entry %s %d %s %v", d, i, ch[i], true)
			} else {
				add("entry %s %d %s %v", d, i, "", false)
			}
		}
	}
	for i, ki := range w.inits {
		h := fmt.Sprintf("pubhash%d", i)
		var p *kInit
		for j := range m.privKI {
			if m.privKI[j].hash == h {
				p = &m.privKI[j]
			}
		}
		if p == nil {
			add("private init %d none", i)
		} else {
			add("private init %d %s %s %s", i, p.json, p.sig, p.priv)
		}
		js, ok := m.pubKI[ki.SigKeyHash()]
		if !ok {
			add("public init %d none", i)
		} else {
			add("public init %d %s", i, js)
		}
		add("private entry %d %v", i, p != nil)
		if ok {
			ke, err := ki.KeyEntryECDHE25519(w.iuid[i].SigPubKey())
			if err != nil {
				panic(err)
			}
			sa, _ := ki.SessionAnchor(w.iuid[i].SigPubKey())
			add("public entry %d %s %s", i, ke.HASH, sa.NymAddress())
		} else {
			add("public entry %d none", i)
		}
	}
	return out
}

func (w *keyWorld) keyEntry() *uid.KeyEntry {
	var ke uid.KeyEntry
	if err := ke.InitDHKey(cipher.RandReader); err != nil {
		panic(err)
	}
	return &ke
}

func (w *keyWorld) secrets(n, size int) []string {
	var l []string
	for i := 0; i < n; i++ {
		l = append(l, base64.Encode(w.r.Bytes(size)))
	}
	return l
}

func (w *keyWorld) step() {
	r := w.r
	wt := []int{6, 8, 12, 4, 4}
	if !w.mem {
		wt = append(wt, 3, 4, 3, 2, 3, 3, 3, 5, 2, 2, 3, 10)
	}
	switch r.Weighted(wt...) {
	case 0:
		k := w.name3("state")
		r.Op("state")
		s := &session.State{SenderSessionCount: uint64(r.Choose(1000)), SenderMessageCount: uint64(r.Choose(1000)), MaxRecipientCount: uint64(r.Choose(1000)),
			RecipientTemp: *w.keyEntry(), SenderSessionPub: *w.keyEntry(), NymAddress: fmt.Sprintf("nym%d", r.Choose(10)), KeyInitSession: r.Bool(1, 2)}
		if r.Bool(1, 2) {
			s.NextSenderSessionPub = w.keyEntry()
		}
		if r.Bool(1, 2) {
			s.NextRecipientSessionPubSeen = w.keyEntry()
		}
		w.do("SetSessionState "+k, func() error { return w.st.SetSessionState(k, s) }, func(m *kModel) bool { m.states[k] = stateString(s); return true })
	case 1:
		k := w.name3("session")
		r.Op("session")
		n := 1 + r.Choose(5)
		root, chain := w.secrets(1, 64)[0], w.secrets(1, 32)[0]
		send, recv := w.secrets(n, 64), w.secrets(n, 64)
		if r.Bool(1, 12) {
			recv = recv[1:]
		}
		w.do(fmt.Sprintf("StoreSession %s %d", k, n), func() error {
			return w.st.StoreSession(k, root, chain, append([]string{}, send...), append([]string{}, recv...))
		}, func(m *kModel) bool {
			if len(send) != len(recv) {
				return false
			}
			s, ok := m.sessions[k]
			if !ok {
				s.root = root
			}
			s.chain = chain
			s.keys[0] = append(s.keys[0], recv...)
			s.keys[1] = append(s.keys[1], send...)
			m.sessions[k] = s
			return true
		})
	case 2:
		k := w.name3("session")
		r.Op("delkey")
		s, ok := w.cands[0].sessions[k]
		if !ok || len(s.keys[0]) == 0 {
			return
		}
		i, dir := r.Choose(len(s.keys[0])), r.Choose(2)
		w.do(fmt.Sprintf("DelMessageKey %s %d %d", k, dir, i), func() error { return w.st.DelMessageKey(k, dir == 1, uint64(i)) }, func(m *kModel) bool {
			m.sessions[k].keys[dir][i] = ""
			return true
		})
	case 3:
		k := w.name3("hash")
		r.Op("sesskey")
		if _, ok := w.cands[0].keys[k]; ok {
			return
		}
		ke := w.keyEntry()
		w.do("AddSessionKey "+k, func() error { return w.st.AddSessionKey(k, string(ke.JSON()), ke.PrivateKey(), 5) }, func(m *kModel) bool {
			m.keys[k] = kSessKey{string(ke.JSON()), ke.PrivateKey()}
			return true
		})
	case 4:
		k := w.name3("hash")
		r.Op("delpriv")
		w.do("DelPrivSessionKey "+k, func() error { return w.st.DelPrivSessionKey(k) }, func(m *kModel) bool {
			if x, ok := m.keys[k]; ok {
				x.priv = ""
				m.keys[k] = x
			}
			return true
		})
	case 5:
		k := []string{"k1", "k2"}[r.Choose(2)]
		w.seq++
		v := fmt.Sprintf("value %d", w.seq)
		r.Op("value")
		w.do("AddValue "+k, func() error { return w.db.AddValue(k, v) }, func(m *kModel) bool { m.kv[k] = v; return true })
	case 6: // a new version of an own UID
		u := w.users[r.Choose(len(w.users))]
		r.Op("adduid")
		l := w.uids[u]
		var m *uid.Message
		var err error
		if len(l) == 0 {
			m, err = uid.Create(u, false, "", "", uid.Strict, hashchain.TestEntry, cipher.RandReader)
		} else {
			m, err = l[len(l)-1].Update(cipher.RandReader)
		}
		if err != nil {
			r.Fail("C26", "uid", "cannot create a UID message for %s: %v", u, err)
			return
		}
		w.uids[u] = append(l, m)
		w.do(fmt.Sprintf("AddPrivateUID %s %d", u, m.UIDContent.MSGCOUNT), func() error { return w.db.AddPrivateUID(m) }, func(k *kModel) bool {
			k.priv = append(k.priv, kUID{id: u, json: string(m.JSON()), sig: m.PrivateSigKey(), enc: m.PrivateEncKey(), count: m.UIDContent.MSGCOUNT})
			return true
		})
	case 7:
		u := w.users[r.Choose(len(w.users))]
		r.Op("reply")
		l := w.uids[u]
		if len(l) == 0 {
			return
		}
		m := l[r.Choose(len(l))]
		_, _, enc := m.Encrypt()
		key, err := cipher.Ed25519Generate(cipher.RandReader)
		if err != nil {
			panic(err)
		}
		rep := uid.CreateReply(enc, hashchain.TestEntry, uint64(r.Choose(100)), key)
		w.do("AddPrivateUIDReply "+u, func() error { return w.db.AddPrivateUIDReply(m, rep) }, func(k *kModel) bool {
			for i := range k.priv {
				if k.priv[i].json == string(m.JSON()) {
					k.priv[i].reply = string(rep.JSON())
				}
			}
			return true
		})
	case 8:
		u := w.users[r.Choose(len(w.users))]
		r.Op("deluid")
		l := w.uids[u]
		if len(l) == 0 {
			return
		}
		m := l[r.Choose(len(l))]
		w.do(fmt.Sprintf("DelPrivateUID %s %d", u, m.UIDContent.MSGCOUNT), func() error { return w.db.DelPrivateUID(m) }, func(k *kModel) bool {
			var p []kUID
			for _, x := range k.priv {
				if x.json != string(m.JSON()) {
					p = append(p, x)
				}
			}
			k.priv = p
			return true
		})
	case 9:
		u := w.users[r.Choose(len(w.users))]
		r.Op("pubuid")
		l := w.uids[u]
		if len(l) == 0 {
			return
		}
		m := l[r.Choose(len(l))]
		w.posn += 4
		pos := w.posn
		if r.Bool(1, 4) && pos >= 8 {
			pos -= 5
		}
		w.do(fmt.Sprintf("AddPublicUID %s %d", u, pos), func() error { return w.db.AddPublicUID(m, pos) }, func(k *kModel) bool {
			k.pub = append(k.pub, kUID{id: u, json: string(m.JSON()), count: m.UIDContent.MSGCOUNT, pos: pos})
			return true
		})
	case 10: // key init
		r.Op("keyinit")
		if len(w.inits) >= 4 {
			return
		}
		u := w.users[r.Choose(len(w.users))]
		l := w.uids[u]
		if len(l) == 0 {
			return
		}
		m := l[len(l)-1]
		for _, x := range w.iuid {
			if x == m {
				return
			}
		}
		now := uint64(times.Now())
		ki, _, priv, err := m.KeyInit(uint64(len(w.inits)+1), now+times.Day, now-times.Day, false, m.UIDContent.REPOURIS[0], "", "", cipher.RandReader)
		if err != nil {
			panic(err)
		}
		i := len(w.inits)
		w.inits, w.iuid = append(w.inits, ki), append(w.iuid, m)
		w.do(fmt.Sprintf("AddPrivateKeyInit %d", i), func() error {
			return w.db.AddPrivateKeyInit(ki, fmt.Sprintf("pubhash%d", i), m.SigPubKey(), priv, "sig")
		}, func(k *kModel) bool {
			k.privKI = append(k.privKI, kInit{fmt.Sprintf("pubhash%d", i), string(ki.JSON()), m.SigPubKey(), priv})
			return true
		})
	case 11:
		r.Op("pubinit")
		if len(w.inits) == 0 {
			return
		}
		ki := w.inits[r.Choose(len(w.inits))]
		if _, ok := w.cands[0].pubKI[ki.SigKeyHash()]; ok {
			return
		}
		w.do("AddPublicKeyInit", func() error { return w.db.AddPublicKeyInit(ki) }, func(k *kModel) bool { k.pubKI[ki.SigKeyHash()] = string(ki.JSON()); return true })
	case 12:
		d := keyDomains[r.Choose(2)]
		r.Op("chain")
		w.seq++
		e := fmt.Sprintf("entry%d", w.seq)
		pos := len(w.cands[0].chain[d])
		dd := d
		if r.Bool(1, 3) {
			dd = identity.MapDomain(d)
		}
		w.do(fmt.Sprintf("AddHashChainEntry %s %d", dd, pos), func() error { return w.db.AddHashChainEntry(dd, uint64(pos), e) }, func(k *kModel) bool {
			k.chain[d] = append(k.chain[d], e)
			return true
		})
	case 13:
		d := keyDomains[r.Choose(2)]
		r.Op("delchain")
		w.do("DelHashChain "+d, func() error { return w.db.DelHashChain(d) }, func(k *kModel) bool { delete(k.chain, d); return true })
	case 14:
		w.rekey()
	case 15:
		r.Op("restart")
		w.closed = true
		w.do("Close", func() error { return w.db.Close() }, func(k *kModel) bool { return true })
		w.closed = false
		if r.Bool(1, 2) {
			w.f.crash()
		}
		w.reopen()
		w.compare()
	case 16:
		u := w.users[r.Choose(len(w.users))]
		d := keyDomains[r.Choose(2)]
		ks, kk, kh := w.name3("session"), w.name3("state"), w.name3("hash")
		kind := r.Choose(11)
		var m *uid.Message
		if len(w.iuid) > 0 {
			m = w.iuid[r.Choose(len(w.iuid))]
		}
		w.read(fmt.Sprintf("kind %d", kind), func() string {
			switch kind {
			case 0:
				s, err := w.st.GetSessionState(kk)
				return outcome(err, stateString(s))
			case 1:
				a, err := w.st.GetMessageKey(ks, true, 0)
				return outcome(err, a)
			case 2:
				a, err := w.st.NumMessageKeys(ks)
				return outcome(err, a)
			case 3:
				a, b, err := w.st.GetSessionKey(kh)
				if err == session.ErrNoKeyEntry {
					return "none"
				}
				return outcome(err, a, b)
			case 4:
				m, rep, err := w.db.GetPrivateUID(u, true)
				if err != nil {
					return outcome(err)
				}
				return outcome(nil, string(m.JSON()), rep)
			case 5:
				m, pos, found, err := w.db.GetPublicUID(u, 1000000)
				s := ""
				if m != nil {
					s = string(m.JSON())
				}
				return outcome(err, s, pos, found)
			case 6:
				a, found, err := w.db.GetLastHashChainPos(d)
				return outcome(err, a, found)
			case 7:
				a, err := w.db.GetPrivateIdentities()
				sort.Strings(a)
				return outcome(err, a)
			case 8:
				a, err := w.db.GetPrivateIdentitiesForDomain(d)
				sort.Strings(a)
				return outcome(err, a)
			case 9:
				if m == nil {
					return ""
				}
				ke, nym, err := w.st.GetPublicKeyEntry(m)
				if err == session.ErrNoKeyEntry {
					return "none"
				}
				if err != nil {
					return outcome(err)
				}
				return outcome(nil, ke.HASH, nym)
			}
			ke, err := w.st.GetPrivateKeyEntry("pubhash0")
			if err == session.ErrNoKeyEntry {
				return "none"
			}
			if err != nil {
				return outcome(err)
			}
			return outcome(nil, ke.HASH, ke.PrivateKey())
		})
	}
}

func keyBody(r *sim.Run) {
	w := &keyWorld{uids: map[string][]*uid.Message{}}
	w.candStore = candStore[*kModel]{r: r, f: &storeFaults{r: r}, name: scratchFile(r, "keys"), pass: "passphrase 0", contents: "C26",
		openDB: func(pass string) (err error) {
			if w.db, err = keydb.Open(w.name, []byte(pass)); err == nil {
				var ce *cryptengine.CryptEngine = newCryptEngine(w.db)
				w.st = ce
			}
			return
		},
		createDB:  func(pass string, iter int) error { return keydb.Create(w.name, []byte(pass), iter) },
		rekeyDB:   func(o, n string, iter int) error { return keydb.Rekey(w.name, []byte(o), []byte(n), iter) },
		probe:     func() error { return w.db.AddValue("probe", "x") },
		dump:      w.dumpDB,
		modelDump: w.dumpModel}
	w.f.install()
	defer w.f.uninstall()
	w.users = []string{"alice@mute.one", "bob@mute.two", "carol@mute.one"}[:1+r.Choose(3)]
	w.mem = r.Bool(1, 10)
	w.cands = []*kModel{newKModel(w.pass)}
	if w.mem {
		w.st = memstore.New()
	} else {
		if !r.NoFault {
			w.f.errP = []int{0, 10, 40}[r.Choose(3)]
			w.f.crashP = []int{5, 0, 30}[r.Choose(3)]
		}
		if !w.create() {
			return
		}
	}
	n := 40
	if r.Tier == "thorough" {
		n = 40 + r.Choose(160)
	}
	for i := 0; i < n; i++ {
		w.step()
	}
	w.f.errP, w.f.crashP = 0, 0
	w.compare()
	if w.mem {
		return
	}
	w.onlyKey(w.cands[0].pass, w.cands[0].pass+"x", "passphrase 0")
	w.db.Close()
	var secrets []string
	for _, l := range w.uids {
		for _, m := range l {
			secrets = append(secrets, m.PrivateSigKey(), m.PrivateEncKey(), m.Identity())
		}
	}
	sort.Strings(secrets)
	for _, k := range w.cands[0].keys {
		secrets = append(secrets, k.priv)
	}
	encrypted(r, r.Scratch, secrets)
}

func init() {
	register(&sim.World{Name: "keydb", Body: keyBody})
}
