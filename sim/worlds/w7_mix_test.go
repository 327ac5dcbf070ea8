//go:build go1.25

package worlds

import (
	"bytes"
	"crypto/ed25519"
	"crypto/sha256"
	"crypto/tls"
	"encoding/asn1"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"net/textproto"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"testing/synctest"
	"time"

	"golang.org/x/crypto/curve25519"

	mixclient "github.com/mutecomm/mute/mix/client"
	"github.com/mutecomm/mute/mix/mixaddr"
	"github.com/mutecomm/mute/mix/mixcrypt"
	"github.com/mutecomm/mute/mix/nymaddr"
	simos "github.com/mutecomm/mute/zzverif/shim/os"
	"github.com/mutecomm/mute/zzverif/shim/smtp"
	simtime "github.com/mutecomm/mute/zzverif/shim/time"
	"github.com/mutecomm/mute/zzverif/sim"
)

// The mix world: several mixes with rotating keys that may crash, receivers
// who hand out nym addresses, senders who submit mail over a faulty network,
// and an adversary who alters, replays, redirects and forges messages.

func init() {
	register(&sim.World{Name: "mix", Bubble: true, Body: mixBody, Nontrivial: func(r *sim.Run) bool { return r.Counter["relayed"]+r.Counter["keys"] > 0 }})
}

type xMix struct {
	name      string
	priv      *[64]byte
	kl        *mixaddr.KeyList
	dir       string
	dur, freq int64
	up        bool
	started   int64
	announced map[[32]byte]int64 // key -> expiry, of every key ever announced
	inbox     []*xMail
	unique    map[string]string // uniqueness hash -> message
	blank     int64             // keys may be missing: storage failed since
}

type xNym struct {
	secret  []byte
	mailbox []byte
	nym     []byte
	box     [][]byte
	want    []*xMsg
}

type xAddr struct {
	raw    []byte
	nym    *xNym
	mix    *xMix
	key    [32]byte
	expire int64
	single bool
	used   bool
	min    int32
	max    int32
}

type xMsg struct {
	id       int
	addr     *xAddr
	body     []byte
	token    []byte
	min, max int32
	out      mixclient.MessageMarshalled
	smart    string // the server to submit it to, if not the mix's
	port     int
	accepted int // times the mix's server accepted it
	done     bool
	final    bool
	relayed  int
}

type xMail struct {
	mail    []byte
	msg     *xMsg // nil: forged
	altered bool
	what    string
}

type mixWorld struct {
	r       *sim.Run
	f       *storeFaults
	mixes   []*xMix
	nyms    []*xNym
	addrs   []*xAddr
	msgs    []*xMsg
	lists   []mixaddr.AddressList // statements collected by clients
	crashed []*xMix
	sending *xMsg
}

func (w *mixWorld) now() int64 { return time.Now().Unix() }

func edKey(r *sim.Run) *[64]byte {
	k := new([64]byte)
	copy(k[:], ed25519.NewKeyFromSeed(r.Bytes(32)))
	return k
}

func mixBody(r *sim.Run) {
	w := &mixWorld{r: r, f: &storeFaults{r: r}}
	w.f.install()
	simtime.Enabled = false // the bubble's clock
	defer w.f.uninstall()
	hook, after := simos.Hook, simos.AfterHook
	// a crash while a mix stores its key ends that mix's goroutine
	ends := func(f func(op, path string) error) func(op, path string) error {
		return func(op, path string) error {
			err := f(op, path)
			if err == simos.ErrDead {
				for _, m := range w.mixes {
					if strings.HasPrefix(path, m.dir) {
						w.crashed = append(w.crashed, m)
					}
				}
				w.f.dead = false // the other mixes go on
				runtime.Goexit()
			}
			return err
		}
	}
	simos.Hook, simos.AfterHook = ends(hook), ends(after)
	smtp.Dialer = w.dial
	defer func() { smtp.Dialer = nil }()
	simtime.Kill.Store(false)
	defer func() {
		simtime.Kill.Store(true)
		w.f.armed = false
		time.Sleep(time.Minute)
		synctest.Wait()
		simtime.Kill.Store(false)
	}()
	time.Sleep(time.Hour * 24 * 6000) // keys never expire before the epoch
	r.SimTime -= 24 * 3600 * 6000

	// keys and addresses live for minutes or for weeks
	long := r.Bool(1, 6)
	unit := int64(1)
	if long {
		unit = 300
	}
	for i := r.Range(1, 3); i > 0; i-- {
		m := &xMix{name: fmt.Sprintf("mix%d@mix%d.mute.one", len(w.mixes), len(w.mixes)), priv: edKey(r), announced: map[[32]byte]int64{}, unique: map[string]string{}}
		m.dir = filepath.Join(r.Scratch, fmt.Sprintf("keys%d", len(w.mixes)))
		m.dur = int64(r.Range(120, 4000))
		m.freq = int64(r.Range(20, int(m.dur/2)))
		if long {
			m.dur = int64(r.Range(3, 30)) * 24 * 3600
			m.freq = m.dur/4 + int64(r.Choose(int(m.dur/4)))
		}
		w.mixes = append(w.mixes, m)
		w.start(m)
	}
	for i := r.Range(1, 3); i > 0; i-- {
		h := sha256.Sum256(r.Bytes(8))
		n := &xNym{secret: r.Bytes(64), mailbox: []byte(hex.EncodeToString(r.Bytes(32)) + "@srv."), nym: h[:]}
		if len(w.nyms) > 0 && r.Bool(1, 3) {
			// two nyms of one user may share the secret or the mailbox
			if r.Bool(1, 2) {
				n.secret = w.nyms[0].secret
			} else {
				n.mailbox = w.nyms[0].mailbox
			}
		}
		w.nyms = append(w.nyms, n)
	}
	if !r.NoFault {
		w.f.errP = []int{0, 20, 100}[r.Choose(3)]
		w.f.crashP = []int{0, 10, 50}[r.Choose(3)]
	}
	w.advance(int64(r.Range(11, 60)))
	for i := r.Range(10, 60); i > 0; i-- {
		r.Steps++
		switch r.Weighted(8, 6, 12, 14, 10, 3, 5, 6, 3) {
		case 0:
			r.Op("advance")
			d := int64(r.Range(1, 60))
			if r.Bool(1, 3) {
				d = int64(r.Range(1, 3000)) * unit / 4
			}
			w.advance(d)
		case 1:
			r.Op("address")
			w.newAddress()
		case 2:
			r.Op("create")
			w.create()
		case 3:
			r.Op("deliver")
			w.deliver()
		case 4:
			r.Op("relay")
			w.relay()
		case 5:
			r.Op("crash")
			w.crashAll()
		case 6:
			r.Op("statement")
			w.statements()
		case 7:
			r.Op("adversary")
			w.adversary()
		case 8:
			r.Op("forge")
			w.forge()
		}
	}
	// faults stop
	r.Op("recover")
	r.Logf("recover")
	r.NoFault = true
	w.f.errP, w.f.crashP = 0, 0
	w.advance(15)
	for _, m := range w.mixes {
		for n := len(m.inbox); n > 0; n-- {
			w.relayOne(m)
		}
	}
	for _, m := range w.msgs {
		if !m.done && !m.final {
			w.submit(m)
			r.Eval("C16")
			r.Check(m.done || m.final, "C16", "stuck", "message %d cannot be submitted although all faults stopped", m.id)
		}
	}
	for _, m := range w.mixes {
		for n := len(m.inbox); n > 0; n-- {
			w.relayOne(m)
		}
	}
	w.statements()
}

func (m *xMix) keys() [][32]byte {
	var ks [][32]byte
	for k := range m.announced {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return bytes.Compare(ks[i][:], ks[j][:]) < 0 })
	return ks
}

// start starts a mix, with the keys it saved before, if any.
func (w *mixWorld) start(m *xMix) {
	r := w.r
	w.f.dead = false
	m.kl = mixaddr.New(m.priv, m.name, m.dur, m.freq, m.dir)
	var files []string
	des, _ := os.ReadDir(m.dir)
	for _, de := range des {
		if strings.HasPrefix(de.Name(), "keys.") {
			if _, err := strconv.ParseInt(strings.TrimPrefix(de.Name(), "keys."), 10, 64); err == nil {
				files = append(files, de.Name())
			}
		}
	}
	sort.Slice(files, func(i, j int) bool {
		a, _ := strconv.ParseInt(strings.TrimPrefix(files[i], "keys."), 10, 64)
		b, _ := strconv.ParseInt(strings.TrimPrefix(files[j], "keys."), 10, 64)
		return a > b
	})
	for _, f := range files {
		d, err := os.ReadFile(filepath.Join(m.dir, f))
		if err != nil {
			panic(err)
		}
		if err = m.kl.Unmarshal(d); err == nil {
			r.Logf("%s loads %s", m.name[:4], f)
			break
		}
		r.Logf("%s: %s is damaged", m.name[:4], f)
	}
	// no two mixes act at the same instant
	phase := time.Millisecond
	for i, o := range w.mixes {
		if o == m {
			phase = time.Duration(i+1) * time.Millisecond
		}
	}
	d := phase - time.Duration(time.Now().Nanosecond())
	if d <= 0 {
		d += time.Second
	}
	time.Sleep(d)
	m.kl.Maintain()
	synctest.Wait()
	m.up, m.started = true, w.now()
	w.observe(m, true)
}

// advance lets time pass; the mixes maintain their keys.
func (w *mixWorld) advance(d int64) {
	r := w.r
	r.Logf("advance %d", d)
	step0 := max(10, d/60)
	for d > 0 {
		step := step0
		if d < step {
			step = d
		}
		d -= step
		w.f.armed, w.f.faulted = true, false
		time.Sleep(time.Duration(step) * time.Second)
		synctest.Wait()
		w.f.armed = false
		if w.f.faulted {
			for _, m := range w.mixes {
				m.blank = w.now()
			}
		}
		for len(w.crashed) > 0 {
			m := w.crashed[0]
			r.Logf("%s crashed while storing a key", m.name[:4])
			m.up = false
			w.tear(m)
			w.crashed = w.crashed[1:]
			w.start(m)
		}
		for _, m := range w.mixes {
			w.observe(m, false)
		}
	}
}

func (w *mixWorld) tear(m *xMix) {
	simos.Crash(func(path string, size int) int {
		if m != nil && !strings.HasPrefix(path, m.dir) {
			return size
		}
		n := w.r.Choose(size + 1)
		w.r.CountFault("unsynced-data-lost")
		w.r.Logf("  %s keeps %d of %d bytes", filepath.Base(path), n, size)
		return n
	})
}

// crashAll: power failure of all mixes.
func (w *mixWorld) crashAll() {
	r := w.r
	if !r.Fault("power-failure", 1, 1) {
		return
	}
	simtime.Kill.Store(true)
	time.Sleep(11 * time.Second)
	synctest.Wait()
	simtime.Kill.Store(false)
	r.Logf("power failure")
	w.tear(nil)
	for _, m := range w.mixes {
		m.up = false
	}
	time.Sleep(time.Duration(r.Choose(100)) * time.Second)
	for _, m := range w.mixes {
		w.start(m)
	}
}

// observe checks the keys of a mix.
func (w *mixWorld) observe(m *xMix, restarted bool) {
	r := w.r
	r.Eval("C14")
	st := m.kl.GetStatement()
	now := w.now()
	valid := 0
	if st != nil {
		r.Check(st.Verify(), "C14", "statement", "the key statement of %s does not verify", m.name)
		seen := map[[32]byte]bool{}
		as := append(mixaddr.AddressList{}, st.Addresses...)
		sort.Slice(as, func(i, j int) bool { return bytes.Compare(as[i].Pubkey, as[j].Pubkey) < 0 })
		for _, a := range as {
			var k [32]byte
			copy(k[:], a.Pubkey)
			r.Check(!seen[k] && len(a.Pubkey) == 32, "C14", "statement", "duplicate or malformed key announced")
			seen[k] = true
			r.Check(a.Address == m.name && bytes.Equal(a.TokenKey, m.priv[32:]), "C14", "statement", "announced address or token key is wrong")
			r.Check(a.Expire >= now-11, "C14", "expired-announced", "%s announces a key %d s after it expired", m.name, now-a.Expire)
			r.Check(a.Expire <= now+m.dur, "C14", "lifetime", "key announced for %d s, the limit is %d", a.Expire-now, m.dur)
			if e, ok := m.announced[k]; ok {
				r.Check(e == a.Expire, "C14", "statement", "the expiry of an announced key changed")
			} else {
				r.Counter["keys"]++
				m.announced[k] = a.Expire
				r.Logf("  %s announces %x until %d", m.name[:4], k[:3], a.Expire)
			}
			if a.Expire > now {
				valid++
			}
		}
		for _, k := range m.keys() {
			e := m.announced[k]
			if e > now && !restarted {
				r.Check(seen[k], "C14", "withdrawn", "%s no longer announces a key that is valid for %d s", m.name, e-now)
			}
		}
		r.Check(bytes.Equal(st.PublicKey, m.priv[32:]), "C14", "statement", "the statement names another signer")
	}
	// a fresh key is always announced
	if !restarted && now-m.started > 25 && m.blank == 0 {
		fresh := false
		for _, e := range m.announced {
			fresh = fresh || e >= now+m.dur-m.freq-22
		}
		r.Check(fresh, "C14", "no-fresh-key", "%s has no key younger than its renewal period of %d s", m.name, m.freq)
	}
	if m.blank != 0 && now-m.blank > m.freq+40 {
		m.blank = 0
	}
	for _, k := range m.keys() {
		w.usable(m, k, m.announced[k])
	}
}

// usable checks that an announced key can be used exactly until it expires.
func (w *mixWorld) usable(m *xMix, k [32]byte, e int64) {
	r := w.r
	now := w.now()
	priv := m.kl.GetPrivateKey(&k)
	ent := m.kl.GetKeyEntry(&k)
	if e >= now {
		if r.Check(priv != nil && ent != nil, "C14", "key-lost", "%s lost a key it had announced, %d s before it expires", m.name, e-now) {
			pub := new([32]byte)
			curve25519.ScalarBaseMult(pub, priv)
			r.Check(*pub == k && bytes.Equal(ent.Pubkey, k[:]) && bytes.Equal(ent.Privkey, priv[:]) && ent.Expire == e, "C14", "wrong-key", "the private key does not belong to the announced key")
		}
	} else {
		r.Check(priv == nil && ent == nil, "C14", "expired-used", "%s still uses a key %d s after it expired", m.name, now-e)
		if now-e > 11 {
			_, kept := m.kl.Keys[k]
			r.Check(!kept, "C14", "not-erased", "%s still keeps a key %d s after it expired", m.name, now-e)
		}
		if now-e > 60 {
			delete(m.announced, k)
		}
	}
}

// statements: a client fetches the statements; an adversary alters some.
func (w *mixWorld) statements() {
	r := w.r
	var list mixaddr.AddressList
	for _, m := range w.mixes {
		st := m.kl.GetStatement()
		if st == nil {
			continue
		}
		b, err := json.Marshal(st)
		if err != nil {
			panic(err)
		}
		var got mixaddr.AddressStatement
		if err := json.Unmarshal(b, &got); err != nil {
			panic(err)
		}
		r.Eval("C14")
		if !r.NoFault && r.Bool(1, 2) && len(got.Addresses) > 0 {
			what, changed := w.alter(&got, m)
			if changed {
				n := len(list)
				list = list.AddStatement(got)
				sig := "altered-statement"
				if what == "address cut" || what == "key extended" || what == "entries merged" {
					sig = "altered-statement-border" // the same bytes, split elsewhere
				}
				r.Check(!got.Verify() && len(list) == n, "C14", sig, "a statement altered after it was signed (%s) verifies", what)
				list = list[:n]
				continue
			}
		}
		n := len(list)
		list = list.AddStatement(got)
		if !r.Check(got.Verify(), "C14", "statement", "a statement does not verify after transfer") {
			continue
		}
		want := 0
		for _, a := range got.Addresses {
			if a.Expire > w.now() {
				want++
			}
		}
		r.Check(len(list) == n+want, "C14", "statement", "%d of %d valid keys of a statement were taken over", len(list)-n, want)
	}
	if len(list) > 0 {
		// kept in a file by the client
		l2, err := mixaddr.AddressList(nil).Unmarshal(list.Marshal())
		r.Check(err == nil && len(l2) == len(list), "C14", "list", "the address list changed when stored: %v", err)
		sort.Slice(l2, func(i, j int) bool { return bytes.Compare(l2[i].Pubkey, l2[j].Pubkey) < 0 })
		w.lists = append(w.lists, l2)
		if len(w.lists) > 3 {
			w.lists = w.lists[1:]
		}
		r.Logf("client list of %d keys", len(l2))
	}
}

func (w *mixWorld) alter(st *mixaddr.AddressStatement, m *xMix) (string, bool) {
	r := w.r
	// entries are announced in any order
	i, n := 0, r.Choose(len(st.Addresses))
	for i = range st.Addresses {
		less := 0
		for _, o := range st.Addresses {
			if bytes.Compare(o.Pubkey, st.Addresses[i].Pubkey) < 0 {
				less++
			}
		}
		if less == n {
			break
		}
	}
	if i == len(st.Addresses)-1 && i > 0 {
		i-- // its neighbour will do
	}
	a := &st.Addresses[i]
	bit := func(b []byte) []byte {
		c := append([]byte{}, b...)
		c[r.Choose(len(c))] ^= byte(1 << uint(r.Choose(8)))
		return c
	}
	r.CountFault("altered-statement")
	switch r.Choose(12) {
	case 0:
		a.Pubkey = bit(a.Pubkey)
		return "key", true
	case 1:
		if r.Bool(1, 2) {
			a.Expire ^= 1 << uint(r.Choose(63))
		} else {
			a.Expire += int64(r.Range(1, 100000))
		}
		return "expiry", true
	case 2:
		a.Address = "mix@evil.org"
		return "address", true
	case 3:
		a.TokenKey = bit(a.TokenKey)
		return "token key", true
	case 4:
		st.Signature = bit(st.Signature)
		return "signature", true
	case 5:
		st.PublicKey = bit(st.PublicKey)
		return "signer", true
	case 6:
		st.Addresses = append(st.Addresses[:i:i], st.Addresses[i+1:]...)
		return "entry removed", true
	case 7:
		st.Addresses = append(st.Addresses, *a)
		return "entry repeated", true
	case 8: // border between address and token key
		n := 1 + r.Choose(len(a.Address)-1)
		a.TokenKey = append([]byte(a.Address[n:]), a.TokenKey...)
		a.Address = a.Address[:n]
		return "address cut", true
	case 9: // border between key and expiry
		a.Pubkey = append(append([]byte{}, a.Pubkey...), 0)
		a.Expire = int64(uint64(a.Expire)<<8 | uint64(a.Address[0]))
		a.Address = a.Address[1:]
		return "key extended", true
	case 10: // entries merged
		if i+1 < len(st.Addresses) {
			n := st.Addresses[i+1]
			var e [8]byte
			binary.BigEndian.PutUint64(e[:], uint64(n.Expire))
			a.TokenKey = append(append(append(append(append([]byte{}, a.TokenKey...), n.Pubkey...), e[:]...), n.Address...), n.TokenKey...)
			st.Addresses = append(st.Addresses[:i+1:i+1], st.Addresses[i+2:]...)
			return "entries merged", true
		}
	case 11:
		if i+1 < len(st.Addresses) {
			st.Addresses[i], st.Addresses[i+1] = st.Addresses[i+1], st.Addresses[i]
			return "entries swapped", true
		}
	}
	return "", false
}

func (w *mixWorld) tmpl(n *xNym) nymaddr.AddressTemplate {
	return nymaddr.AddressTemplate{Secret: n.secret}
}

// newAddress makes a nym address from a list of mix keys, which may be old.
func (w *mixWorld) newAddress() {
	r := w.r
	var list mixaddr.AddressList
	if len(w.lists) > 0 && r.Bool(1, 4) {
		list = w.lists[r.Choose(len(w.lists))]
	} else {
		for _, m := range w.mixes {
			if st := m.kl.GetStatement(); st != nil {
				list = list.AddStatement(*st)
			}
		}
	}
	sort.Slice(list, func(i, j int) bool { return bytes.Compare(list[i].Pubkey, list[j].Pubkey) < 0 })
	n := w.nyms[r.Choose(len(w.nyms))]
	t := w.tmpl(n)
	t.MixCandidates = list
	t.Expire = w.now() + int64(r.Range(1, 3000))*int64(1+r.Choose(2)*r.Choose(300))
	if r.Bool(1, 3) {
		t.Expire = w.now() + int64(r.Range(1, 60))
	}
	t.SingleUse = r.Bool(1, 2)
	t.MinDelay, t.MaxDelay = int32(r.Choose(100)), int32(100+r.Choose(1000))
	can := map[[32]byte]*xMix{}
	for _, a := range list {
		if a.Expire > t.Expire {
			var k [32]byte
			copy(k[:], a.Pubkey)
			for _, m := range w.mixes {
				if m.name == a.Address {
					can[k] = m
				}
			}
		}
	}
	r.Eval("C15")
	raw, err := t.NewAddress(n.mailbox, n.nym)
	r.Logf("address single=%v for %d s, %d candidates -> %v", t.SingleUse, t.Expire-w.now(), len(can), err)
	if len(can) == 0 {
		r.Check(err == nymaddr.ErrNoMix, "C15", "address", "an address that outlives all mix keys was made (%v)", err)
		return
	}
	if !r.Check(err == nil, "C15", "address", "no address could be made: %v", err) {
		return
	}
	p, err := nymaddr.ParseAddress(raw)
	if !r.Check(err == nil, "C15", "address", "a new address cannot be parsed: %v", err) {
		return
	}
	a := &xAddr{raw: raw, nym: n, expire: t.Expire, single: t.SingleUse, min: t.MinDelay, max: t.MaxDelay}
	copy(a.key[:], p.MixPubKey)
	a.mix = can[a.key]
	if !r.Check(a.mix != nil && string(p.MixAddress) == a.mix.name && bytes.Equal(p.TokenPubKey, a.mix.priv[32:]) && p.Expire == t.Expire && p.SingleUse == t.SingleUse, "C15", "address", "the address uses a mix or key that is not a valid candidate") {
		return
	}
	for _, secret := range [][]byte{n.nym, n.mailbox[:20], n.secret} {
		r.Check(!bytes.Contains(raw, secret), "C15", "leak", "the address shows the nym or mailbox of its owner")
	}
	w.addrs = append(w.addrs, a)
}

func (w *mixWorld) payload() []byte {
	r := w.r
	n := r.Range(mixcrypt.RelayMinSize, mixcrypt.RelayMinSize+64)
	switch r.Choose(8) {
	case 0:
		n = mixcrypt.RelayMaxSize - r.Choose(2)
	case 1:
		n = mixcrypt.RelayMinSize
	case 2:
		if !r.NoFault {
			n = []int{0, 1, 255, 256, 257, mixcrypt.RelayMinSize - 1, mixcrypt.RelayMaxSize + 1, mixcrypt.RelayMaxSize + 1000}[r.Choose(8)]
		}
	}
	b := make([]byte, n)
	for i, x := 0, r.Bytes(32); i < n; i++ {
		b[i] = x[i%32] ^ byte(i/32)
	}
	return b
}

// create prepares a message.
func (w *mixWorld) create() {
	r := w.r
	if len(w.addrs) == 0 {
		w.newAddress()
		return
	}
	a := w.addrs[len(w.addrs)-1-r.Choose(min(len(w.addrs), 4))]
	m := &xMsg{id: len(w.msgs), addr: a, body: w.payload(), min: int32(r.Choose(100)), max: int32(100 + r.Choose(1000))}
	if !r.Bool(1, 4) {
		m.token = r.Bytes(1 + r.Choose(60))
		if r.Bool(1, 8) {
			m.token = append([]byte{0}, m.token...)
		}
	}
	if r.Bool(1, 4) {
		m.smart = "smart.mute.one"
	}
	if r.Bool(1, 4) {
		m.port = 587
	}
	in := mixclient.MessageInput{SenderMinDelay: m.min, SenderMaxDelay: m.max, Token: m.token, NymAddress: a.raw, Message: m.body, CACert: simCA, SmartHost: m.smart, SMTPPort: m.port}
	r.Eval("C15")
	out := in.Create()
	r.Logf("create message %d of %d bytes -> %v", m.id, len(m.body), out.Error)
	if a.expire < w.now() {
		r.Check(out.Error == nymaddr.ErrExpired, "C15", "expired", "a message to an expired address was made (%v)", out.Error)
		return
	}
	if !r.Check(out.Error == nil && out.To == a.mix.name, "C15", "create", "creating a message to %q failed: %v", out.To, out.Error) {
		return
	}
	r.Check(!bytes.Contains(out.Message, m.body[:min(len(m.body), 64)]) || len(m.body) < 8, "C15", "leak", "the mail shows the message")
	m.out = out.Marshal()
	w.msgs = append(w.msgs, m)
}

// deliver submits a message.
func (w *mixWorld) deliver() {
	r := w.r
	var open []*xMsg
	for _, m := range w.msgs {
		if !m.done && !m.final {
			open = append(open, m)
		}
	}
	if len(open) == 0 {
		w.create()
		return
	}
	w.submit(open[r.Choose(len(open))])
}

func (w *mixWorld) submit(m *xMsg) {
	r := w.r
	w.sending = m
	defer func() { w.sending = nil }()
	before := m.accepted
	srv := &mSMTP{w: w, m: m}
	w.srv(srv)
	mo := m.out.Unmarshal()
	orig := append([]byte{}, mo.Message...)
	var err error
	if r.Guard("C16", "Deliver", func() { mo, err = mo.Deliver() }) {
		return
	}
	got := m.accepted - before
	r.Logf("deliver message %d -> %v (accepted %d, plan %s)", m.id, err, got, srv.plan)
	r.Shape("deliver " + srv.plan)
	r.Eval("C16")
	r.Check(got <= 1, "C16", "twice", "one attempt submitted the message %d times", got)
	if err == nil {
		r.Check(got == 1, "C16", "not-accepted", "delivery was reported but the server never accepted the message (%s)", srv.plan)
		r.Check(!mo.Resend && mo.Message == nil, "C16", "state", "a delivered message is still marked for sending")
		r.Check(mo.Error == nil, "C16", "state", "a delivered message carries the error %v", mo.Error)
		mo.Marshal().Unmarshal().Deliver()
		mo.Deliver()
		r.Check(m.accepted-before == 1, "C16", "twice", "a delivered message was sent again")
		m.done = true
		return
	}
	// the reply to the message itself may be lost
	r.Check(got == 0 || srv.plan == "data-lost-reply", "C16", "accepted-error", "the server accepted the message but delivery failed with %v (%s)", err, srv.plan)
	if !mo.Resend {
		perm := strings.HasSuffix(srv.plan, "-5xx") || srv.plan == "no-tls"
		r.Check(perm, "C16", "final", "a temporary failure (%s) was taken for a permanent one", srv.plan)
		r.Check(got == 0, "C16", "final", "permanent failure reported although the server accepted the message")
		dials := srv.dials
		back := mo.Marshal().Unmarshal()
		_, err := back.Deliver()
		r.Check(srv.dials == dials && err != nil && !back.Resend, "C16", "final", "a message that failed for good is sent again once it was stored and loaded (%v)", err)
		m.final = true
		return
	}
	r.Check(bytes.Equal(mo.Message, orig) && mo.To == m.addr.mix.name, "C16", "state", "a message to be sent again was changed")
	perm := strings.HasSuffix(srv.plan, "-5xx") && srv.plan != "quit-5xx" && srv.plan != "dial-5xx"
	r.Check(!perm, "C16", "not-final", "a permanent failure (%s) is retried for ever", srv.plan)
	m.out = mo.Marshal()
}

type mSMTP struct {
	w    *mixWorld
	m    *xMsg
	plan string
	tls  bool
	rcpt string
	from string
	// the state of the connection
	dials int
	dead  bool
	mail  bool
	to    bool
}

var mServer *mSMTP

func (w *mixWorld) srv(s *mSMTP) {
	r := w.r
	s.plan = "ok"
	mServer = s
	if r.NoFault || r.Bool(2, 5) {
		return
	}
	stage := []string{"dial", "tls", "mail", "rcpt", "data", "quit"}[r.Choose(6)]
	kind := []string{"reset", "4xx", "5xx"}[r.Choose(3)]
	s.plan = stage + "-" + kind
	switch r.Choose(12) {
	case 0:
		s.plan = "no-tls"
	case 1, 2:
		s.plan = "wrong-ca"
	case 3, 4:
		s.plan = "data-lost-reply"
	}
	r.CountFault("smtp-" + s.plan)
}

func (w *mixWorld) dial(addr string) (smtp.Server, error) {
	s := mServer
	want := strings.SplitN(s.m.addr.mix.name, "@", 2)[1]
	if s.m.smart != "" {
		want = s.m.smart
	}
	if s.m.port != 0 {
		want += fmt.Sprintf(":%d", s.m.port)
	} else {
		want += ":25"
	}
	s.dials++
	s.dead, s.tls, s.mail, s.to = false, false, false, false
	w.r.Check(addr == want, "C16", "host", "connected to %s instead of %s", addr, want)
	if err := s.fail("dial"); err != nil {
		return nil, err
	}
	return s, nil
}

func (s *mSMTP) fail(stage string) error {
	if s.dead {
		return errors.New("sim: broken pipe")
	}
	switch s.plan {
	case stage + "-reset":
		s.dead = stage != "dial"
		return errors.New("sim: connection reset by peer")
	case stage + "-4xx":
		return &textproto.Error{Code: []int{421, 450, 451, 452}[s.w.r.Choose(4)], Msg: "try again later"}
	case stage + "-5xx":
		return &textproto.Error{Code: []int{500, 550, 552, 554}[s.w.r.Choose(4)], Msg: "rejected"}
	}
	return nil
}

func (s *mSMTP) StartTLS(cfg *tls.Config) error {
	if s.plan == "wrong-ca" {
		if !trusts(cfg, otherCA) {
			return errors.New("x509: certificate signed by unknown authority")
		}
		s.w.r.Fail("C16", "tls", "the client trusts a server of another authority")
	}
	if !trusts(cfg, simCA) {
		return errors.New("x509: certificate signed by unknown authority")
	}
	if err := s.fail("tls"); err != nil {
		return err
	}
	s.tls = true
	return nil
}
func (s *mSMTP) Extension(ext string) (bool, string) {
	return ext == "STARTTLS" && s.plan != "no-tls", ""
}
func (s *mSMTP) Mail(from string) error {
	s.from = from
	err := s.fail("mail")
	s.mail = err == nil
	return err
}
func (s *mSMTP) Rcpt(to string) error {
	if !s.mail {
		return &textproto.Error{Code: 503, Msg: "no sender"}
	}
	s.rcpt = to
	err := s.fail("rcpt")
	s.to = err == nil
	return err
}
func (s *mSMTP) Data(mail []byte) error {
	r := s.w.r
	r.Check(s.tls, "C16", "tls", "the message was sent over an unprotected connection")
	r.Check(s.rcpt == s.m.addr.mix.name, "C16", "host", "the message was sent to %s", s.rcpt)
	if err := s.fail("data"); err != nil {
		return err
	}
	if !s.to {
		return &textproto.Error{Code: 503, Msg: "no valid recipients"}
	}
	s.m.accepted++
	s.m.addr.mix.inbox = append(s.m.addr.mix.inbox, &xMail{mail: append([]byte{}, mail...), msg: s.m})
	if s.plan == "data-lost-reply" {
		return errors.New("sim: connection reset by peer")
	}
	return nil
}
func (s *mSMTP) Quit() error { return s.fail("quit") }

// relay: a mix processes one of its messages.
func (w *mixWorld) relay() {
	r := w.r
	var have []*xMix
	for _, m := range w.mixes {
		if len(m.inbox) > 0 {
			have = append(have, m)
		}
	}
	if len(have) == 0 {
		w.deliver()
		return
	}
	w.relayOne(have[r.Choose(len(have))])
}

func (w *mixWorld) relayOne(m *xMix) {
	r := w.r
	if len(m.inbox) == 0 {
		return
	}
	i := r.Choose(len(m.inbox))
	mail := m.inbox[i]
	m.inbox = append(m.inbox[:i:i], m.inbox[i+1:]...)
	w.process(m, mail)
}

func (w *mixWorld) process(m *xMix, mail *xMail) {
	r := w.r
	var rs *mixcrypt.ReceiveStruct
	var err error
	var out []byte
	var to string
	r.Eval("C15")
	if r.Guard("C15", "relay", func() {
		var body []byte
		body, err = mixclient.ReadMail(mail.mail)
		if err != nil {
			return
		}
		rs, err = mixcrypt.ReceiveMessage(m.kl.GetPrivateKey, body)
		if err != nil {
			return
		}
		out, to, err = rs.Send()
	}) {
		return
	}
	r.Logf("%s relays %s -> %v", m.name[:4], mail.what, err)
	msg := mail.msg
	r.Shape(fmt.Sprintf("relay %v %v %v", msg != nil, mail.altered, err == nil))
	if msg == nil {
		w.forged(m, mail, rs, to, err)
		return
	}
	now := w.now()
	size := len(msg.body)
	should := !mail.altered && m == msg.addr.mix && msg.addr.expire >= now && size >= mixcrypt.RelayMinSize && size <= mixcrypt.RelayMaxSize
	if !should {
		r.Check(err != nil, "C15", "accepted", "a mix relayed a message it must refuse (altered %v, own %v, %d bytes, expires in %d s)", mail.altered, m == msg.addr.mix, size, msg.addr.expire-now)
		return
	}
	if !r.Check(err == nil, "C15", "refused", "%s refused a valid message %d s before its address expires: %v", m.name, msg.addr.expire-now, err) {
		return
	}
	r.Counter["relayed"]++
	h := rs.MixHeader
	r.Check(h.SenderMinDelay == msg.min && h.SenderMaxDelay == msg.max && h.MessageType == mixcrypt.MessageTypeRelay, "C15", "header", "the delays of the sender changed in transit")
	r.Check(bytes.Equal(h.Token, msg.token), "C15", "header", "the token changed in transit: %x instead of %x", h.Token, msg.token)
	r.Check(bytes.Equal(h.RevokeID, msg.out.Unmarshal().RevokeID) && len(h.RevokeID) == 32, "C15", "header", "the revocation id changed in transit")
	r.Check(rs.NymAddressPrivate.MinDelay == msg.addr.min && rs.NymAddressPrivate.MaxDelay == msg.addr.max && rs.NymAddressPrivate.SingleUse == msg.addr.single && rs.NymAddressPrivate.Expire == msg.addr.expire, "C15", "header", "the settings of the receiver changed in transit")
	want := string(msg.addr.nym.mailbox) + mixcrypt.MuteSystemDomain
	r.Check(to == want, "C15", "misdelivered", "the message goes to %q instead of %q", to, want)
	// uniqueness
	n := 1
	if msg.addr.single {
		n = 2
	}
	r.Check(len(rs.UniqueTest) == n, "C15", "uniqueness", "%d uniqueness tests instead of %d", len(rs.UniqueTest), n)
	dup, other := false, ""
	for i, u := range rs.UniqueTest {
		r.Check(u.Expire >= msg.addr.expire, "C15", "uniqueness", "a uniqueness record expires %d s before the address", msg.addr.expire-u.Expire)
		if o, ok := m.unique[string(u.Hash)]; ok {
			dup = true
			if i == 0 && o != fmt.Sprint(msg.id) {
				other = o
			}
		}
	}
	r.Check(other == "", "C15", "collision", "messages %s and %d have the same uniqueness hash", other, msg.id)
	again := msg.relayed > 0 || (msg.addr.single && msg.addr.used)
	r.Check(dup == again, "C15", "replay", "a repeated message or address is not recognised (duplicate %v, expected %v)", dup, again)
	if dup || again {
		return
	}
	for _, u := range rs.UniqueTest {
		m.unique[string(u.Hash)] = fmt.Sprint(msg.id)
	}
	msg.relayed++
	msg.addr.used = true
	w.mailbox(msg, out)
}

// mailbox: the receiver reads what the mix delivered.
func (w *mixWorld) mailbox(msg *xMsg, out []byte) {
	r := w.r
	n := msg.addr.nym
	read := func(n *xNym, b []byte) (dec, nym []byte, err error) {
		b = append([]byte{}, b...)
		r.Guard("C15", "ReceiveFromMix", func() { dec, nym, err = mixcrypt.ReceiveFromMix(w.tmpl(n), n.mailbox, b) })
		return
	}
	dec, nym, err := read(n, out)
	r.Eval("C15")
	r.Check(err == nil && bytes.Equal(dec, msg.body) && bytes.Equal(nym, n.nym), "C15", "content", "the receiver did not get the message that was sent: %v", err)
	r.Check(!bytes.Contains(out, msg.body[:64]), "C15", "leak", "the account server sees the message")
	for _, o := range w.nyms {
		if bytes.Equal(o.mailbox, n.mailbox) && bytes.Equal(o.secret, n.secret) {
			continue
		}
		_, _, err := read(o, out)
		r.Check(err != nil, "C15", "foreign", "a message was read with another mailbox or secret")
	}
	for i := 0; i < 3 && !r.NoFault; i++ {
		bad := append([]byte{}, out...)
		what := ""
		switch r.Choose(5) {
		case 0:
			p := r.Choose(min(len(bad), 400))
			bad[p] ^= byte(1 << uint(r.Choose(8)))
			what = fmt.Sprintf("bit in byte %d", p)
		case 1:
			bad = bad[:r.Choose(len(bad))]
			what = "cut"
		case 2:
			bad[len(bad)-1-r.Choose(64)] ^= 4
			what = "bit at the end"
		case 3:
			binary.BigEndian.PutUint16(bad, uint16(r.Choose(65536)))
			what = "length"
		case 4:
			bad = append(bad, 0)
			what = "extended"
		}
		if bytes.Equal(bad, out) {
			continue
		}
		r.CountFault("altered-delivery")
		dec, nym, err := read(n, bad)
		r.Check(err != nil, "C15", "altered-delivery", "an altered delivery (%s) was accepted: same message %v, same nym %v", what, bytes.Equal(dec, msg.body), bytes.Equal(nym, n.nym))
	}
}

// adversary copies, alters, redirects or delays mail in a mix's inbox.
func (w *mixWorld) adversary() {
	r := w.r
	if r.NoFault {
		return
	}
	var src []*xMsg
	for _, m := range w.msgs {
		if m.out != nil && !m.final {
			src = append(src, m)
		}
	}
	if len(src) == 0 {
		return
	}
	m := src[r.Choose(len(src))]
	mo := m.out.Unmarshal()
	if mo.Message == nil {
		return
	}
	body, err := mixclient.ReadMail(mo.Message)
	if err != nil {
		r.Fail("C15", "mail", "the mail cannot be read: %v", err)
		return
	}
	to := m.addr.mix
	mail := &xMail{msg: m}
	switch r.Choose(6) {
	case 0, 1:
		mail.what = "replay"
		r.CountFault("replayed-mail")
	case 2, 3:
		mail.what, mail.altered = "altered copy", true
		p := r.Choose(min(len(body), 500))
		if r.Bool(1, 3) {
			p = r.Choose(len(body))
		}
		bit := r.Choose(8)
		if p == 63 && bit == 7 {
			bit = 0 // curve25519 ignores the topmost bit of a public key
		}
		if p == 31 && bit == 7 {
			bit = 0
		}
		body[p] ^= byte(1 << uint(bit))
		r.CountFault("altered-mail")
	case 4:
		mail.what, mail.altered = "cut copy", true
		body = body[:r.Choose(len(body))]
		r.CountFault("altered-mail")
	case 5:
		mail.what = "redirected copy"
		to = w.mixes[r.Choose(len(w.mixes))]
		r.CountFault("redirected-mail")
	}
	mail.mail = mixclient.WriteMail("x@y", to.name, body)
	to.inbox = append(to.inbox, mail)
}

// forge: a sender who does not follow the protocol.
func (w *mixWorld) forge() {
	r := w.r
	if r.NoFault || len(w.addrs) == 0 {
		return
	}
	a := w.addrs[len(w.addrs)-1-r.Choose(min(len(w.addrs), 4))]
	h := mixcrypt.ClientMixHeader{MessageType: int32(r.Range(-1, 4)), Token: []byte{1, 2}, Address: a.raw, RevokeID: []byte{3}}
	mail := &xMail{what: fmt.Sprintf("forged type %d", h.MessageType)}
	var p nymaddr.Address
	asn1.Unmarshal(a.raw, &p)
	key := new([32]byte)
	copy(key[:], p.MixPubKey)
	body := w.payload()
	switch r.Choose(9) {
	case 0:
		h.Token = nil
	case 1:
		h.RevokeID = nil
	case 2:
		h.Address = r.Bytes(r.Choose(100))
	case 3: // the outer, unprotected part of the address
		h.MessageType = mixcrypt.MessageTypeRelay
		p.Expire += int64(r.Range(1, 5000))
		if left := a.expire - w.now(); left > 1 && r.Bool(1, 2) {
			p.Expire = w.now() + 1 + int64(r.Choose(int(left)))
		}
		h.Address, _ = asn1.Marshal(p)
		mail.what = "address with another expiry"
	case 4:
		h.MessageType = mixcrypt.MessageTypeRelay
		p.SingleUse = !p.SingleUse
		h.Address, _ = asn1.Marshal(p)
		mail.what = "address with other use"
	case 5:
		h.MessageType = mixcrypt.MessageTypeRelay
		p.PrivateData = append([]byte{}, p.PrivateData...)
		p.PrivateData[r.Choose(len(p.PrivateData))] ^= byte(1 + r.Choose(255))
		h.Address, _ = asn1.Marshal(p)
		mail.what, mail.altered = "address altered", true
	case 6:
		h.MessageType = mixcrypt.MessageTypeRelay
		p.PrivateData = p.PrivateData[:r.Choose(len(p.PrivateData))]
		h.Address, _ = asn1.Marshal(p)
		mail.what, mail.altered = "address cut", true
	case 7:
		body = body[:r.Choose(min(len(body), 300)+1)]
	}
	d, err := asn1.Marshal(h)
	if err != nil {
		return
	}
	l := len(d)
	if r.Bool(1, 6) {
		l = []int{0, 1, 65533, 65534, 65535, len(d) + 1, len(d) - 1, len(d) + len(body)}[r.Choose(8)]
		mail.what += fmt.Sprintf(" length %d of %d", l, len(d))
	}
	pt := append([]byte{byte(l >> 8), byte(l)}, d...)
	pt = append(pt, body...)
	if r.Bool(1, 12) {
		pt = pt[:r.Choose(8)]
	}
	enc, err := mixcrypt.Encrypt(key, nil, pt)
	if err != nil {
		panic(err)
	}
	mail.mail = mixclient.WriteMail("x@y", a.mix.name, enc)
	mail.mail = append([]byte{}, mail.mail...)
	r.CountFault("forged-mail")
	w.process(a.mix, mail)
}

// forged checks what a mix makes of a message that was not made by the client.
func (w *mixWorld) forged(m *xMix, mail *xMail, rs *mixcrypt.ReceiveStruct, to string, err error) {
	r := w.r
	if err != nil {
		return
	}
	t := rs.MixHeader.MessageType
	r.Check(t == mixcrypt.MessageTypeRelay || t == mixcrypt.MessageTypeForward, "C15", "type", "a message of the unknown type %d was accepted", t)
	n := len(rs.Message)
	if t == mixcrypt.MessageTypeRelay {
		r.Check(n >= mixcrypt.RelayMinSize && n <= mixcrypt.RelayMaxSize, "C15", "size", "a relay message of %d bytes was accepted", n)
		r.Check(!mail.altered, "C15", "accepted", "a message with an altered address was relayed")
		var own *xAddr
		for _, a := range w.addrs {
			var p nymaddr.Address
			asn1.Unmarshal(a.raw, &p)
			if bytes.Equal(p.AddressKey, rs.NymAddress.AddressKey) {
				own = a
			}
		}
		if r.Check(own != nil, "C15", "accepted", "a message with an unknown address was relayed") {
			r.Check(to == string(own.nym.mailbox)+mixcrypt.MuteSystemDomain, "C15", "misdelivered", "delivered to %q", to)
			r.Check(own.expire >= w.now(), "C15", "expired", "a message was relayed %d s after its address expired", w.now()-own.expire)
			r.Check((len(rs.UniqueTest) == 2) == own.single, "C15", "uniqueness", "the sender changed whether the address is for a single use")
			if own.single {
				own.used = true
			}
			for _, u := range rs.UniqueTest {
				r.Check(u.Expire >= own.expire, "C15", "uniqueness", "a uniqueness record expires %d s before the address", own.expire-u.Expire)
				m.unique[string(u.Hash)] = "forged"
			}
		}
	} else {
		r.Check(n >= mixcrypt.ForwardMinSize && n <= mixcrypt.ForwardMaxSize, "C15", "size", "a forward message of %d bytes was accepted", n)
		r.Check(len(rs.UniqueTest) == 1, "C15", "uniqueness", "forward message with %d uniqueness tests", len(rs.UniqueTest))
	}
}
