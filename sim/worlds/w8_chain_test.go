//go:build go1.25

package worlds

import (
	"bytes"
	"crypto/ed25519"
	"crypto/rand"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/hex"
	"encoding/json"
	"fmt"
	nethttp "net/http"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"github.com/mutecomm/mute/cipher"
	"github.com/mutecomm/mute/configclient"
	"github.com/mutecomm/mute/encdb"
	"github.com/mutecomm/mute/encode/base64"
	"github.com/mutecomm/mute/keydb"
	"github.com/mutecomm/mute/uid"
	simos "github.com/mutecomm/mute/zzverif/shim/os"
	"github.com/mutecomm/mute/zzverif/sim"
)

// The chain world: mutecrypt commands of two users against two key servers
// which may lie, over a network that loses requests and replies, on a disk
// that fails, with crashes at every operation.

func init() {
	register(&sim.World{Name: "chain", Bubble: true, Body: chainBody, Nontrivial: func(r *sim.Run) bool { return r.Counter["commands"] > 8 }})
}

const vPass = "correct horse"

var vDomains = []string{"mute.one", "chain.two"}

type vHome struct {
	name      string
	dir       string
	chain     map[string][]string // model of the stored chain
	pub       map[string]bool     // stored public UIDs
	kis       map[string]bool
	confirmed map[string]string // by registered message: the confirmation of the key server
	privs     map[string]bool
}

type vRow struct {
	id   string
	pos  int
	json string
}

type vState struct {
	chain map[string][]string
	bad   string // positions are not 0..n-1
	pub   []vRow
	kis   []vRow // id: SIGKEYHASH
	priv  []vRow // json: UID, id
	reply map[string]string
	privs []vRow // key inits: id = PUBKEYHASH, json, ServerSignature in reply
}

type vDelivered struct {
	announced interface{}
	entries   map[int]string
	uidReply  []map[string]interface{}
	keyInits  []string
	sigs      [][]string
	tampered  bool
	requests  int
}

type chainWorld struct {
	r      *sim.Run
	m      *vMachine
	ks     map[string]*vKS
	homes  []*vHome
	ids    []string // identities nobody of the homes owns
	own    map[string]*uid.Message
	del    vDelivered
	lies   bool // the servers lie in this run
	lieNum int
	fork   bool // the next chain delivered is a fork
	second int  // 1: use the first own identity, 2: the second
	next   int
}

func vConfigMap(extra map[string]string) map[string]string {
	m := map[string]string{
		"mixclient.RPCPort": "8080", "mixclient.MixAddress": "mix@mix.mute.one", "mixclient.AccountServer": "accounts.mute.one",
		"mixclient.Sender": "sender@mute.one", "walletrpc.ServiceURL": "https://wallet.mute.one/", "keylookup.ServiceURL": "https://lookup.mute.one/",
		"guardrpc.ServiceURL": "https://guard.mute.one/", "serviceguard.TrustRoot": strings.Repeat("11", 32), "mix.MaxDelay": "3600",
		"muteaccd.owner": strings.Repeat("22", 32), "muteaccd.usage": "account",
	}
	for _, d := range vDomains {
		m["keyserver."+d] = "https://keys." + d + "/"
	}
	for k, v := range extra {
		m[k] = v
	}
	return m
}

// vWriteConfig stores a configuration as mutectrl would.
func vWriteConfig(dir string, m map[string]string) {
	c := &configclient.Config{PublicKey: make([]byte, 32), URLList: "10,cfg.mute.one", CACert: simCA, Map: m, LastSignDate: 1}
	b, err := json.Marshal(c)
	if err != nil {
		panic(err)
	}
	if err := os.MkdirAll(filepath.Join(dir, "config"), 0700); err != nil {
		panic(err)
	}
	if err := os.WriteFile(filepath.Join(dir, "config", "mainnet@mute.one"), b, 0600); err != nil {
		panic(err)
	}
}

func (w *chainWorld) crypt(h *vHome, stdin []byte, args ...string) (res vResult) {
	defer func() {
		verdict := "failed"
		if res.ok() {
			verdict = "ok"
		} else if res.crashed {
			verdict = "interrupted"
		}
		w.r.Counter["cmd-"+strings.Join(args[:min(2, len(args))], "-")+"-"+verdict]++
	}()
	a := append([]string{"--homedir", h.dir, "--logdir", filepath.Join(h.dir, "log")}, args...)
	w.del = vDelivered{entries: map[int]string{}}
	w.r.Logf("%s: mutecrypt %s", h.name, strings.Join(args, " "))
	res = w.m.run(vCmd{prog: "mutecrypt", args: a, stdin: stdin, pass: []string{vPass}})
	w.r.Logf("  -> code %d%s %s", res.code, map[bool]string{true: " crashed"}[res.crashed], vClip(res.errs))
	prop := "C12"
	if len(args) > 0 && args[0] == "hashchain" {
		prop = "C11"
	}
	if w.m.panics != "" {
		w.r.Fail(prop, "panic", "mutecrypt %s panics: %s", strings.Join(args, " "), w.m.panics)
	}
	if w.m.hung {
		w.r.Fail(prop, "hang", "mutecrypt %s does not end", strings.Join(args, " "))
	}
	return res
}

func vClip(s string) string {
	s = strings.TrimSpace(s)
	if len(s) > 160 {
		s = s[:160] + "..."
	}
	return strings.Replace(s, "\n", " / ", -1)
}

// load reads the key database of h.
func (w *chainWorld) load(h *vHome) *vState {
	st, err := vLoadKeys(filepath.Join(h.dir, "keys"))
	if err != nil {
		w.r.Fail("C11", "db-lost", "the key database cannot be opened: %v", err)
		w.r.Stop()
	}
	return st
}

func vLoadKeys(name string) (*vState, error) {
	db, err := encdb.Open(name, []byte(vPass))
	if err != nil {
		return nil, err
	}
	defer db.Close()
	st := &vState{chain: map[string][]string{}, reply: map[string]string{}}
	rows, err := db.Query("SELECT Domain, Position, Entry FROM Hashchains ORDER BY Domain, Position, ID;")
	if err != nil {
		return nil, err
	}
	for rows.Next() {
		var d, e string
		var p int64
		if err := rows.Scan(&d, &p, &e); err != nil {
			return nil, err
		}
		if int64(len(st.chain[d])) != p && st.bad == "" {
			st.bad = fmt.Sprintf("domain %s has position %d after %d entries", d, p, len(st.chain[d]))
		}
		st.chain[d] = append(st.chain[d], e)
	}
	rows.Close()
	rows, err = db.Query("SELECT IDENTITY, POSITION, UIDMessage FROM PublicUIDs ORDER BY ID;")
	if err != nil {
		return nil, err
	}
	for rows.Next() {
		var x vRow
		if err := rows.Scan(&x.id, &x.pos, &x.json); err != nil {
			return nil, err
		}
		st.pub = append(st.pub, x)
	}
	rows.Close()
	rows, err = db.Query("SELECT SIGKEYHASH, KeyInit FROM PublicKeyInits ORDER BY ID;")
	if err != nil {
		return nil, err
	}
	for rows.Next() {
		var x vRow
		if err := rows.Scan(&x.id, &x.json); err != nil {
			return nil, err
		}
		st.kis = append(st.kis, x)
	}
	rows.Close()
	rows, err = db.Query("SELECT IDENTITY, UIDMessage, UIDMessageReply FROM PrivateUIDs ORDER BY IDENTITY, MSGCOUNT DESC, ID;")
	if err != nil {
		return nil, err
	}
	for rows.Next() {
		var x vRow
		var rep string
		if err := rows.Scan(&x.id, &x.json, &rep); err != nil {
			return nil, err
		}
		st.priv = append(st.priv, x)
		st.reply[x.json] = rep
	}
	rows.Close()
	rows, err = db.Query("SELECT KeyInit, ServerSignature FROM PrivateKeyInits ORDER BY ID;")
	if err != nil {
		return nil, err
	}
	for rows.Next() {
		var x vRow
		if err := rows.Scan(&x.json, &x.id); err != nil {
			return nil, err
		}
		st.privs = append(st.privs, x)
	}
	rows.Close()
	return st, rows.Err()
}

// canonical form of a JSON text: sorted keys, no spaces.
func vCanonical(s string) (map[string]json.RawMessage, []byte, error) {
	d := json.NewDecoder(strings.NewReader(s))
	d.UseNumber()
	var m map[string]interface{}
	if err := d.Decode(&m); err != nil {
		return nil, nil, err
	}
	b, err := json.Marshal(m)
	if err != nil {
		return nil, nil, err
	}
	out := map[string]json.RawMessage{}
	for k, v := range m {
		x, err := json.Marshal(v)
		if err != nil {
			return nil, nil, err
		}
		out[k] = x
	}
	return out, b, nil
}

func vVerify(pub string, msg []byte, sig string) bool {
	p, err := base64.Decode(pub)
	if err != nil || len(p) != ed25519.PublicKeySize {
		return false
	}
	s, err := base64.Decode(sig)
	if err != nil || len(s) != ed25519.SignatureSize {
		return false
	}
	return ed25519.Verify(ed25519.PublicKey(p), msg, s)
}

// vUID is the part of a UID message the reference checks look at.
type vUID struct {
	UIDContent struct {
		VERSION  string
		MSGCOUNT uint64
		IDENTITY string
		SIGKEY   struct{ CIPHERSUITE, FUNCTION, HASH, PUBKEY string }
		PUBKEYS  []struct{ CIPHERSUITE, FUNCTION, HASH, PUBKEY string }
		REPOURIS []string
	}
	SELFSIGNATURE string
}

// vCheckUID is the reference check of a UID message for identity id.
func vCheckUID(jsn, id string) (*vUID, string) {
	top, _, err := vCanonical(jsn)
	if err != nil {
		return nil, "is not JSON"
	}
	var u vUID
	if err := json.Unmarshal([]byte(jsn), &u); err != nil {
		return nil, "is not a UID message"
	}
	c := &u.UIDContent
	if c.IDENTITY != id {
		return &u, fmt.Sprintf("is for identity %q", c.IDENTITY)
	}
	if !vVerify(c.SIGKEY.PUBKEY, top["UIDContent"], u.SELFSIGNATURE) {
		return &u, "has no valid self-signature"
	}
	if c.VERSION != "1.0" {
		return &u, "has version " + c.VERSION
	}
	if len(c.PUBKEYS) != 1 || c.PUBKEYS[0].FUNCTION != "ECDHE25519" {
		return &u, "does not have exactly one public key"
	}
	if p, err := base64.Decode(c.PUBKEYS[0].PUBKEY); err != nil || len(p) != 32 {
		return &u, "has a malformed public key"
	}
	if len(c.REPOURIS) != 1 || !strings.HasSuffix(id, "@"+c.REPOURIS[0]) {
		return &u, "has wrong REPOURIS"
	}
	return &u, ""
}

// vCheckKeyInit is the reference check of a key init message for the identity
// with signature key pub.
func vCheckKeyInit(jsn, domain, pub string) string {
	top, _, err := vCanonical(jsn)
	if err != nil {
		return "is not JSON"
	}
	var ki struct {
		Contents struct {
			NOTAFTER, NOTBEFORE              uint64
			SIGKEYHASH, REPOURI              string
			SESSIONANCHOR, SESSIONANCHORHASH string
		}
		SIGNATURE string
	}
	if err := json.Unmarshal([]byte(jsn), &ki); err != nil {
		return "is not a key init message"
	}
	p, _ := base64.Decode(pub)
	h1 := sha512.Sum512(p)
	h2 := sha512.Sum512(h1[:])
	if ki.Contents.SIGKEYHASH != base64.Encode(h2[:]) {
		return "is for another signature key"
	}
	if !vVerify(pub, top["Contents"], ki.SIGNATURE) {
		return "is not signed by the identity"
	}
	if ki.Contents.REPOURI != domain {
		return "is for another repository"
	}
	if ki.Contents.NOTAFTER < uint64(time.Now().Unix()) {
		return "is expired"
	}
	enc, err := base64.Decode(ki.Contents.SESSIONANCHOR)
	if err != nil || len(enc) < 16 {
		return "has no session anchor"
	}
	return ""
}

// observe checks what a command did to the key database.
func (w *chainWorld) observe(h *vHome, cmd []string, res vResult) *vState {
	r := w.r
	st := w.load(h)
	r.Eval("C11")
	if st.bad != "" {
		r.Fail("C11", "gap", "local hash chain: %s", st.bad)
	}
	for _, d := range vDomains {
		old, cur := h.chain[d], st.chain[d]
		if cmd[0] == "hashchain" && cmd[1] == "delete" && len(cur) == 0 && cmd[3] == d {
			h.chain[d] = nil
			continue
		}
		if len(cur) < len(old) {
			r.Fail("C11", "removed", "local hash chain of %s had %d entries, has %d", d, len(old), len(cur))
		}
		for i, e := range old {
			if i < len(cur) && cur[i] != e {
				r.Fail("C11", "changed", "local hash chain of %s: entry %d changed", d, i)
			}
		}
		for i := len(old); i < len(cur); i++ {
			if cmd[0] != "hashchain" || cmd[1] != "sync" || cmd[3] != d {
				r.Fail("C11", "grew", "local hash chain of %s grew without a sync", d)
			}
			if e, ok := w.del.entries[i]; !ok || e != cur[i] {
				r.Fail("C11", "wrong-entry", "entry %d of %s is not what the key server delivered for that position", i, d)
			}
		}
		h.chain[d] = append([]string{}, cur...)
	}
	// identities
	known := map[string]bool{}
	for _, x := range st.pub {
		key := fmt.Sprintf("%s %d %s", x.id, x.pos, x.json)
		known[key] = true
		if h.pub[key] {
			continue
		}
		r.Eval("C12")
		w.newUID(h, st, cmd, x)
	}
	for k := range h.pub {
		if !known[k] {
			r.Fail("C12", "uid-lost", "a stored public UID disappeared: %s", vClip(k))
		}
	}
	h.pub = known
	for _, x := range st.kis {
		if h.kis[x.json] {
			continue
		}
		h.kis[x.json] = true
		r.Eval("C12")
		if cmd[0] != "keyinit" || cmd[1] != "fetch" {
			r.Fail("C12", "keyinit-unasked", "%v stored a key init message", cmd)
			continue
		}
		id := cmd[3]
		u := w.newest(st, id)
		if u == nil {
			r.Fail("C12", "keyinit-no-uid", "a key init message was stored for %s, whose UID is unknown", id)
			continue
		}
		if why := vCheckKeyInit(x.json, vDomainOf(id), u.UIDContent.SIGKEY.PUBKEY); why != "" {
			r.Fail("C12", "keyinit-invalid", "the key init message stored for %s %s", id, why)
		}
	}
	for _, x := range st.privs {
		if h.privs[x.json] {
			continue
		}
		h.privs[x.json] = true
		r.Eval("C12")
		ok := false
		for _, l := range w.del.sigs {
			for _, s := range l {
				ok = ok || s == x.id
			}
		}
		_, b, _ := vCanonical(x.json)
		k := w.ks[vDomainOf(cmd[3])]
		if !ok || !vVerify(k.srv.SigPubKey(), b, x.id) {
			r.Fail("C12", "keyinit-unsigned", "an own key init message was stored as added, but the key server's signature is not valid")
		}
	}
	return st
}

func vDomainOf(id string) string { return id[strings.IndexByte(id, '@')+1:] }

func (w *chainWorld) newest(st *vState, id string) *vUID {
	var best *vRow
	for i := range st.pub {
		x := &st.pub[i]
		if x.id == id && (best == nil || x.pos > best.pos) {
			best = x
		}
	}
	if best == nil {
		return nil
	}
	var u vUID
	if json.Unmarshal([]byte(best.json), &u) != nil {
		return nil
	}
	return &u
}

// newUID checks a public UID the command stored.
func (w *chainWorld) newUID(h *vHome, st *vState, cmd []string, x vRow) {
	r := w.r
	if cmd[0] != "hashchain" || (cmd[1] != "search" && cmd[1] != "lookup") {
		r.Fail("C12", "uid-unasked", "%v stored a public UID", cmd)
		return
	}
	id := cmd[3]
	if x.id != id {
		r.Fail("C12", "uid-identity", "asked for %s, stored a UID of %s", id, x.id)
		return
	}
	u, why := vCheckUID(x.json, id)
	if why != "" {
		r.Fail("C12", "uid-invalid", "the UID stored for %s %s", id, why)
		return
	}
	chain := st.chain[vDomainOf(id)]
	if x.pos >= len(chain) {
		r.Fail("C12", "uid-position", "the UID stored for %s at %d has no hash chain entry", id, x.pos)
		return
	}
	hash, index, ok := vCommitted(chain[x.pos], id)
	if !ok {
		r.Fail("C12", "uid-not-in-chain", "the hash chain entry %d is not for %s", x.pos, id)
		return
	}
	got := sha256.Sum256([]byte(x.json))
	if !bytes.Equal(got[:], hash) {
		r.Fail("C12", "uid-not-committed", "the UID stored for %s at %d is not the one the hash chain commits to", id, x.pos)
	}
	idx := sha256.Sum256(hash)
	if !bytes.Equal(idx[:], index) {
		r.Fail("C12", "uid-index", "the entry %d of %s has the index of something else", x.pos, id)
	}
	if strings.HasPrefix(id, "keyserver@") && u.UIDContent.MSGCOUNT == 0 {
		return
	}
	// the key server's signature key known for that position
	var srv *vRow
	for i := range st.pub {
		y := &st.pub[i]
		if y.id == "keyserver@"+vDomainOf(id) && y.pos <= x.pos && y.json != x.json && (srv == nil || y.pos > srv.pos) {
			srv = y
		}
	}
	if srv == nil {
		r.Fail("C12", "uid-no-server-key", "the UID of %s was stored without a key to check the server's signature", id)
		return
	}
	var s vUID
	json.Unmarshal([]byte(srv.json), &s)
	for _, rep := range w.del.uidReply {
		b, err := json.Marshal(rep)
		if err != nil {
			continue
		}
		top, _, err := vCanonical(string(b))
		if err != nil {
			continue
		}
		sig, _ := rep["SERVERSIGNATURE"].(string)
		e, _ := rep["ENTRY"].(map[string]interface{})
		enc, _ := e["UIDMESSAGEENCRYPTED"].(string)
		raw, err := base64.Decode(enc)
		if err != nil || len(raw) < 48 {
			continue
		}
		if bytes.Equal(vCTR(hash, raw[32:]), []byte(x.json)) && vVerify(s.UIDContent.SIGKEY.PUBKEY, top["ENTRY"], sig) {
			return
		}
	}
	r.Fail("C12", "uid-unsigned", "the UID stored for %s at %d was not delivered with a valid signature of the key server", id, x.pos)
}

func vCTR(key, enc []byte) []byte {
	b := vBlock(key)
	out := make([]byte, len(enc)-16)
	b(enc[:16], out, enc[16:])
	return out
}

// tamper makes the key servers lie.
func (w *chainWorld) tamper(req *nethttp.Request, q *rpcRequest, res map[string]interface{}) map[string]interface{} {
	r := w.r
	k := w.ksFor(req.URL.Host)
	if w.fork && q.Method == "KeyHashchain.FetchHashChain" {
		w.fork = false
		w.del.tampered = true
		r.CountFault("forked-chain")
		res = w.forked(k, res)
	} else if w.lies && (q.Method != "KeyRepository.Capabilities" || r.Bool(1, 8)) && r.Fault("lying-server", w.lieNum*map[bool]int{true: 3, false: 1}[strings.HasPrefix(q.Method, "KeyInit")], 8) {
		w.del.tampered = true
		res = w.lie(k, q, res)
	}
	return res
}

// seen remembers what was delivered.
func (w *chainWorld) seen(q *rpcRequest, res map[string]interface{}) {
	// as the receiver sees it
	if b, err := json.Marshal(res); err == nil {
		var c map[string]interface{}
		if json.Unmarshal(b, &c) == nil {
			res = c
		}
	}
	switch q.Method {
	case "KeyHashchain.FetchLastHashChain":
		w.del.announced = res["HCPos"]
	case "KeyHashchain.FetchHashChain":
		first, ok := res["HCFirstPos"].(float64)
		es, _ := res["HCEntries"].([]interface{})
		if ok {
			for i, e := range es {
				if s, ok := e.(string); ok {
					w.del.entries[int(first)+i] = s
				}
			}
		}
	case "KeyRepository.FetchUID", "KeyRepository.CreateUID", "KeyRepository.UpdateUID":
		if m, ok := res["UIDMessageReply"].(map[string]interface{}); ok {
			w.del.uidReply = append(w.del.uidReply, m)
		}
	case "KeyInitRepository.AddKeyInit":
		var l []string
		sigs, _ := res["Signatures"].([]interface{})
		for _, s := range sigs {
			if x, ok := s.(string); ok {
				l = append(l, x)
			}
		}
		w.del.sigs = append(w.del.sigs, l)
	}
}

// forked replaces a correctly linked chain's end, from a seeded entry on.
func (w *chainWorld) forked(k *vKS, res map[string]interface{}) map[string]interface{} {
	c := vGeneric(res)
	es := c["HCEntries"].([]interface{})
	first := int(c["HCFirstPos"].(float64))
	prev := ""
	if first > 0 {
		prev = k.chain[first-1]
	}
	from := len(es) - 1 - w.r.Choose(min(len(es), 3))
	for i := range es {
		p, _ := vSplit(es[i].(string))
		if i == from {
			p[2+w.r.Choose(4)][w.r.Choose(8)] ^= 1
		}
		es[i] = vLink(prev, 1, p[2:]...)
		prev = es[i].(string)
	}
	c["HCEntries"] = es
	w.r.Logf("    lie: fork at %d", first+from)
	return c
}

func (w *chainWorld) ksFor(host string) *vKS {
	for _, k := range w.ks {
		if k.host == host {
			return k
		}
	}
	return nil
}

func (w *chainWorld) lie(k *vKS, q *rpcRequest, res map[string]interface{}) map[string]interface{} {
	r := w.r
	c := vGeneric(res)
	note := func(f string, a ...interface{}) { r.Logf("    lie: "+f, a...) }
	flip := func(s string) string {
		if len(s) == 0 {
			return "A"
		}
		i := r.Choose(len(s))
		x := byte('A')
		if s[i] == 'A' {
			x = 'B'
		}
		return s[:i] + string(x) + s[i+1:]
	}
	switch q.Method {
	case "KeyRepository.Capabilities":
		caps := c["CAPABILITIES"].(map[string]interface{})
		switch r.Choose(4) {
		case 0:
			caps["SIGPUBKEYS"] = []interface{}{}
		case 1:
			other, _, _ := ed25519.GenerateKey(rand.Reader)
			caps["SIGPUBKEYS"] = []interface{}{base64.Encode(other)}
		case 2:
			caps["SIGPUBKEYS"] = []interface{}{"AAAA"}
		case 3:
			caps["METHODS"] = []interface{}{}
		}
		note("capabilities")
	case "KeyHashchain.FetchLastHashChain":
		n := c["HCPos"].(float64)
		switch r.Choose(7) {
		case 0:
			n -= float64(1 + r.Choose(3))
		case 1:
			n += float64(1 + r.Choose(3))
		case 2:
			n = -1 - n
		case 3:
			n = 1e18
		case 4:
			n += 0.5
		case 5:
			c["HCPos"] = fmt.Sprint(n)
			note("HCPos is a string")
			return c
		case 6:
			delete(c, "HCPos")
			note("no HCPos")
			return c
		}
		c["HCPos"] = n
		note("HCPos=%v", n)
	case "KeyHashchain.FetchHashChain":
		es := c["HCEntries"].([]interface{})
		switch kind := r.Choose(12); kind {
		case 0:
			c["HCFirstPos"] = c["HCFirstPos"].(float64) + 1
		case 1:
			c["HCFirstPos"] = c["HCFirstPos"].(float64) - 1
		case 2:
			c["HCFirstPos"] = float64(r.Choose(3))
		case 3:
			delete(c, "HCFirstPos")
		case 4:
			es = es[:r.Choose(len(es))]
		case 5:
			es = append(es, es[len(es)-1])
		case 6:
			if len(es) > 1 {
				i := r.Choose(len(es) - 1)
				es[i], es[i+1] = es[i+1], es[i]
			} else {
				es[0] = flip(es[0].(string))
			}
		case 7:
			i := r.Choose(len(es))
			if p, err := vSplit(es[0].(string)); err == nil && r.Bool(1, 2) { // the content of the first one, whose own hash stays
				i = 0
				p[2+r.Choose(4)][r.Choose(8)] ^= 1
				var b []byte
				for _, x := range p {
					b = append(b, x...)
				}
				es[i] = base64.Encode(b)
				break
			}
			es[i] = flip(es[i].(string))
		case 8:
			es[r.Choose(len(es))] = 17
		case 9, 10: // another chain, correctly linked among its own entries
			prev := ""
			if f := int(c["HCFirstPos"].(float64)); f > 0 && kind == 9 {
				prev = k.chain[f-1]
			}
			for i := range es {
				p, _ := vSplit(es[i].(string))
				if i == 0 || r.Bool(1, 2) {
					p[4+r.Choose(2)][r.Choose(32)] ^= 1
				}
				es[i] = vLink(prev, 1, p[2:]...)
				prev = es[i].(string)
			}
		case 11:
			c["HCFirstPos"] = -1.0
		}
		c["HCEntries"] = es
		note("entries")
	case "KeyHashchain.LookupUID":
		ps, _ := c["HCPositions"].([]interface{})
		switch r.Choose(6) {
		case 0:
			ps = append(ps, float64(r.Choose(len(k.chain)+2)))
		case 1:
			ps = []interface{}{float64(r.Choose(len(k.chain)))}
		case 2:
			ps = append(ps, "x")
		case 3:
			ps = []interface{}{-1.0}
		case 4:
			ps = []interface{}{}
		case 5:
			ps = []interface{}{1e19}
		}
		c["HCPositions"] = ps
		note("positions %v", ps)
	case "KeyRepository.FetchUID", "KeyRepository.CreateUID", "KeyRepository.UpdateUID":
		rep := c["UIDMessageReply"].(map[string]interface{})
		e := rep["ENTRY"].(map[string]interface{})
		enc := e["UIDMESSAGEENCRYPTED"].(string)
		resign := func(key *cipher.Ed25519Key) {
			n, _ := e["HASHCHAINPOS"].(float64)
			he, _ := e["HASHCHAINENTRY"].(string)
			c["UIDMessageReply"] = vGeneric(uid.CreateReply(e["UIDMESSAGEENCRYPTED"].(string), he, uint64(n), key))
		}
		kind := r.Choose(10)
		note("UID message reply %d", kind)
		switch kind {
		case 0: // another identity's
			var keys []string
			for x := range k.replies {
				keys = append(keys, x)
			}
			sort.Strings(keys)
			c["UIDMessageReply"] = vGeneric(k.replies[keys[r.Choose(len(keys))]])
		case 1:
			e["UIDMESSAGEENCRYPTED"] = flip(enc)
		case 2:
			b, _ := base64.Decode(enc)
			e["UIDMESSAGEENCRYPTED"] = base64.Encode(b[:r.Choose(64)])
			resign(k.sigkey)
		case 3:
			b, _ := base64.Decode(enc)
			b[32+r.Choose(len(b)-32)] ^= 1
			e["UIDMESSAGEENCRYPTED"] = base64.Encode(b)
			resign(k.sigkey)
		case 4:
			other, _ := uid.Create("keyserver@"+k.domain, false, "", "", uid.Strict, "", rand.Reader)
			resign(vSigKey(other))
		case 5:
			rep["SERVERSIGNATURE"] = flip(rep["SERVERSIGNATURE"].(string))
		case 6, 7, 8: // other content under the same hash: the server shows everyone another key
			var idx, hash []byte
			var id string
			if q.Method == "KeyRepository.FetchUID" {
				var p struct{ UIDIndex string }
				json.Unmarshal(q.Params, &p)
				idx, _ = base64.Decode(p.UIDIndex)
				for n, ent := range k.chain {
					if h, i, ok := vCommitted(ent, k.owner[n]); ok && bytes.Equal(i, idx) {
						id, hash = k.owner[n], h
					}
				}
			}
			if hash == nil {
				rep["SERVERSIGNATURE"] = ""
				break
			}
			m := w.evilUID(k, id, r.Choose(7))
			e["UIDMESSAGEENCRYPTED"] = vEncUID(hash, idx, m)
			resign(k.sigkey)
		case 9:
			e["HASHCHAINPOS"] = "x"
		}
	case "KeyInitRepository.AddKeyInit":
		sigs := c["Signatures"].([]interface{})
		switch r.Choose(5) {
		case 0:
			sigs = nil
		case 1:
			sigs = append(sigs, sigs[0])
		case 2:
			sigs[0] = flip(sigs[0].(string))
		case 3:
			sigs[0] = 5
		case 4:
			sigs[0] = ""
		}
		c["Signatures"] = sigs
		note("signatures")
	case "KeyInitRepository.FetchKeyInit":
		ki := c["KeyInit"].(string)
		kind := r.Choose(9)
		if kind > 6 {
			kind = 6
		}
		note("key init %d", kind)
		switch kind {
		case 0: // another identity's
			var all []string
			for _, l := range k.inits {
				all = append(all, l...)
			}
			sort.Strings(all)
			c["KeyInit"] = all[r.Choose(len(all))]
		case 1:
			c["KeyInit"] = flip(ki)
		case 2:
			c["KeyInit"] = ki[:r.Choose(len(ki))]
		case 3, 4: // altered contents
			var x map[string]interface{}
			json.Unmarshal([]byte(ki), &x)
			cc := x["Contents"].(map[string]interface{})
			switch r.Choose(5) {
			case 4:
				cc["SESSIONANCHOR"] = base64.Encode(r.Bytes(r.Choose(16)))
			case 0:
				cc["NOTAFTER"] = float64(4e9)
			case 1:
				cc["REPOURI"] = "evil.org"
			case 2:
				cc["SESSIONANCHOR"] = flip(cc["SESSIONANCHOR"].(string))
			case 3:
				x["SIGNATURE"] = flip(x["SIGNATURE"].(string))
			}
			b, _ := json.Marshal(x)
			c["KeyInit"] = string(b)
		case 6: // an old one of the same identity, or one made for another server
			var x map[string]interface{}
			json.Unmarshal([]byte(ki), &x)
			cc := x["Contents"].(map[string]interface{})
			for _, m := range w.signers(k) {
				if h, _ := m.SigKeyHash(); h == cc["SIGKEYHASH"] {
					now := time.Now().Unix()
					switch r.Choose(3) {
					case 0:
						cc["NOTBEFORE"], cc["NOTAFTER"] = now-int64(r.Range(1000, 1000000)), now-int64(r.Range(1, 999))
					case 1:
						cc["REPOURI"] = "evil.org"
					case 2:
						cc["SIGKEYHASH"] = flip(cc["SIGKEYHASH"].(string))
					}
					b, _ := json.Marshal(cc)
					x["SIGNATURE"] = base64.Encode(vSigKey(m).Sign(b))
				}
			}
			b, _ := json.Marshal(x)
			c["KeyInit"] = string(b)
		case 5: // made by the server with its own key, for the asked hash
			m, _ := uid.Create("keyserver@"+k.domain, false, "", "", uid.Strict, "", rand.Reader)
			f, _, _, err := m.KeyInit(0, uint64(time.Now().Add(time.Hour).Unix()), 0, true, k.domain, "m", "n", rand.Reader)
			if err == nil {
				var x map[string]interface{}
				json.Unmarshal(f.JSON(), &x)
				if r.Bool(1, 2) {
					var orig map[string]interface{}
					json.Unmarshal([]byte(ki), &orig)
					x["Contents"].(map[string]interface{})["SIGKEYHASH"] = orig["Contents"].(map[string]interface{})["SIGKEYHASH"]
				}
				b, _ := json.Marshal(x)
				c["KeyInit"] = string(b)
			}
		}
	}
	return c
}

// signers are the simulated users of a key server.
func (w *chainWorld) signers(k *vKS) (l []*uid.Message) {
	for _, id := range w.ids {
		if vDomainOf(id) == k.domain && w.own[id] != nil {
			l = append(l, w.own[id])
		}
	}
	return
}

// evilUID is a UID message that must not be accepted for identity id.
func (w *chainWorld) evilUID(k *vKS, id string, kind int) []byte {
	last := k.last()
	who := id
	if kind == 0 {
		who = "mallory@" + k.domain
	}
	m, err := uid.Create(who, false, "", "", uid.Strict, last, rand.Reader)
	if err != nil {
		panic(err)
	}
	switch kind {
	case 1: // bad self-signature
		m.UIDContent.NOTAFTER++
		if w.r.Bool(1, 2) {
			m.UIDContent.MSGCOUNT++
		}
		return m.JSON()
	case 2:
		m.UIDContent.PUBKEYS = nil
	case 3:
		m.UIDContent.PUBKEYS[0].PUBKEY = "AAAA"
	case 4:
		m.UIDContent.REPOURIS = nil
	case 5:
		m.UIDContent.VERSION = "9.9"
	case 6:
		m.UIDContent.IDENTITY = ""
	}
	m.SELFSIGNATURE = base64.Encode(vSigKey(m).Sign(m.UIDContent.JSON()))
	return m.JSON()
}

// serverOp lets a key server do something on its own.
func (w *chainWorld) serverOp() {
	r := w.r
	k := w.ks[vDomains[r.Choose(len(vDomains))]]
	evil := 0
	if w.lies {
		evil = 1
	}
	switch r.Weighted(6, 2, 1, evil) {
	case 0: // somebody registers
		w.next++
		id := fmt.Sprintf("user-%c%c@%s", 'a'+w.next%8, 'a'+w.next/8, k.domain)
		m, err := uid.Create(id, false, "", "", uid.Strict, k.last(), rand.Reader)
		if err != nil {
			panic(err)
		}
		if _, err := k.register(m.JSON(), false); err != nil {
			panic(err)
		}
		w.own[id] = m
		w.ids = append(w.ids, id)
		r.Logf("%s registered", id)
		if r.Bool(1, 2) {
			w.addInit(k, m)
		}
	case 1: // somebody updates
		var l []string
		for _, id := range w.ids {
			if vDomainOf(id) == k.domain {
				l = append(l, id)
			}
		}
		if len(l) == 0 {
			return
		}
		id := l[r.Choose(len(l))]
		m, err := w.own[id].Update(rand.Reader)
		if err != nil {
			panic(err)
		}
		if _, err := k.register(m.JSON(), true); err != nil {
			return // the identity is squatted by an evil entry
		}
		w.own[id] = m
		r.Logf("%s updated", id)
		if r.Bool(1, 2) {
			w.addInit(k, m)
		}
	case 2:
		k.rotate()
		r.Logf("keyserver@%s has a new key", k.domain)
	case 3: // an evil entry
		id := w.someID(k.domain)
		kind := r.Choose(10)
		r.CountFault("evil-entry")
		r.Logf("evil entry %d for %s", kind, id)
		switch kind {
		case 7: // hash of nothing
			u := make([]byte, 32)
			rand.Read(u)
			e := vEntry(k.last(), id, k.nonce(), u, cipher.SHA256(u))
			k.chain, k.owner = append(k.chain, e), append(k.owner, id)
			k.pos[id] = append(k.pos[id], len(k.chain)-1)
		case 8: // not JSON
			k.publishRaw(id, []byte("hello"))
		case 9:
			k.publishRaw(id, []byte("{}"))
		default:
			k.publishRaw(id, w.evilUID(k, id, kind))
		}
		for len(k.evil) < len(k.chain) {
			k.evil = append(k.evil, true)
		}
		k.evil[len(k.chain)-1] = true
	}
}

func (w *chainWorld) addInit(k *vKS, m *uid.Message) {
	ki, _, _, err := m.KeyInit(0, uint64(time.Now().Unix())+uint64(w.r.Range(1, 80))*86400, 0, true, k.domain, "mix@mix.mute.one", "nym", rand.Reader)
	if err != nil {
		panic(err)
	}
	k.inits[ki.SigKeyHash()] = append(k.inits[ki.SigKeyHash()], string(ki.JSON()))
}

// someID is an identity of a domain.
func (w *chainWorld) someID(domain string) string {
	k := w.ks[domain]
	if r := w.r; r.Bool(2, 3) { // somebody in the chain
		return k.owner[r.Choose(len(k.owner))]
	}
	l := []string{"keyserver@" + domain, "alice@" + domain, "bob@" + domain, "nobody@" + domain}
	for _, id := range w.ids {
		if vDomainOf(id) == domain {
			l = append(l, id)
		}
	}
	return l[w.r.Choose(len(l))]
}

func vPrefix(a, b []string) bool {
	if len(a) > len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func (w *chainWorld) op() {
	r := w.r
	h := w.homes[r.Choose(len(w.homes))]
	d := vDomains[r.Weighted(3, 1)]
	kind := r.Weighted(10, 3, 6, 4, 1, 1, 3, 3, 2, 2, 3, 5, 1, 1, 3, 4)
	w.m.choosePlan(1, 3, false, fmt.Sprint(kind))
	w.do(h, d, kind, false)
}

// do runs command kind; honest: it must succeed.
func (w *chainWorld) do(h *vHome, d string, kind int, honest bool) (res vResult) {
	r := w.r
	id := h.name + "@" + d
	if !honest && w.second != 1 && (w.second == 2 || r.Bool(1, 5)) {
		id = h.name + "-two@" + d
	}
	run := func(args ...string) *vState {
		old := map[string][]string{}
		for k, v := range h.chain {
			old[k] = v
		}
		res = w.crypt(h, nil, args...)
		return w.observe(h, args, res)
	}
	k := w.ks[d]
	switch kind {
	case 0: // sync
		r.Op("sync")
		before := len(h.chain[d])
		st := run("hashchain", "sync", "--domain", d)
		after := len(st.chain[d])
		if res.ok() {
			n, isnum := w.del.announced.(float64)
			if isnum && n == float64(int64(n)) && n >= float64(before) && n < 1e15 {
				r.Check(after == int(n)+1, "C11", "sync-incomplete", "sync succeeded, the key server announced position %v, but the local copy of %s has %d entries", w.del.announced, d, after)
			} else {
				r.Check(after == before, "C11", "sync-bogus", "the key server announced %v; the local copy of %s grew from %d to %d entries", w.del.announced, d, before, after)
			}
		} else if !res.faulted && !res.crashed && !w.del.tampered {
			r.Fail("C11", "sync-failed", "sync of %s failed without a fault: %s", d, vClip(res.errs))
		}
		if tampered := w.del.tampered; res.ok() && tampered && r.Bool(1, 2) {
			w.m.plan = vPlan{}
			defer w.do(h, d, 1, false)
		} else if res.ok() && !tampered && !res.faulted {
			r.Check(after >= len(k.chain), "C11", "sync-behind", "sync succeeded, the key server has %d entries, the local copy %d", len(k.chain), after)
		}
	case 1: // validate
		r.Op("validate")
		st := run("hashchain", "validate", "--domain", d)
		chain := st.chain[d]
		want := len(chain) > 0
		why := "there is none"
		if i := vValid(chain); want && i >= 0 {
			want, why = false, fmt.Sprintf("entry %d is not linked", i)
		}
		seen := map[string]bool{}
		for _, x := range st.priv {
			if vDomainOf(x.id) != d || seen[x.id] {
				continue
			}
			seen[x.id] = true
			var rep struct {
				ENTRY struct {
					HASHCHAINENTRY string
					HASHCHAINPOS   uint64
				}
			}
			s := st.reply[x.json]
			if s == "" {
				s = h.confirmed[x.json]
			}
			if s == "" || json.Unmarshal([]byte(s), &rep) != nil {
				continue
			}
			if p := rep.ENTRY.HASHCHAINPOS; want && p < uint64(len(chain)) && chain[p] != rep.ENTRY.HASHCHAINENTRY {
				want, why = false, fmt.Sprintf("the registration of %s is not at %d", x.id, p)
			}
		}
		if res.ok() {
			r.Check(want, "C11", "validate-accepts", "validate accepted the hash chain copy of %s (%d entries), but %s", d, len(chain), why)
		} else if !res.faulted {
			r.Check(!want, "C11", "validate-rejects", "validate rejected a correct hash chain copy of %s: %s", d, vClip(res.errs))
		}
	case 2, 3: // search, lookup
		if !honest {
			id = w.someID(d)
		}
		w.find(h, d, id, kind == 3, &res)
	case 4: // show
		r.Op("show")
		st := run("hashchain", "show", "--domain", d)
		if res.ok() {
			want := strings.Join(st.chain[d], "\n") + "\n"
			r.Check(len(st.chain[d]) > 0 && res.out == want, "C11", "show", "show does not print the local copy of %s", d)
		} else if !res.faulted {
			r.Check(len(st.chain[d]) == 0, "C11", "show-failed", "show failed: %s", vClip(res.errs))
		}
	case 5: // delete
		r.Op("delete")
		st := run("hashchain", "delete", "--domain", d)
		if res.ok() {
			r.Check(len(st.chain[d]) == 0, "C11", "delete", "delete left %d entries of %s", len(st.chain[d]), d)
		} else if !res.faulted {
			r.Fail("C11", "delete-failed", "delete failed: %s", vClip(res.errs))
		}
	case 6: // generate
		r.Op("generate")
		run("uid", "generate", "--id", id)
	case 7, 8: // register, update
		verb := "register"
		if kind == 8 {
			verb = "update"
			r.Op("genupdate")
			w.m.plan = vPlan{}
			run("uid", "genupdate", "--id", id)
			w.m.choosePlan(1, 4, false, "update")
		}
		r.Op(verb)
		st := run("uid", verb, "--id", id, "--token", "token")
		if res.ok() {
			w.registered(h, st, k, id)
		}
	case 9: // delete an own identity
		if r.Bool(1, 2) {
			r.Op("uid-delete")
			run("uid", "delete", "--id", id, "--force")
		}
	case 10:
		r.Op("keyinit-add")
		run("keyinit", "add", "--id", id, "--mixaddress", "mix@mix.mute.one", "--nymaddress", "nym", "--token", "token")
		if res.ok() {
			sigs := w.del.sigs
			ok := len(sigs) == 1 && len(sigs[0]) == 1
			r.Check(ok, "C12", "keyinit-add", "keyinit add succeeded without a signature of the key server")
		}
	case 11:
		if !honest {
			id = w.someID(d)
			if r.Bool(3, 4) { // somebody known
				var l []string
				for _, x := range w.load(h).pub {
					if vDomainOf(x.id) == d && k.uids[x.id] != nil {
						l = append(l, x.id)
					}
				}
				if len(l) > 0 {
					id = l[r.Choose(len(l))]
				}
			}
			if l := w.signers(k); len(l) > 0 && r.Bool(1, 2) { // somebody just found
				id = l[r.Choose(len(l))].Identity()
				lies, plan := w.lies, w.m.plan
				w.lies, w.m.plan = false, vPlan{}
				w.do(h, d, 0, true)
				w.find(h, d, id, false, &res)
				w.lies, w.m.plan = lies, plan
			}
			if u := k.uids[id]; u != nil && w.own[id] != nil && r.Bool(2, 3) {
				w.addInit(k, w.own[id])
			}
		}
		r.Op("keyinit-fetch")
		run("keyinit", "fetch", "--id", id)
	case 12:
		r.Op("keyinit-flush")
		run("keyinit", "flush", "--id", id)
	case 14: // the key server shows a fork of its chain after a registration
		w.m.plan = vPlan{}
		if !w.lies {
			break
		}
		if r.Bool(1, 2) {
			// the fork may be at any of the own identities
			for n, two := r.Range(1, 2), r.Choose(2); n > 0; n, two = n-1, 1-two {
				w.second = 1 + two
				w.do(h, d, 6, false)
				w.do(h, d, 7, false)
				w.second = 0
			}
		} else {
			w.do(h, d, 8, false)
		}
		if r.Bool(1, 2) {
			w.do(h, d, 5, false)
		}
		w.fork = true
		w.do(h, d, 0, false)
		w.fork = false
		return w.do(h, d, 1, false)
	case 15: // something new is found
		w.m.plan = vPlan{}
		who := id
		switch r.Choose(3) {
		case 0:
			k.rotate()
			r.Logf("keyserver@%s has a new key", d)
			who = "keyserver@" + d
		case 1:
			w.serverOp()
			who = k.owner[len(k.owner)-1]
		case 2:
			who = k.owner[len(k.owner)-1]
		}
		lies := w.lies
		w.lies = false
		w.do(h, d, 0, true)
		if r.Bool(1, 2) {
			w.find(h, d, "keyserver@"+d, false, &res)
		}
		w.lies = lies
		w.m.choosePlan(1, 4, false, "find")
		w.find(h, d, who, r.Bool(1, 2), &res)
	case 13:
		r.Op("sleep")
		w.m.plan = vPlan{}
		time.Sleep(time.Duration(1<<uint(r.Range(4, 23))) * time.Second)
		simos.Flush()
	}
	return res
}

// registered checks the reply of a registration which succeeded.
func (w *chainWorld) registered(h *vHome, st *vState, k *vKS, id string) {
	r := w.r
	r.Eval("C12")
	var jsn string
	for _, x := range st.priv {
		if x.id == id {
			jsn = x.json
			break
		}
	}
	if len(w.del.uidReply) == 0 {
		r.Fail("C12", "register-no-reply", "registration of %s succeeded without a reply of the key server", id)
		return
	}
	rep := w.del.uidReply[len(w.del.uidReply)-1]
	b, _ := json.Marshal(rep)
	top, _, _ := vCanonical(string(b))
	sig, _ := rep["SERVERSIGNATURE"].(string)
	e, _ := rep["ENTRY"].(map[string]interface{})
	enc, _ := e["UIDMESSAGEENCRYPTED"].(string)
	raw, _ := base64.Decode(enc)
	hash := sha256.Sum256([]byte(jsn))
	if len(raw) < 48 || !bytes.Equal(vCTR(hash[:], raw[32:]), []byte(jsn)) {
		r.Fail("C12", "register-other", "registration of %s succeeded, but the key server replied with something else", id)
		return
	}
	if !vVerify(k.srv.SigPubKey(), top["ENTRY"], sig) {
		r.Fail("C12", "register-unsigned", "registration of %s succeeded, but the reply is not signed by the key server", id)
	}
	h.confirmed[jsn] = string(b)
}

// find searches for or looks up an identity.
func (w *chainWorld) find(h *vHome, d, id string, lookup bool, res *vResult) {
	r := w.r
	k := w.ks[d]
	verb := "search"
	if lookup {
		verb = "lookup"
	}
	r.Op(verb)
	before := w.load(h)
	args := []string{"hashchain", verb, "--id", id}
	*res = w.crypt(h, nil, args...)
	st := w.observe(h, args, *res)
	// without faults and lies the outcome is determined
	chain := st.chain[d]
	if res.faulted || res.crashed || w.del.tampered || len(chain) == 0 || !vPrefix(chain, k.chain) {
		return
	}
	var want []int
	for _, n := range k.pos[id] {
		if n < len(chain) {
			want = append(want, n)
		} else if lookup {
			return // not synchronized
		}
		if k.evil[n] {
			return
		}
	}
	expect := len(want) > 0
	if id != "keyserver@"+d {
		// the server's key for every position has to be known
		for _, n := range want {
			have := false
			for _, x := range before.pub {
				have = have || x.id == id && x.pos == n
			}
			if have {
				continue
			}
			best := -1
			for _, x := range before.pub {
				if x.id == "keyserver@"+d && x.pos <= n && x.pos > best {
					best = x.pos
				}
			}
			newest := -1
			for _, p := range k.pos["keyserver@"+d] {
				if p <= n && p > newest {
					newest = p
				}
				if k.evil[p] {
					return
				}
			}
			genuine := best < 0
			for _, p := range k.pos["keyserver@"+d] {
				genuine = genuine || p == best
			}
			if !genuine {
				return // stored at the position it had in a forged copy, since deleted
			}
			if best != newest {
				expect = false
			}
		}
	}
	if expect {
		r.Check(res.ok(), "C12", "find-failed", "%s of %s failed without a fault: %s", verb, id, vClip(res.errs))
		for _, n := range want {
			found := false
			for _, x := range st.pub {
				found = found || x.id == id && x.pos == n
			}
			r.Check(found, "C12", "find-incomplete", "%s of %s did not store the UID at position %d", verb, id, n)
		}
	} else {
		r.Check(!res.ok(), "C12", "find-nothing", "%s of %s succeeded, but there is nothing to find", verb, id)
	}
}

func chainBody(r *sim.Run) {
	w := &chainWorld{r: r, ks: map[string]*vKS{}, own: map[string]*uid.Message{}}
	w.lies = !r.NoFault && r.Bool(2, 3)
	w.lieNum = r.Range(1, 4)
	for _, d := range vDomains {
		w.ks[d] = newVKS(d, "keys."+d)
	}
	for _, n := range []string{"alice", "bob"} {
		h := &vHome{name: n, dir: filepath.Join(r.Scratch, n), chain: map[string][]string{}, pub: map[string]bool{}, kis: map[string]bool{}, confirmed: map[string]string{}, privs: map[string]bool{}}
		vWriteConfig(h.dir, vConfigMap(nil))
		if err := keydb.Create(filepath.Join(h.dir, "keys"), []byte(vPass), 1); err != nil {
			panic(err)
		}
		w.homes = append(w.homes, h)
	}
	w.m = newMachine(r)
	defer w.m.close()
	w.m.serve = func(req *nethttp.Request, q *rpcRequest) (map[string]interface{}, error) {
		w.del.requests++
		k := w.ksFor(req.URL.Host)
		if k == nil {
			return nil, fmt.Errorf("no such host %s", req.URL.Host)
		}
		return k.serve(q)
	}
	w.m.tamper, w.m.seen = w.tamper, w.seen
	for i := r.Choose(6); i > 0; i-- {
		w.serverOp()
	}
	if r.Bool(3, 4) {
		// the users are set up
		lies := w.lies
		w.lies = false
		for _, h := range w.homes {
			for _, d := range vDomains {
				if d != vDomains[0] && r.Bool(1, 2) {
					continue
				}
				w.do(h, d, 0, true)
				var res vResult
				w.find(h, d, "keyserver@"+d, false, &res)
				if r.Bool(2, 3) {
					w.do(h, d, 6, true)
					w.do(h, d, 7, true)
					if r.Bool(2, 3) {
						w.do(h, d, 10, true)
					}
				}
			}
		}
		w.lies = lies
	}
	n := r.Range(8, 30)
	if r.Tier == "thorough" {
		n = r.Range(8, 70)
	}
	for i := 0; i < n; i++ {
		if r.Bool(1, 3) {
			r.Op("server")
			w.serverOp()
		} else {
			w.op()
		}
	}
	w.final()
}

// final: the faults stop, the servers are honest.
func (w *chainWorld) final() {
	r := w.r
	r.Op("final")
	r.Logf("faults stop")
	w.lies = false
	w.m.plan = vPlan{}
	d := vDomains[0]
	k := w.ks[d]
	for _, e := range k.evil {
		if e {
			return // a published entry stays
		}
	}
	for _, h := range w.homes {
		st := w.load(h)
		if !vPrefix(st.chain[d], k.chain) {
			res := w.do(h, d, 5, true)
			r.Check(res.ok(), "C11", "final-delete", "the local copy of %s cannot be deleted: %s", d, vClip(res.errs))
		}
		res := w.do(h, d, 0, true)
		r.Check(res.ok(), "C11", "final-sync", "the local copy of %s cannot be synchronized after the faults stopped: %s", d, vClip(res.errs))
		st = w.load(h)
		r.Check(vPrefix(st.chain[d], k.chain) && len(st.chain[d]) == len(k.chain), "C11", "final-copy", "the local copy of %s differs from the key server's chain", d)
		var ks vResult
		w.find(h, d, "keyserver@"+d, false, &ks)
		for _, id := range w.ids {
			if vDomainOf(id) == d {
				w.find(h, d, id, r.Bool(1, 2), &ks)
			}
		}
	}
	// alice writes to bob
	a, b := w.homes[0], w.homes[1]
	for _, h := range w.homes {
		id := h.name + "@" + d
		if k.uids[id] != nil {
			// the name is taken (by a registration whose keys may be lost)
			st := w.load(h)
			mine := false
			for i, x := range st.priv {
				if x.id == id && (i == 0 || st.priv[i-1].id != id) {
					mine = x.json == string(k.uids[id].JSON())
				}
			}
			if !mine {
				return
			}
			continue
		}
		st := w.load(h)
		for _, x := range st.priv {
			if x.id == id {
				return
			}
		}
		w.do(h, d, 6, true)
		if res := w.do(h, d, 7, true); !res.ok() {
			r.Fail("C12", "final-register", "%s cannot be registered after the faults stopped: %s", id, vClip(res.errs))
		}
	}
	for _, h := range w.homes {
		if res := w.do(h, d, 0, true); !res.ok() {
			r.Fail("C11", "final-sync", "sync fails after the faults stopped: %s", vClip(res.errs))
		}
		if res := w.do(h, d, 10, true); !res.ok() {
			r.Fail("C12", "final-keyinit", "key init messages cannot be added after the faults stopped: %s", vClip(res.errs))
		}
	}
	var res vResult
	w.find(a, d, "bob@"+d, false, &res)
	if res.ok() {
		args := []string{"keyinit", "fetch", "--id", "bob@" + d}
		res = w.crypt(a, nil, args...)
		w.observe(a, args, res)
		r.Check(res.ok(), "C12", "final-fetch", "the key init message of bob cannot be fetched: %s", vClip(res.errs))
	}
	w.find(b, d, "alice@"+d, true, &res)
	text := "hello " + hex.EncodeToString(r.Bytes(8))
	enc := w.crypt(a, []byte(text), "encrypt", "--from", "alice@"+d, "--to", "bob@"+d, "--nymaddress", "nym")
	r.Check(enc.ok(), "C12", "final-encrypt", "alice cannot encrypt to bob: %s", vClip(enc.errs))
	dec := w.crypt(b, []byte(enc.out), "decrypt")
	r.Check(dec.ok() && dec.out == text && strings.Contains(dec.errs, "SENDERIDENTITY:\talice@"+d), "C12", "final-decrypt", "bob cannot decrypt the message of alice: %s", vClip(dec.errs))
	r.Counter["messages"]++
}
