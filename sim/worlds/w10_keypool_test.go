//go:build go1.25

package worlds

import (
	"encoding/hex"
	"errors"
	"fmt"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"github.com/mutecomm/mute/serviceguard/client/packetproto"
	"github.com/mutecomm/mute/serviceguard/common/keypool"
	keydbstore "github.com/mutecomm/mute/serviceguard/common/keypool/keydb"
	"github.com/mutecomm/mute/serviceguard/common/keypool/keydir"
	"github.com/mutecomm/mute/serviceguard/common/signkeys"
	"github.com/mutecomm/mute/util/times"
	"github.com/mutecomm/mute/zzverif/sched"
	simos "github.com/mutecomm/mute/zzverif/shim/os"
	simsql "github.com/mutecomm/mute/zzverif/shim/sql"
	"github.com/mutecomm/mute/zzverif/sim"
)

func init() {
	register(&sim.World{Name: "keypool", Props: []string{"C09"}, Body: keypoolWorld, Bubble: true,
		Nontrivial: func(r *sim.Run) bool { return r.Counter["handed-out"] > 0 && r.Evals["C09"] > 0 }})
}

type pNode struct {
	name  string
	kp    *keypool.KeyPool
	usage string
	trust []*edPair
	db    string // database file, "" for none
	dir   string // key directory, "" for none
	conn  *simsql.DB
	last  *signkeys.PublicKey // newest key Current returned since the start
}

type poolWorld struct {
	r       *sim.Run
	s       *sched.Sched
	faults  bool
	pSQL    int
	pFS     int
	pNet    int
	issuer  *pNode // generates keys
	second  *pNode // another usage or signer, also generates
	ver     *pNode // verifies
	signer  *edPair
	other   *edPair // trusted by the verifier from some point on
	rogue   *edPair
	life    int64
	genuine map[string]*signkeys.PublicKey // by marshalled form
	handed  map[string]string              // key id -> node name: keys Current returned
	ids     []string
	remote  map[string][]byte // what the issuer's server answers instead
}

const pc = "C09"

func kid(k *signkeys.PublicKey) string { return string(k.KeyID[:]) }
func hx(s string) string               { return hex.EncodeToString([]byte(s))[:8] }

func pmarshal(k *signkeys.PublicKey) string {
	b, err := k.Marshal()
	if err != nil {
		panic(err)
	}
	return string(b)
}

func (w *poolWorld) learn(k *signkeys.PublicKey) {
	m := pmarshal(k)
	if w.genuine[m] == nil {
		c := *k
		w.genuine[m] = &c
		w.ids = append(w.ids, kid(k))
	}
}

func (w *poolWorld) sqlHook(op, q string) error {
	if !sched.InTask() {
		return nil
	}
	verb := op
	if i := strings.IndexByte(q, ' '); i > 0 && (op == "exec" || op == "query") {
		verb = q[:i]
	}
	if sched.Pause(verb) {
		return simsql.ErrDead
	}
	if op != "open" && w.faults && w.r.Fault("disk-error", w.pSQL, 100) {
		w.r.Logf("  disk error: %s", simsql.Short(q))
		return simsql.ErrDisk
	}
	return nil
}

func (w *poolWorld) fsHook(op, path string) error {
	if !sched.InTask() {
		return nil
	}
	if sched.Pause("fs-" + op) {
		return simos.ErrDead
	}
	if w.faults && op != "remove" && op != "close" && w.r.Fault("disk-error-"+op, w.pFS, 100) {
		w.r.Logf("  disk error: %s %s", op, filepath.Base(path))
		if op == "write" || op == "create" {
			return simos.ErrFull
		}
		return simos.ErrDisk
	}
	return nil
}

// start makes n's pool from its durable state.
func (w *poolWorld) start(n *pNode) {
	gen := signkeys.New(packetproto.Curve, packetproto.Rand, packetproto.HashFunc)
	gen.Usage = n.usage
	gen.ExpireTime = w.life
	if n != w.ver {
		gen.PublicKey, gen.PrivateKey = &n.trust[0].pub, &n.trust[0].priv
	}
	n.kp = keypool.New(gen)
	for _, t := range n.trust {
		n.kp.AddVerifyKey(&t.pub)
	}
	n.last = nil
	addDB := func() {
		if n.db == "" {
			return
		}
		db, err := simsql.Open("simsqlite3", n.db)
		if err != nil {
			panic(err)
		}
		db.SetMaxOpenConns(6)
		n.conn = db
		if err := keydbstore.Add(n.kp, db); err != nil {
			w.r.Fail(pc, "no-start", "%s: the key database cannot be used after a restart: %v", n.name, err)
		}
	}
	addDir := func() {
		if n.dir == "" {
			return
		}
		if err := keydir.Add(n.kp, n.dir); err != nil {
			w.r.Fail(pc, "no-start", "%s: the key directory cannot be used after a restart: %v", n.name, err)
		}
	}
	if len(n.name)%2 == 0 {
		addDB()
		addDir()
	} else {
		addDir()
		addDB()
	}
	if n == w.ver {
		n.kp.RegisterStorage(w.fetch, nil, nil)
	}
	if err := n.kp.Load(); err != nil {
		w.r.Fail(pc, "no-load", "%s: the stored keys cannot be loaded after a restart: %v", n.name, err)
	}
}

var errRemote = errors.New("sim: the key server cannot be reached")

// fetch is the verifier's connection to the issuer's server.
func (w *poolWorld) fetch(id []byte) ([]byte, error) {
	sched.Yield("fetch")
	if w.faults && w.r.Fault("request-lost", w.pNet, 100) {
		return nil, errRemote
	}
	if b, ok := w.remote[string(id)]; ok && w.faults {
		w.r.CountFault("forged-reply")
		return b, nil
	}
	for m, k := range w.genuine {
		if kid(k) == string(id) {
			return []byte(m), nil
		}
	}
	return nil, keypool.ErrNotFound
}

func (w *poolWorld) nodes() []*pNode { return []*pNode{w.issuer, w.second, w.ver} }

func (w *poolWorld) crash() {
	w.s.Kill()
	simsql.Crash()
	simos.Crash(func(path string, size int) int {
		n := size
		switch w.r.Weighted(2, 2, 2) {
		case 1:
			n = 0
		case 2:
			n = w.r.Choose(size + 1)
		}
		if n < size {
			w.r.CountFault("torn-file")
			w.r.Logf("  unsynced %s: %d of %d bytes survive", filepath.Base(path), n, size)
		}
		return n
	})
	f := w.faults
	w.faults = false
	w.r.Logf("CRASH and restart")
	for _, n := range w.nodes() {
		if n.conn != nil {
			n.conn.Close()
			n.conn = nil
		}
		w.start(n)
	}
	w.checkKept()
	w.faults = f
}

// checkKept checks that every key that was handed out is still known to the
// pool that made it.
func (w *poolWorld) checkKept() {
	var ids []string
	for id := range w.handed {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	for _, id := range ids {
		n := w.issuer
		if w.handed[id] == w.second.name {
			n = w.second
		}
		var a [signkeys.KeyIDSize]byte
		copy(a[:], id)
		got, err := n.kp.Lookup(a)
		w.checkLookup(n, id, times.Now(), got, err, true)
	}
}

func (w *poolWorld) byID(id string) *signkeys.PublicKey {
	var best *signkeys.PublicKey
	for _, k := range w.genuine {
		if kid(k) == id {
			best = k
		}
	}
	return best
}

func (w *poolWorld) usable(n *pNode, k *signkeys.PublicKey) bool {
	if n.usage != "" && k.Usage != n.usage {
		return false
	}
	for _, t := range n.trust {
		if t.pub == k.Signer {
			return true
		}
	}
	return false
}

// checkLookup judges the result of a Lookup that began at t0.
func (w *poolWorld) checkLookup(n *pNode, id string, t0 int64, got *signkeys.PublicKey, err error, must bool) {
	r := w.r
	r.Eval(pc)
	if err == nil && got == nil {
		r.Fail(pc, "nil-key", "%s: Lookup of %s returned neither a key nor an error", n.name, hx(id))
		return
	}
	k := w.byID(id)
	if err == nil {
		if kid(got) != id {
			r.Fail(pc, "other-key", "%s: Lookup of %s returned the key %s", n.name, hx(id), hx(kid(got)))
			return
		}
		if w.genuine[pmarshal(got)] == nil {
			r.Fail(pc, "forged-key", "%s: Lookup of %s returned a key no trusted signer issued", n.name, hx(id))
			return
		}
		if !w.usable(n, got) {
			r.Fail(pc, "untrusted-key", "%s: Lookup of %s returned a key for %s of a signer or usage it does not accept", n.name, hx(id), got.Usage)
			return
		}
		if got.Expire < t0 {
			r.Fail(pc, "expired-key", "%s: Lookup of %s returned a key that had expired %d s before", n.name, hx(id), t0-got.Expire)
		}
		return
	}
	if must && k != nil && k.Expire > times.Now() && w.usable(n, k) {
		r.Fail(pc, "lost-key", "%s: the key %s, handed out before and valid for another %d s, is not known: %v", n.name, hx(id), k.Expire-times.Now(), err)
	}
}

// current asks n for the current key.
func (w *poolWorld) current(n *pNode, must bool) {
	r := w.r
	t0 := times.Now()
	before := n.last
	cur, prev, err := n.kp.Current()
	sched.Alive()
	r.Eval(pc)
	if err != nil {
		r.Logf("  %s: current: %v", n.name, err)
		if n == w.ver {
			if err != keypool.ErrNoGenerator {
				r.Fail(pc, "generator", "Current of a pool without a signing key: %v", err)
			}
		} else if must {
			r.Fail(pc, "no-current", "%s: no current key although nothing failed: %v", n.name, err)
		}
		return
	}
	if n == w.ver || cur == nil {
		r.Fail(pc, "generator", "%s: Current returned %v without an error", n.name, cur)
		return
	}
	k := &cur.PublicKey
	r.Logf("  %s: current key %s expires in %d s", n.name, hx(kid(k)), k.Expire-t0)
	if k.Expire < t0+w.life/2 {
		r.Fail(pc, "half-life", "%s: Current handed out key %s with %d s left, its life being %d s", n.name, hx(kid(k)), k.Expire-t0, w.life)
	}
	if k.Expire > times.Now()+w.life {
		r.Fail(pc, "too-long", "%s: key %s is valid for %d s, its life being %d s", n.name, hx(kid(k)), k.Expire-times.Now(), w.life)
	}
	if k.Usage != n.usage || k.Signer != n.trust[0].pub || !k.Verify(&n.trust[0].pub) {
		r.Fail(pc, "bad-current", "%s: Current handed out key %s for %q which is not for its usage %q or not signed by it", n.name, hx(kid(k)), k.Usage, n.usage)
	}
	x, y := n.kp.Generator.Curve.Curve.ScalarBaseMult(cur.PrivateKey)
	if x.Cmp(k.PublicKey.X) != 0 || y.Cmp(k.PublicKey.Y) != 0 {
		r.Fail(pc, "bad-pair", "%s: the private key of %s does not belong to it", n.name, hx(kid(k)))
	}
	w.learn(k)
	if w.handed[kid(k)] == "" {
		w.handed[kid(k)] = n.name
		r.Counter["handed-out"]++
	}
	if before != nil && kid(k) != kid(before) {
		// a new key: the one before it stays available for what was begun
		switch {
		case before.Expire >= times.Now()+w.life/2+1:
			r.Fail(pc, "early", "%s: key %s was replaced %d s before half of its life had passed", n.name, hx(kid(before)), before.Expire-times.Now()-w.life/2)
		case prev == nil:
			r.Fail(pc, "no-previous", "%s: key %s replaced %s, but there is no previous key", n.name, hx(kid(k)), hx(kid(before)))
		case kid(&prev.PublicKey) != kid(before) && prev.PublicKey.Expire < before.Expire:
			r.Fail(pc, "previous", "%s: key %s replaced %s, but the previous key is the older %s", n.name, hx(kid(k)), hx(kid(before)), hx(kid(&prev.PublicKey)))
		}
	}
	if prev != nil {
		p := &prev.PublicKey
		if kid(p) == kid(k) || p.Usage != n.usage || !p.Verify(&n.trust[0].pub) || p.Expire > k.Expire {
			r.Fail(pc, "previous", "%s: the previous key %s is not one that preceded %s", n.name, hx(kid(p)), hx(kid(k)))
		}
		if p.Expire > k.Expire-w.life+w.life/2 {
			r.Fail(pc, "early", "%s: key %s was made although %s was not yet half through its life", n.name, hx(kid(k)), hx(kid(p)))
		}
		x, y := n.kp.Generator.Curve.Curve.ScalarBaseMult(prev.PrivateKey)
		if x.Cmp(p.PublicKey.X) != 0 || y.Cmp(p.PublicKey.Y) != 0 {
			r.Fail(pc, "bad-pair", "%s: the private key of the previous key %s does not belong to it", n.name, hx(kid(p)))
		}
	}
	if n.last == nil || n.last.Expire <= k.Expire {
		c := *k
		n.last = &c
	}
	got, err := n.kp.Lookup(k.KeyID)
	sched.Alive()
	w.checkLookup(n, kid(k), t0, got, err, true)
}

func (w *poolWorld) lookup(n *pNode, id string) {
	t0 := times.Now()
	var a [signkeys.KeyIDSize]byte
	copy(a[:], id)
	got, err := n.kp.Lookup(a)
	sched.Alive()
	w.r.Logf("  %s: lookup %s: %v", n.name, hx(id), err)
	w.checkLookup(n, id, t0, got, err, false)
}

// forge makes a key that no pool may accept.
func (w *poolWorld) forge(k *signkeys.PublicKey, kind int) *signkeys.PublicKey {
	b := *k
	c := &b
	resign := func(by *edPair) {
		g := signkeys.New(packetproto.Curve, packetproto.Rand, packetproto.HashFunc)
		g.Usage, g.ExpireTime, g.PublicKey, g.PrivateKey = k.Usage, w.life, &by.pub, &by.priv
		kp, err := g.GenKey()
		if err != nil {
			panic(err)
		}
		b = kp.PublicKey
	}
	switch kind {
	case 0: // lives longer
		c.Expire += 1000
	case 1: // lives longer, under its own identity
		c.Expire += 1000
		c.KeyID = c.CalcKeyID()
	case 2: // for another usage
		c.Usage += "x"
	case 3: // by an untrusted signer
		resign(w.rogue)
	case 4: // by an untrusted signer who claims to be the trusted one
		resign(w.rogue)
		c.Signer = k.Signer
	case 5: // same, with the right key id
		resign(w.rogue)
		c.Signer = k.Signer
		c.KeyID = c.CalcKeyID()
	case 6: // under the identity of the genuine key
		resign(w.rogue)
		c.KeyID = k.KeyID
	case 7: // another point
		resign(w.rogue)
		c.Expire, c.Signer, c.KeyID, c.Signature = k.Expire, k.Signer, k.KeyID, k.Signature
	case 8: // damaged signature
		c.Signature[w.r.Choose(64)] ^= 1 << uint(w.r.Choose(8))
	case 9: // another identity
		c.KeyID[w.r.Choose(32)] ^= 1
	}
	return c
}

func (w *poolWorld) some() *signkeys.PublicKey {
	if len(w.ids) == 0 {
		return nil
	}
	return w.byID(w.ids[len(w.ids)-1-w.r.Choose(len(w.ids))])
}

// load gives n a key.
func (w *poolWorld) load(n *pNode, k *signkeys.PublicKey, good bool) {
	t0 := times.Now()
	c := *k
	_, err := n.kp.LoadKey(&c)
	sched.Alive()
	w.r.Eval(pc)
	w.r.Logf("  %s: load %s (genuine %v): %v", n.name, hx(kid(k)), good, err)
	ok := good && w.usable(n, k)
	if err == nil && !ok {
		w.r.Fail(pc, "loaded-bad", "%s accepted the key %s for %s which is forged or not for it", n.name, hx(kid(k)), k.Usage)
	}
	if err == nil && k.Expire < t0 {
		w.r.Fail(pc, "loaded-expired", "%s accepted the key %s which had expired", n.name, hx(kid(k)))
	}
	if err != nil && err != keypool.ErrExists && ok && k.Expire > times.Now() {
		w.r.Fail(pc, "refused", "%s refused the genuine key %s: %v", n.name, hx(kid(k)), err)
	}
}

func keypoolWorld(r *sim.Run) {
	w := &poolWorld{r: r, genuine: map[string]*signkeys.PublicKey{}, handed: map[string]string{}, remote: map[string][]byte{}}
	w.signer, w.other, w.rogue = newEd(), newEd(), newEd()
	w.life = []int64{3600, 60, 10, signkeys.DefaultExpireTime}[r.Choose(4)]
	w.pSQL, w.pFS, w.pNet = []int{0, 3, 15}[r.Choose(3)], []int{0, 3, 15}[r.Choose(3)], []int{0, 20, 50}[r.Choose(3)]
	pCrash := []int{0, 1, 4}[r.Choose(3)]
	if r.NoFault {
		pCrash = 0
	}
	file := func(n string) string { return scratchFile(r, n) }
	w.issuer = &pNode{name: "issuer", usage: "Message", trust: []*edPair{w.signer}}
	w.second = &pNode{name: "other", usage: []string{"Message", "UID", "message"}[r.Choose(3)], trust: []*edPair{w.other}}
	w.ver = &pNode{name: "verifier", usage: []string{"Message", ""}[r.Choose(2)], trust: []*edPair{w.signer}}
	if r.Bool(1, 2) {
		w.ver.trust = append(w.ver.trust, w.other)
	}
	if r.Bool(1, 3) {
		w.second.trust = []*edPair{w.signer}
	}
	for i, n := range w.nodes() {
		kind := 1 + r.Choose(3) // every pool has a storage
		if kind&1 != 0 {
			n.db = file("keys-" + n.name + ".db")
			if i > 0 && r.Bool(1, 3) && w.issuer.db != "" {
				n.db = w.issuer.db // shared
			}
		}
		if kind&2 != 0 {
			n.dir = file("dir-" + n.name)
			if i > 0 && r.Bool(1, 3) && w.issuer.dir != "" {
				n.dir = w.issuer.dir // shared
			}
		}
	}
	w.s = sched.New(r, pc)
	simsql.Hook = w.sqlHook
	simsql.Wait = func(try int) bool {
		if try > 60 || !sched.InTask() {
			return false
		}
		return !sched.Pause("busy")
	}
	simos.Hook = w.fsHook
	simos.WriteHook = func(path string, n int) (int, error) {
		if w.faults && sched.InTask() && n > 1 && r.Fault("short-write", w.pFS, 100) {
			return r.Choose(n), simos.ErrFull
		}
		return n, nil
	}
	simos.Flush()
	defer func() {
		w.s.Close()
		simsql.Hook, simsql.Wait = nil, nil
		simos.Hook, simos.WriteHook = nil, nil
		simsql.Crash()
		for _, n := range w.nodes() {
			if n.conn != nil {
				n.conn.Close()
			}
		}
	}()
	w.s.OnStep = func() { time.Sleep(time.Millisecond) }
	for _, n := range w.nodes() {
		w.start(n)
	}
	w.faults = !r.NoFault
	gen := func() *pNode { return []*pNode{w.issuer, w.second}[r.Weighted(3, 1)] }
	any := func() *pNode { return w.nodes()[r.Weighted(1, 1, 3)] }
	ops := r.Range(4, 30)
	maxTasks := r.Range(1, 4)
	for i := 0; i < ops; i++ {
		r.Op("op")
		name := fmt.Sprintf("t%d", i)
		switch r.Weighted(6, 4, 3, 2, 4, 1, 1, pCrash, 1) {
		case 0:
			n := gen()
			r.Logf("%s: current key of %s", name, n.name)
			w.s.Go(name, func() { w.current(n, r.NoFault) })
		case 1:
			n := any()
			id := string(r.Bytes(32))
			if k := w.some(); k != nil && r.Bool(9, 10) {
				id = kid(k)
			}
			r.Logf("%s: %s looks up %s", name, n.name, hx(id))
			w.s.Go(name, func() { w.lookup(n, id) })
		case 2:
			if k := w.some(); k != nil {
				n := any()
				r.Logf("%s: %s gets key %s", name, n.name, hx(kid(k)))
				w.s.Go(name, func() { w.load(n, k, true) })
			}
		case 3:
			if k := w.some(); k != nil {
				n := any()
				kind := r.Choose(10)
				f := w.forge(k, kind)
				if r.Bool(1, 2) {
					r.Logf("%s: %s gets a key forged from %s, kind %d", name, n.name, hx(kid(k)), kind)
					w.s.Go(name, func() { w.load(n, f, false) })
				} else {
					r.Logf("the key server is replaced: %s is of kind %d", hx(kid(k)), kind)
					w.remote[kid(k)] = []byte(pmarshal(f))
					w.remote[kid(f)] = []byte(pmarshal(f))
					id := []string{kid(k), kid(f)}[r.Choose(2)]
					if r.Bool(1, 6) {
						w.remote[kid(k)] = w.remote[kid(k)][:r.Choose(len(w.remote[kid(k)]))]
					}
					if o := w.some(); r.Bool(1, 4) {
						w.remote[kid(k)] = []byte(pmarshal(o))
					}
					w.s.Go(name, func() { w.lookup(w.ver, id) })
				}
			}
		case 4:
			d := time.Duration(r.Range(1, 130)) * time.Duration(w.life) * time.Second / 100
			r.Logf("%v pass", d)
			time.Sleep(d)
		case 5:
			n := any()
			r.Logf("%s: %s loads the stored keys", name, n.name)
			w.s.Go(name, func() {
				err := n.kp.Load()
				sched.Alive()
				r.Logf("  %s: load: %v", n.name, err)
				if err != nil && r.NoFault {
					r.Fail(pc, "no-load", "%s: the stored keys cannot be loaded: %v", n.name, err)
				}
			})
		case 6:
			if k := w.some(); k != nil {
				n := any()
				r.Logf("%s: %s saves key %s", name, n.name, hx(kid(k)))
				w.s.Go(name, func() {
					var a [signkeys.KeyIDSize]byte
					copy(a[:], kid(k))
					err := n.kp.SaveKey(a)
					sched.Alive()
					r.Logf("  %s: save: %v", n.name, err)
				})
			}
		case 7:
			r.CountFault("crash")
			w.crash()
		case 8:
			if len(w.ver.trust) == 1 {
				for w.s.Live() > 0 && w.s.Step() { // they may hold the pool's lock
				}
				if w.s.Live() > 0 {
					break
				}
				w.ver.trust = append(w.ver.trust, w.other)
				r.Logf("the verifier trusts another signer")
				w.ver.kp.AddVerifyKey(&w.other.pub)
			}
		}
		n := r.Choose(25)
		for j := 0; j < n || w.s.Live() >= maxTasks; j++ {
			if !w.s.Step() {
				break
			}
			if pCrash > 0 && w.s.Live() > 0 && r.Fault("crash", pCrash, 150) {
				w.crash()
				break
			}
		}
	}
	r.Op("settle")
	w.faults = false
	r.Logf("faults stop")
	if !w.s.Run(5000) {
		r.Fail(pc, "stuck", "operations did not finish within 5000 steps after faults stopped")
	}
	w.checkKept()
	if r.Bool(1, 2) && !r.NoFault {
		w.crash()
	}
	for _, n := range []*pNode{w.issuer, w.second} {
		w.current(n, true)
		w.current(n, true)
	}
	for _, id := range w.ids { // everything the issuers made can be verified
		var a [signkeys.KeyIDSize]byte
		copy(a[:], id)
		t0 := times.Now()
		got, err := w.ver.kp.Lookup(a)
		w.checkLookup(w.ver, id, t0, got, err, true)
	}
	for i, n := range []*pNode{w.issuer, w.issuer, w.second, w.second} { // by another program, from one storage
		p := &pNode{name: "reader", usage: n.usage, trust: n.trust, db: n.db}
		if i%2 == 0 {
			p.db, p.dir = "", n.dir
		}
		if p.db == "" && p.dir == "" {
			continue
		}
		w.start(p)
		for _, id := range w.ids {
			if w.handed[id] != n.name {
				continue
			}
			var a [signkeys.KeyIDSize]byte
			copy(a[:], id)
			got, err := p.kp.Lookup(a)
			w.checkLookup(p, id, times.Now(), got, err, true)
		}
		if p.conn != nil {
			p.conn.Close()
		}
	}
	r.Counter[fmt.Sprintf("state:k%d h%d", len(w.ids), len(w.handed))]++
}
