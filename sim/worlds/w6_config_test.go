//go:build go1.25

package worlds

import (
	"bytes"
	"context"
	"crypto/ed25519"
	"crypto/sha512"
	"crypto/x509"
	"encoding/hex"
	"encoding/json"
	"encoding/pem"
	"errors"
	"fmt"
	"io"
	nethttp "net/http"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/mutecomm/mute/configclient"
	"github.com/mutecomm/mute/configclient/sortedmap"
	"github.com/mutecomm/mute/def"
	mixclient "github.com/mutecomm/mute/mix/client"
	"github.com/mutecomm/mute/msg"
	"github.com/mutecomm/mute/serviceguard/client"
	"github.com/mutecomm/mute/serviceguard/client/guardrpc"
	"github.com/mutecomm/mute/serviceguard/client/keylookup"
	"github.com/mutecomm/mute/serviceguard/client/walletrpc"
	"github.com/mutecomm/mute/util"
	"github.com/mutecomm/mute/zzverif/sim"
)

// The configuration world: one authority publishes signed configurations, any
// number of which are mirrored by configuration servers that may be honest,
// stale, slow, dead or malicious; a client updates, restarts and its clock
// jumps.

func init() {
	register(&sim.World{Name: "config", Bubble: true, Body: configBody, Nontrivial: func(r *sim.Run) bool { return r.Counter["updates"] > 0 }})
}

// cCAs is a pool of certificates the authority and attackers use.
var cCAs = [][]byte{makeCA("ca 0"), makeCA("ca 1"), makeCA("ca 2"), makeCA("evil 0"), makeCA("evil 1")}

type cPublished struct {
	raw  []byte
	m    map[string]string
	date uint64
	ca   int // index into cCAs, -1: none
}

type cServer struct {
	host   string
	prio   int
	mode   string
	config []byte // what it serves during this update
	cacert []byte
	delay  time.Duration
	stallB bool // stalls in the body
	netErr bool
}

type cWorld struct {
	r       *sim.Run
	pub     []cPublished
	key     ed25519.PrivateKey
	evil    ed25519.PrivateKey
	servers []*cServer
	reqs    []string
	skewed  time.Duration
}

type stallBody struct {
	data []byte
	ctx  context.Context
	err  error
}

func (s *stallBody) Read(p []byte) (int, error) {
	if len(s.data) > 0 {
		n := copy(p, s.data)
		s.data = s.data[n:]
		return n, nil
	}
	if s.err != nil {
		return 0, s.err
	}
	<-s.ctx.Done()
	return 0, s.ctx.Err()
}
func (s *stallBody) Close() error { return nil }

// RoundTrip is the network between the client and the servers.
func (w *cWorld) RoundTrip(req *nethttp.Request) (*nethttp.Response, error) {
	var s *cServer
	for _, x := range w.servers {
		if x.host == req.URL.Host {
			s = x
		}
	}
	what := strings.TrimPrefix(req.URL.Path, "/")
	w.r.Logf("  GET %s %s", req.URL.Host, what)
	w.reqs = append(w.reqs, req.URL.Host+" "+what)
	if s == nil {
		return nil, errors.New("sim: no such host")
	}
	var body []byte
	switch what {
	case "config":
		body = s.config
	case "cacert":
		body = s.cacert
	}
	if s.mode == "dead" || body == nil {
		return nil, errors.New("sim: connection refused")
	}
	if s.mode == "stalled" {
		<-req.Context().Done()
		return nil, req.Context().Err()
	}
	select {
	case <-time.After(s.delay):
	case <-req.Context().Done():
		return nil, req.Context().Err()
	}
	var rc io.ReadCloser = io.NopCloser(bytes.NewReader(body))
	if s.mode == "cut" {
		rc = &stallBody{data: body[:len(body)/2], err: errors.New("sim: connection reset")}
	}
	if s.mode == "stallbody" {
		rc = &stallBody{data: body[:len(body)/2], ctx: req.Context()}
	}
	return &nethttp.Response{Status: "200 OK", StatusCode: 200, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: nethttp.Header{}, Body: rc, ContentLength: -1, Request: req}, nil
}

func (w *cWorld) makeMap() map[string]string {
	r := w.r
	n := len(w.pub)
	pub := func() string { return hex.EncodeToString(r.Bytes(32)) }
	m := map[string]string{
		"mixclient.RPCPort":       ":2080",
		"mixclient.MixAddress":    fmt.Sprintf("mix%d@mute.one", n),
		"mixclient.AccountServer": fmt.Sprintf("accounts%d.mute.one", n),
		"mixclient.Sender":        "client@mute.one",
		"walletrpc.ServiceURL":    fmt.Sprintf("https://wallet%d/", n),
		"keylookup.ServiceURL":    fmt.Sprintf("https://lookup%d/", n),
		"guardrpc.ServiceURL":     fmt.Sprintf("https://guard%d/", n),
		"serviceguard.TrustRoot":  pub(),
		"mix.MaxDelay":            strconv.Itoa(r.Choose(1000000)),
		"muteaccd.owner":          pub(),
		"muteaccd.usage":          "Account",
		"generation":              strconv.Itoa(n),
	}
	for i := r.Choose(4); i > 0; i-- {
		m[fmt.Sprintf("extra%d", r.Choose(5))] = hex.EncodeToString(r.Bytes(r.Choose(4)))
	}
	if r.Bool(1, 8) {
		delete(m, "mixclient.RPCPort")
	}
	return m
}

func caHash(pemData []byte) string {
	b, _ := pem.Decode(pemData)
	h := sha512.Sum512(b.Bytes)
	return hex.EncodeToString(h[:])
}

// publish signs a new configuration (or the same one again with a new date).
func (w *cWorld) publish(date uint64) {
	r := w.r
	p := cPublished{ca: -1, date: date}
	if len(w.pub) > 0 && r.Bool(1, 3) {
		last := w.pub[len(w.pub)-1]
		p.m, p.ca = last.m, last.ca
	} else {
		p.m = w.makeMap()
		if !r.Bool(1, 6) {
			p.ca = r.Choose(3)
			p.m["CACertHash"] = caHash(cCAs[p.ca])
		}
	}
	var k [64]byte
	copy(k[:], w.key)
	sm := &sortedmap.SignedMap{Config: p.m, SignDate: date}
	sm.Signature = sortedmap.StringMap(p.m).Sort().Sign(date, &k)
	p.raw, _ = sm.Marshal()
	w.pub = append(w.pub, p)
	r.Logf("publish %d date %d ca %d", len(w.pub)-1, date, p.ca)
}

func (w *cWorld) now() uint64 { return uint64(time.Now().Unix()) }

// forge makes a configuration the authority did not sign.
func (w *cWorld) forge() []byte {
	r := w.r
	p := w.pub[r.Choose(len(w.pub))]
	if r.Bool(1, 2) {
		p = w.pub[len(w.pub)-1]
	}
	var sm sortedmap.SignedMap
	json.Unmarshal(p.raw, &sm)
	switch k := r.Choose(13); k {
	case 0: // another value
		for _, f := range []string{"serviceguard.TrustRoot", "mixclient.MixAddress", "generation", "CACertHash"} {
			if r.Bool(1, 2) || f == "CACertHash" {
				sm.Config[f] = "attacker"
				break
			}
		}
	case 1: // the attacker's certificate
		sm.Config["CACertHash"] = caHash(cCAs[3])
	case 2: // an additional entry
		sm.Config["release.Commit"] = "attacker"
	case 3:
		delete(sm.Config, "generation")
	case 4: // fresher date
		sm.SignDate = w.now()
	case 5:
		sm.SignDate += uint64(1 + r.Choose(10))
	case 6: // signed by somebody else
		sm.Config["mixclient.MixAddress"] = "mix@evil"
		sm.SignDate = w.now()
		var k [64]byte
		copy(k[:], w.evil)
		sm.Signature = sm.Config.Sort().Sign(sm.SignDate, &k)
	case 7:
		if len(sm.Signature) > 0 {
			sm.Signature[r.Choose(len(sm.Signature))] ^= byte(1 << uint(r.Choose(8)))
		}
	case 8:
		sm.Signature = nil
	case 9: // characters moved between a key and its value
		ks := sortedKeys(sm.Config)
		k := ks[r.Choose(len(ks))]
		v := sm.Config[k]
		if len(v) > 1 {
			n := 1 + r.Choose(len(v)-1)
			delete(sm.Config, k)
			sm.Config[k+v[:n]] = v[n:]
		}
	case 12: // an entry merged into its neighbour
		ks := sortedKeys(sm.Config)
		if len(ks) > 1 {
			i := r.Choose(len(ks) - 1)
			sm.Config[ks[i]] += ks[i+1] + sm.Config[ks[i+1]]
			delete(sm.Config, ks[i+1])
		}
	case 10: // signature and date of another one
		o := w.pub[r.Choose(len(w.pub))]
		var so sortedmap.SignedMap
		json.Unmarshal(o.raw, &so)
		sm.Signature = so.Signature
		if r.Bool(1, 2) {
			sm.SignDate = so.SignDate
		}
	case 11: // empty map
		sm.Config = map[string]string{}
		sm.SignDate = w.now()
	}
	raw, _ := sm.Marshal()
	return raw
}

func sortedKeys(m map[string]string) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func (w *cWorld) badCA(good []byte) []byte {
	r := w.r
	switch r.Choose(8) {
	case 0:
		return cCAs[3]
	case 1: // good one followed by the attacker's
		return append(append([]byte{}, good...), cCAs[3]...)
	case 2: // the attacker's first
		return append(append([]byte{}, cCAs[3]...), good...)
	case 3:
		return []byte("<html>not found</html>")
	case 4:
		return []byte("")
	case 5:
		return good[:len(good)/2]
	case 6:
		b := append([]byte{}, good...)
		b[60+r.Choose(len(b)-120)] ^= 1
		return b
	default:
		return pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: r.Bytes(40)})
	}
}

// certsOf returns what a TLS client would trust when given data as root.
func certsOf(data []byte) (out []string) {
	for len(data) > 0 {
		var b *pem.Block
		b, data = pem.Decode(data)
		if b == nil {
			break
		}
		if b.Type != "CERTIFICATE" || len(b.Headers) != 0 {
			continue
		}
		if _, err := x509.ParseCertificate(b.Bytes); err != nil {
			continue
		}
		h := sha512.Sum512(b.Bytes)
		out = append(out, hex.EncodeToString(h[:]))
	}
	return
}

// genuine returns the publication raw is an unaltered copy of.
func (w *cWorld) genuine(raw []byte) *cPublished {
	for i := range w.pub {
		if bytes.Equal(w.pub[i].raw, raw) {
			return &w.pub[i]
		}
	}
	return nil
}

func sameMap(a, b map[string]string) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if x, ok := b[k]; !ok || x != v {
			return false
		}
	}
	return true
}

const cMaxAge = 4 * 3600 // documented maximum age of a signature, see below

func configBody(r *sim.Run) {
	w := &cWorld{r: r}
	w.key = ed25519.NewKeyFromSeed(r.Bytes(32))
	w.evil = ed25519.NewKeyFromSeed(r.Bytes(32))
	old := nethttp.DefaultTransport
	nethttp.DefaultTransport = w
	defer func() { nethttp.DefaultTransport = old }()
	time.Sleep(time.Hour * 24 * time.Duration(300+r.Choose(1000)))
	n := r.Range(1, 4)
	var list []string
	for i := 0; i < n; i++ {
		s := &cServer{host: fmt.Sprintf("cfg%d.mute.one:3080", i), prio: 1 + r.Choose(3)}
		w.servers = append(w.servers, s)
		list = append(list, fmt.Sprintf("%d,%s", s.prio, s.host))
	}
	c := &configclient.Config{PublicKey: []byte(w.key.Public().(ed25519.PublicKey)), URLList: strings.Join(list, ";")}
	if r.Bool(1, 3) {
		c.Timeout = int64(1 + r.Choose(60))
	}
	r.Logf("servers %s", c.URLList)
	w.publish(w.now())
	accepted := -1 // index of the publication in force
	ops := r.Range(2, 14)
	for i := 0; i < ops; i++ {
		r.Op("round")
		r.Steps++
		// time passes
		switch r.Weighted(4, 3, 2, 1) {
		case 0:
			time.Sleep(time.Duration(r.Choose(600)) * time.Second)
		case 1:
			time.Sleep(time.Duration(r.Choose(5*3600)) * time.Second)
		case 2:
			time.Sleep(time.Duration(r.Choose(72*3600)) * time.Second)
		}
		// the authority publishes, its clock may be off
		if r.Bool(2, 3) {
			d := w.now()
			if r.Fault("clock-skew", 1, 5) {
				d = uint64(int64(d) + int64(r.Range(-20000, 20000)))
			}
			w.publish(d)
		}
		// restart of the program: only the stored configuration survives
		if r.Bool(1, 3) {
			r.Logf("restart")
			j, err := json.Marshal(c)
			if err != nil {
				r.Fail("C13", "store", "cannot store the configuration: %v", err)
			}
			c = new(configclient.Config)
			if err := json.Unmarshal(j, c); err != nil {
				r.Fail("C13", "store", "cannot load the configuration: %v", err)
			}
		}
		accepted = w.update(c, accepted)
	}
	// faults stop: every server is honest and serves a fresh configuration
	r.Op("recover")
	r.Logf("recover")
	nf := r.NoFault
	r.NoFault = true
	time.Sleep(48 * time.Hour)
	w.publish(w.now())
	w.update(c, accepted)
	r.NoFault = nf
}

func (w *cWorld) update(c *configclient.Config, accepted int) int {
	r := w.r
	latest := len(w.pub) - 1
	now := w.now()
	// what the servers do during this update
	for i, s := range w.servers {
		s.delay = time.Duration(r.Choose(1000)) * time.Millisecond
		s.mode, s.cacert = "ok", cCAs[0]
		p := w.pub[latest]
		s.config = p.raw
		if p.ca >= 0 {
			s.cacert = cCAs[p.ca]
		}
		if r.NoFault {
			continue
		}
		switch k := r.Weighted(8, 2, 2, 1, 1, 3, 4, 3); k {
		case 0:
		case 1:
			s.mode = "dead"
			r.CountFault("server-dead")
		case 2:
			s.mode = "stalled"
			if r.Bool(1, 2) {
				s.mode = "stallbody"
			}
			r.CountFault("server-stalled")
		case 3:
			s.mode = "cut"
			r.CountFault("connection-reset")
		case 4:
			s.config = [][]byte{[]byte("<html>404</html>"), []byte(""), []byte("null"), []byte("{}"), []byte("[]"), bytes.Repeat([]byte(" "), 1<<20+5)}[r.Choose(6)]
			r.CountFault("garbage-config")
		case 5:
			s.config = w.forge()
			s.cacert = cCAs[3]
			r.CountFault("forged-config")
		case 6: // replay of an older one with its own certificate
			p := w.pub[r.Choose(len(w.pub))]
			if r.Bool(1, 2) && latest > 0 {
				p = w.pub[latest-1]
			}
			s.config = p.raw
			if p.ca >= 0 {
				s.cacert = cCAs[p.ca]
			}
			r.CountFault("replayed-config")
		case 7:
			s.cacert = w.badCA(s.cacert)
			r.CountFault("bad-cacert")
		}
		r.Logf("  server %d prio %d: %s", i, s.prio, s.mode)
	}
	before := *c
	before.Map = map[string]string{}
	for k, v := range c.Map {
		before.Map[k] = v
	}
	before.CACert = append([]byte{}, c.CACert...)
	w.reqs = nil
	var err error
	r.Counter["updates"]++
	if r.Guard("C13", "Update", func() { err = c.Update() }) {
		return accepted
	}
	took := int64(w.now()) - int64(now)
	r.Logf("Update -> %v (%d s)", err != nil, took)
	r.Shape(fmt.Sprintf("update %v %d", err == nil, len(w.reqs)))
	timeout := c.Timeout
	r.Eval("C13")
	r.Check(took <= 2*(timeout+1)*int64(len(w.servers)), "C13", "timeout", "the update took %d s with %d servers and a timeout of %d s", took, len(w.servers), timeout)
	// order of requests: no server is asked while a server with higher
	// priority has not been asked
	for _, kind := range []string{"config", "cacert"} {
		last := 0
		seen := map[string]int{}
		for _, q := range w.reqs {
			if !strings.HasSuffix(q, " "+kind) {
				continue
			}
			for _, s := range w.servers {
				if strings.HasPrefix(q, s.host+" ") {
					seen[s.host]++
					if kind == "config" {
						r.Check(s.prio >= last, "C13", "priority", "server of priority %d asked after one of priority %d", s.prio, last)
						last = s.prio
						for _, o := range w.servers {
							r.Check(o.prio >= s.prio || seen[o.host] > 0, "C13", "priority", "server of priority %d asked before one of priority %d", s.prio, o.prio)
						}
					}
				}
			}
		}
	}
	if err != nil {
		r.Check(sameMap(before.Map, c.Map) && bytes.Equal(before.CACert, c.CACert), "C13", "failed-update-changed",
			"a failed update changed the configuration in use: map changed %v, CA certificate changed %v", !sameMap(before.Map, c.Map), !bytes.Equal(before.CACert, c.CACert))
		r.Check(before.LastSignDate == 0 || c.LastSignDate == before.LastSignDate, "C13", "failed-update-changed", "a failed update changed the last signature date")
	} else {
		// the accepted one must be a publication of the authority
		idx := -1
		for i := range w.pub {
			if w.pub[i].date == c.LastSignDate && sameMap(w.pub[i].m, c.Map) {
				idx = i
			}
		}
		if !r.Check(idx >= 0, "C13", "forged", "accepted a configuration (date %d) the authority never signed", c.LastSignDate) {
			return accepted
		}
		p := w.pub[idx]
		r.Logf("  accepted %d", idx)
		r.Check(p.date >= before.LastSignDate, "C13", "rollback", "accepted date %d after %d", p.date, before.LastSignDate)
		age := int64(w.now()) - int64(p.date)
		if age < 0 {
			age = -age
		}
		r.Check(age <= cMaxAge+took, "C13", "stale", "accepted a configuration whose signature is %d s off", age)
		if p.ca >= 0 {
			certs := certsOf(c.CACert)
			good := len(certs) == 1 && certs[0] == p.m["CACertHash"]
			r.Check(good, "C13", "cacert", "the CA certificates in use (%d) are not the one the configuration commits to", len(certs))
		} else {
			r.Check(bytes.Equal(c.CACert, before.CACert), "C13", "cacert", "the CA certificate changed without a commitment in the configuration")
		}
		accepted = idx
		w.applied(c)
	}
	// availability
	ok, impossible := true, true
	for _, s := range w.servers {
		p := w.genuine(s.config)
		if s.mode != "ok" || p == nil || len(s.config) > configclient.MaxReadBody {
			continue
		}
		if before.LastSignDate != 0 && p.date < before.LastSignDate {
			continue
		}
		a := int64(now) - int64(p.date)
		if a > cMaxAge || -a > cMaxAge+took {
			continue
		}
		impossible = false // at least one server may be accepted
		if a+took > cMaxAge || -a > cMaxAge {
			ok = false // depends on when it is asked
			continue
		}
		if p.ca >= 0 && (len(before.CACert) == 0 || caHash(before.CACert) != p.m["CACertHash"]) {
			have := false
			for _, o := range w.servers {
				have = have || (o.mode == "ok" && bytes.Equal(o.cacert, cCAs[p.ca]))
			}
			// only servers not yet found failing are sure to be asked
			ok = ok && have
		}
	}
	r.Eval("C13")
	if !impossible && ok {
		r.Check(err == nil, "C13", "unavailable", "the update failed (%v) although an honest server was reachable", err)
	}
	if impossible {
		r.Check(err != nil, "C13", "impossible", "the update succeeded although no server had an acceptable configuration")
	}
	return accepted
}

// applied checks that the accepted configuration, and nothing else, is put in
// force.
func (w *cWorld) applied(c *configclient.Config) {
	r := w.r
	var err error
	if r.Guard("C13", "InitMute", func() { err = def.InitMute(c) }) {
		return
	}
	r.Eval("C13")
	if err != nil {
		r.Fail("C13", "apply", "InitMute failed: %v", err)
		return
	}
	m := c.Map
	root := ""
	if client.TrustRoot != nil {
		root = hex.EncodeToString(client.TrustRoot[:])
	}
	owner := ""
	if def.AccdOwner != nil {
		owner = hex.EncodeToString(def.AccdOwner[:])
	}
	max, _ := strconv.ParseUint(m["mix.MaxDelay"], 10, 64)
	for _, x := range []struct{ name, got, want string }{
		{"mix address", util.MixAddress, m["mixclient.MixAddress"]},
		{"account server", mixclient.DefaultAccountServer, m["mixclient.AccountServer"]},
		{"sender", mixclient.DefaultSender, m["mixclient.Sender"]},
		{"wallet service", walletrpc.ServiceURL, m["walletrpc.ServiceURL"]},
		{"key lookup service", keylookup.ServiceURL, m["keylookup.ServiceURL"]},
		{"issuer service", guardrpc.ServiceURL, m["guardrpc.ServiceURL"]},
		{"trust root", root, m["serviceguard.TrustRoot"]},
		{"account owner", owner, m["muteaccd.owner"]},
		{"account usage", def.AccdUsage, m["muteaccd.usage"]},
		{"cleanup time", fmt.Sprint(msg.CleanupTime), fmt.Sprint(2*msg.SendTime + 2*max)},
		{"CA certificate", string(def.CACert), string(c.CACert)},
	} {
		r.Check(x.got == x.want, "C13", "apply", "setting %s is %q, the accepted configuration says %q", x.name, x.got, x.want)
	}
	r.Check(sameMap(def.ConfigMap, m), "C13", "apply", "the configuration map in force differs from the accepted one")
}
