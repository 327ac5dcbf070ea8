//go:build go1.25

package worlds

import (
	"bytes"
	"crypto/ed25519"
	"crypto/rand"
	"crypto/tls"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	nethttp "net/http"
	"net/textproto"
	"path/filepath"
	"strings"
	"time"

	"github.com/mutecomm/mute/configclient/sortedmap"
	"github.com/mutecomm/mute/encdb"
	mixclient "github.com/mutecomm/mute/mix/client"
	"github.com/mutecomm/mute/mix/mixaddr"
	"github.com/mutecomm/mute/mix/mixcrypt"
	"github.com/mutecomm/mute/release"
	"github.com/mutecomm/mute/serviceguard/common/signkeys"
	"github.com/mutecomm/mute/serviceguard/common/walletauth"
	"github.com/mutecomm/mute/util"
	simexec "github.com/mutecomm/mute/zzverif/shim/exec"
	"github.com/mutecomm/mute/zzverif/shim/http"
	simos "github.com/mutecomm/mute/zzverif/shim/os"
	"github.com/mutecomm/mute/zzverif/shim/smtp"
	simsql "github.com/mutecomm/mute/zzverif/shim/sql"
	"github.com/mutecomm/mute/zzverif/sim"
)

func init() {
	register(&sim.World{Name: "mute", Props: []string{"C18", "C19", "C20", "C21", "C22"}, Body: uBody, Bubble: true,
		Nontrivial: func(r *sim.Run) bool { return r.Counter["delivered"] > 0 }})
}

const uFront = "accounts.mute.one" // the one in the configuration, which assigns accounts to servers

var uServers = []string{"acc1.mute.one", "acc2.mute.one"}

// uWorld is Mute as its users see it: computers with mutectrl, mutecrypt and
// muteproto on them, a key server, a wallet, a mix, an account server and a
// configuration server.
type uWorld struct {
	r                    *sim.Run
	m                    *vMachine
	users                []*uUser
	cur                  *uUser // whose command is running
	ks                   *vKS
	tkn                  *edPair // owner of the key server's tokens
	acc                  *edPair // owner of the account server's tokens
	bank                 *wWorld
	conf                 map[string]string
	cfg                  []byte // signed configuration
	cfgDate              uint64
	served               uint64            // date of the last configuration which was served
	pubs                 map[uint64]string // published configurations
	signed               [][]byte          // the same, signed
	isOffline            bool
	nets                 int
	cmdStart             int64
	faults, talk         bool
	fetching             map[*uMsg]bool // messages which arrive during a fetch
	faultNum, faultDen   int
	defMin, defMax       int32
	nmsg, evils, rekeys  int
	passes               []string // what the user enters at the prompts of db rekey
	msgs                 []*uMsg
	addrs                []string // nym addresses
	sentEncs             []string
	decrypting           map[*simos.Proc]*bytes.Buffer
	encs, encsBin, mails map[string]*uEnv
	byBody               map[string]*uMsg
	mix                  *uMix
	accts                map[string]*uAcct // by mailbox
	byKey                map[[32]byte]*uAcct
}

type uUser struct {
	pass             string
	name             string
	dir              string
	wallet           *wWorld
	nyms             []*uNym
	st               *uState
	rows             map[int64]*uMsg // messages by row
	broken           bool            // the last msg fetch was interrupted
	kvDate, fileDate uint64          // configurations
}

type uNym struct {
	u    *uUser
	id   string
	gone bool
	row  int64
	ac   *uAcct
}

func (n *uNym) acct() *uAcct { return n.ac }

func (n *uNym) String() string { return n.id }

type uMix struct {
	kl     *mixaddr.KeyList
	priv   *[64]byte
	queue  []*uMail
	past   []*uMail
	unique map[string]bool
	never  map[string]bool
	later  map[string]bool // mails deferred as long as the run is not over
	defers int             // so many new mails are deferred
}

type uMail struct {
	mail []byte
	env  *uEnv
	evil bool
	// copied says that the message in it was taken out of its mail and sent again
	copied bool
	other  bool // goes through another mix
	date   int64
}

type uAcct struct {
	pub     [32]byte
	server  string
	loaded  int64
	counter uint64
	paid    int
	msgs    []*uBox
}

// uBox is a message in a mailbox.
type uBox struct {
	id   []byte
	at   time.Time
	mail []byte
	read int64
	env  *uEnv
}

// The servers.

func (w *uWorld) setupServers() {
	r := w.r
	w.acc, w.tkn = newEd(), newEd()
	b := &wWorld{r: r, issuers: map[string]*issuer{}, keys: map[string]*issuer{}, keyObj: map[string]*signkeys.PublicKey{},
		offered: map[string]bool{}, rogue: newIssuer("Message"), spent: map[string]string{}, usedParam: map[string]bool{}, lookup: map[string][]byte{}, ghost: map[string]bool{}}
	b.root = newEd()
	b.usages = []string{"Message", "UID", "account"}
	for _, u := range b.usages {
		b.issuers[u] = newIssuer(u)
		b.addKey(b.issuers[u])
	}
	w.bank = b
	w.ks = newVKS("mute.one", "keys.mute.one")
	w.ks.tknkey = base64.StdEncoding.EncodeToString(w.tkn.pub[:])
	w.ks.token = func(usage, tok string) error {
		tb, err := base64.StdEncoding.DecodeString(tok)
		if err != nil {
			return err
		}
		return w.spend(tb, &w.tkn.priv, usage, "the key server")
	}
	priv := edKey(r)
	dir := filepath.Join(r.Scratch, "mix")
	w.mix = &uMix{kl: mixaddr.New(priv, "mix@mix.mute.one", 90*86400, 86400, dir), priv: priv, unique: map[string]bool{}, never: map[string]bool{}, later: map[string]bool{}}
	if err := w.mix.kl.AddKey(); err != nil {
		panic(err)
	}
	w.conf = vConfigMap(map[string]string{
		"serviceguard.TrustRoot": hex.EncodeToString(b.root.pub[:]), "muteaccd.owner": hex.EncodeToString(w.acc.pub[:]), "muteaccd.usage": "account",
		"release.Commit": release.Commit, "release.Date": release.Date, "guardrpc.ServiceURL": ".guard.mute.one/", "CACertHash": caHash(simCA),
	})
	w.publish()
	nethttp.DefaultTransport = uTransport{w}
	smtp.Dialer = w.dial
	w.m.serve, w.m.web, w.m.mangle = w.serve, w.web, w.mangle
}

func (w *uWorld) publish() {
	key := ed25519.NewKeyFromSeed(bytes.Repeat([]byte{0x5a}, 32))
	var k [64]byte
	copy(k[:], key)
	date := uint64(time.Now().Unix())
	if date <= w.cfgDate {
		date = w.cfgDate + 1
	}
	w.cfgDate = date
	sm := &sortedmap.SignedMap{Config: w.conf, SignDate: date}
	sm.Signature = sortedmap.StringMap(w.conf).Sort().Sign(date, &k)
	w.cfg, _ = sm.Marshal()
	if w.pubs == nil {
		w.pubs = map[uint64]string{}
	}
	w.pubs[date] = canonMap(w.conf)
	w.signed = append(w.signed, w.cfg)
}

// spend: a service takes a token.
func (w *uWorld) spend(tb []byte, priv *[64]byte, usage, who string) error {
	t, is, err := w.bank.verifyToken(tb)
	if err != nil {
		return err
	}
	if is.usage != usage {
		return rpcError("wrong usage")
	}
	h := hex.EncodeToString(t.Hash())
	if x := w.bank.spent[h]; x != "" {
		w.r.Logf("  token %s was spent before by %s", h[:8], x)
		return rpcError("token double spend")
	}
	return w.bank.spend(tb, priv, who)
}

type uTransport struct{ w *uWorld }

// RoundTrip serves the configuration.
func (t uTransport) RoundTrip(req *nethttp.Request) (*nethttp.Response, error) {
	w := t.w
	p, dead := w.m.gate()
	if dead {
		return nil, http.ErrNet
	}
	w.r.Logf("  GET %s%s", req.URL.Host, req.URL.Path)
	w.nets++
	var body []byte
	switch req.URL.Path {
	case "/config":
		body = w.cfg
		w.served = w.cfgDate
	case "/cacert":
		body = simCA
	}
	return w.webFault(p, req, "GET "+req.URL.Path, func() []byte { return body })
}

// webFault answers a request which is not JSON-RPC.
func (w *uWorld) webFault(p *simos.Proc, req *nethttp.Request, what string, f func() []byte) (*nethttp.Response, error) {
	fault := ""
	if p != nil {
		fault = w.m.netFault(what)
	}
	switch fault {
	case "lost":
		return nil, http.ErrNet
	case "crash":
		w.m.crashed, w.m.power = true, true
		w.m.killAll()
		return nil, http.ErrNet
	case "server-error":
		return http.Reply(req, 500, "internal server error"), nil
	case "slow":
		time.Sleep(time.Duration(w.r.Range(1, 20)) * time.Second)
		if p.Dead() {
			return nil, http.ErrNet
		}
	}
	b := f()
	switch fault {
	case "no-reply":
		return nil, http.ErrNet
	case "crash-after":
		w.m.crashed, w.m.power = true, true
		w.m.killAll()
		return nil, http.ErrNet
	case "malformed":
		n := w.r.Choose(len(b) + 1)
		if strings.HasPrefix(what, "fetch") {
			res := http.Reply(req, 200, string(b))
			res.Body = io.NopCloser(&uCut{b[:n], n})
			return res, nil
		}
		b = b[:n]
		if what == "GET /config" {
			switch w.r.Choose(3) {
			case 0: // an old one
				b = w.signed[w.r.Choose(len(w.signed))]
				w.served = 0
				var sm sortedmap.SignedMap
				if json.Unmarshal(b, &sm) == nil {
					w.served = sm.SignDate
				}
			case 1: // a forged one
				var sm sortedmap.SignedMap
				if err := json.Unmarshal(w.cfg, &sm); err != nil {
					panic(err)
				}
				sm.Config["release.Commit"] = "0000000000000000000000000000000000000000"
				if w.r.Bool(1, 2) {
					sm.SignDate += 10
				}
				b, _ = sm.Marshal()
			}
		}
	}
	return http.Reply(req, 200, string(b)), nil
}

// mangle damages replies: the account server is trusted, its replies are cut
// off, missing or unintelligible, but not wrong.
func (w *uWorld) mangle(req *nethttp.Request, q *rpcRequest, res map[string]interface{}) *nethttp.Response {
	if !strings.HasPrefix(q.Method, "AccountServer.") {
		return mangle(w.r, req, q, res)
	}
	switch w.r.Choose(5) {
	case 0:
		return http.Reply(req, 502, "<html>bad gateway</html>")
	case 1:
		return http.Reply(req, 200, "")
	case 2:
		return http.Reply(req, 200, `{"jsonrpc":"2.0","result":`)
	case 3:
		b, err := json.Marshal(map[string]interface{}{"jsonrpc": "2.0", "result": w.garble(res), "id": q.ID})
		if err != nil {
			panic(err)
		}
		return http.Reply(req, 200, string(b))
	}
	return http.Reply(req, 200, `{"jsonrpc":"2.0","result":null,"id":1}`)
}

// garble puts something unintelligible into a reply of the account server.
func (w *uWorld) garble(res map[string]interface{}) map[string]interface{} {
	reply := map[string]interface{}{}
	for _, k := range []string{"Messages", "LoadTime", "Server", "Result"} {
		v, ok := res[k]
		if !ok {
			continue
		}
		l, ok := v.([]interface{})
		switch {
		case ok && len(l) > 0 && w.r.Bool(3, 4):
			n := append([]interface{}{}, l...)
			i := w.r.Choose(len(n))
			if w.r.Bool(1, 4) {
				n[i] = []interface{}{nil, 1.5, "x", true, []interface{}{}, map[string]interface{}{}}[w.r.Choose(6)]
			} else {
				c := map[string]interface{}{}
				for f, v := range n[i].(map[string]interface{}) {
					c[f] = v
				}
				f := []string{"MessageID", "UserKey", "ReceiveTime", "ReceiveTimeNano", "ReadTime"}[w.r.Weighted(4, 2, 1, 1, 1)]
				if w.r.Bool(1, 3) {
					delete(c, f)
				} else {
					c[f] = []interface{}{nil, true, []interface{}{}, "xyz"}[w.r.Choose(4)]
				}
				n[i] = c
			}
			reply[k] = n
		case w.r.Bool(2, 3):
			reply[k] = []interface{}{nil, []interface{}{1.5}, map[string]interface{}{}}[w.r.Choose(3)]
		}
	}
	return reply
}

// uCut is a reply which is cut off.
type uCut struct {
	b []byte
	n int
}

func (c *uCut) Read(p []byte) (int, error) {
	if c.n == 0 {
		return 0, io.ErrUnexpectedEOF
	}
	n := copy(p, c.b[len(c.b)-c.n:])
	c.n -= n
	return n, nil
}

func (w *uWorld) web(req *nethttp.Request) (*nethttp.Response, error) {
	w.nets++
	p := simos.Current()
	switch {
	case req.URL.Host == "mix.mute.one:8080" && req.URL.Path == "/keys":
		w.r.Logf("  GET mix /keys")
		return w.webFault(p, req, "mix keys", func() []byte {
			b, err := json.Marshal(w.mix.kl.GetStatement())
			if err != nil {
				panic(err)
			}
			return b
		})
	case strings.HasPrefix(req.URL.Host, "acc") && req.URL.Path == "/message":
		req.ParseForm()
		w.r.Logf("  fetch %s", req.PostFormValue("messageid"))
		return w.webFault(p, req, "fetch message", func() []byte {
			at, _ := base64.StdEncoding.DecodeString(req.PostFormValue("authtoken"))
			a, err := w.auth(req.URL.Host, at)
			if err != nil {
				return []byte("ERROR: " + err.Error())
			}
			id, _ := hex.DecodeString(req.PostFormValue("messageid"))
			for _, b := range a.msgs {
				if bytes.Equal(b.id, id) {
					b.read = time.Now().Unix()
					return b.mail
				}
			}
			return []byte("ERROR: accountdb: Nothing found")
		})
	}
	return nil, nil
}

// auth checks an authentication token of an account.
func (w *uWorld) auth(host string, at []byte) (*uAcct, error) {
	pk, _, ctr, err := walletauth.AuthToken(at).CheckToken()
	if err != nil {
		return nil, rpcError("accountdb: bad token")
	}
	a := w.byKey[*pk]
	if a == nil || host != a.server+":8080" {
		return nil, rpcError("accountdb: Nothing found")
	}
	w.ahead(a, ctr)
	if ctr <= a.counter {
		return nil, rpcError(fmt.Sprintf("ErrReplay: %d", a.counter))
	}
	a.counter = ctr
	return a, nil
}

// ahead makes the account server remember an authentication in the future, as
// it does after the clock of a user was wrong.
func (w *uWorld) ahead(a *uAcct, ctr uint64) {
	if w.faults && ctr > a.counter && w.r.Fault("clock-was-ahead", 1, 40) {
		a.counter = uint64(time.Now().UnixNano()) + uint64(w.r.Range(1, 3000))*1e9
	}
}

func (w *uWorld) serve(req *nethttp.Request, q *rpcRequest) (map[string]interface{}, error) {
	host := req.URL.Host
	switch {
	case strings.HasPrefix(q.Method, "AccountServer."):
		return w.serveAccount(host, q)
	case strings.HasPrefix(q.Method, "Key"):
		if !strings.HasPrefix(host, "keys.mute.one") {
			return nil, fmt.Errorf("no such host %s", host)
		}
		return w.ks.serve(q)
	}
	return w.cur.wallet.serve(host, q.Method, q.Params)
}

func (w *uWorld) serveAccount(host string, q *rpcRequest) (map[string]interface{}, error) {
	var p struct {
		AuthToken, PayToken string
		LastReceiveTime     int64
	}
	if err := json.Unmarshal(q.Params, &p); err != nil {
		return nil, err
	}
	at, err := base64.StdEncoding.DecodeString(p.AuthToken)
	if err != nil {
		return nil, err
	}
	if q.Method == "AccountServer.LoadAccount" {
		pk, _, ctr, err := walletauth.AuthToken(at).CheckToken()
		if err != nil {
			return nil, rpcError("accountdb: bad token")
		}
		a := w.byKey[*pk]
		switch {
		case a == nil && host != uFront+":8080":
			return nil, rpcError("accountdb: Nothing found")
		case a != nil && host != a.server+":8080":
			w.r.Fail("C27", "wrong-server", "the account on %s is paid for at %s", a.server, host)
			return nil, rpcError("accountdb: Nothing found")
		case a != nil:
			w.ahead(a, ctr)
		}
		if a != nil && ctr <= a.counter {
			return nil, rpcError(fmt.Sprintf("ErrReplay: %d", a.counter))
		}
		tb, err := base64.StdEncoding.DecodeString(p.PayToken)
		if err != nil {
			return nil, err
		}
		if err := w.spend(tb, &w.acc.priv, "account", "the account server"); err != nil {
			return nil, err
		}
		if a == nil {
			a = &uAcct{pub: *pk, server: uServers[w.r.Choose(len(uServers))]}
			w.byKey[*pk] = a
			w.accts[string(util.MailboxAddress(pk, a.server))+mixcrypt.MuteSystemDomain] = a
		}
		a.counter = ctr
		now := time.Now().Unix()
		if a.loaded < now {
			a.loaded = now
		}
		if a.paid == 0 && w.r.Bool(1, 4) {
			a.loaded += 90*86400 + int64(w.r.Range(1, 30))*3600
		} else {
			a.loaded += 365 * 86400
		}
		a.paid++
		return map[string]interface{}{"Server": a.server}, nil
	}
	a, err := w.auth(host, at)
	if err != nil {
		return nil, err
	}
	switch q.Method {
	case "AccountServer.AccountStat":
		return map[string]interface{}{"LoadTime": float64(a.loaded)}, nil
	case "AccountServer.DeleteAccount":
		delete(w.byKey, a.pub)
		delete(w.accts, string(util.MailboxAddress(&a.pub, a.server))+mixcrypt.MuteSystemDomain)
		return map[string]interface{}{"Result": true}, nil
	case "AccountServer.ListMessages":
		var l []interface{}
		for i := len(a.msgs) - 1; i >= 0; i-- {
			b := a.msgs[i]
			if b.at.Unix() < p.LastReceiveTime {
				continue
			}
			l = append(l, map[string]interface{}{"MessageID": hex.EncodeToString(b.id), "ReceiveTime": float64(b.at.Unix()),
				"ReceiveTimeNano": float64(b.at.UnixNano()), "ReadTime": float64(b.read), "UserKey": hex.EncodeToString(a.pub[:])})
		}
		if len(w.mix.queue) > 0 && w.faults && w.fetching != nil && w.r.Bool(1, 3) {
			// mails go on arriving
			for i := w.r.Range(1, len(w.mix.queue)); i > 0; i-- {
				w.relay(w.r.Choose(len(w.mix.queue)))
				time.Sleep(time.Duration(w.r.Range(0, 3)) * time.Second)
			}
		}
		if len(l) == 0 {
			return nil, rpcError("accountdb: Nothing found")
		}
		res := map[string]interface{}{"Messages": l}
		if p := simos.Current(); p != nil && w.faults && w.fetching != nil && !w.m.plan.hit && w.r.Fault("account-garbage", 1, 12) {
			w.r.Logf("  garbage in the list of messages")
			w.m.plan.hit, w.m.plan.by = true, p
			res = w.garble(res)
		}
		return res, nil
	}
	return nil, rpcError("unknown method " + q.Method)
}

// box puts a mail into a mailbox.
func (w *uWorld) box(a *uAcct, mail []byte) *uBox {
	id := make([]byte, 32)
	rand.Read(id)
	b := &uBox{id: id, at: time.Now(), mail: mail}
	a.msgs = append(a.msgs, b)
	return b
}

// The mix.

type uSMTP struct {
	w     *uWorld
	p     *simos.Proc
	fault string
	stage string
	rcpt  string
	tls   bool
}

func (w *uWorld) dial(addr string) (smtp.Server, error) {
	p, dead := w.m.gate()
	if dead {
		return nil, http.ErrNet
	}
	s := &uSMTP{w: w, p: p}
	w.r.Logf("  smtp %s", addr)
	if p != nil {
		s.fault = w.m.netFault("smtp")
	}
	switch s.fault {
	case "malformed":
		s.stage = []string{"tls", "mail", "rcpt", "data"}[w.r.Choose(4)] + "-4xx"
	case "server-error":
		s.stage = []string{"tls", "mail", "rcpt", "data"}[w.r.Choose(4)] + "-5xx"
	case "lost":
		s.stage = []string{"dial", "tls", "mail", "rcpt", "data"}[w.r.Choose(5)] + "-reset"
	case "crash":
		w.m.crashed, w.m.power = true, true
		w.m.killAll()
		return nil, http.ErrNet
	case "slow":
		time.Sleep(time.Duration(w.r.Range(1, 600)) * time.Second)
	}
	if strings.HasSuffix(s.stage, "-5xx") {
		// a mix does not refuse a mail which it has accepted before
		for _, o := range w.cur.st.out {
			if m := w.cur.rows[o.msg]; m != nil && m.accepted > 0 {
				s.stage = strings.TrimSuffix(s.stage, "-5xx") + "-4xx"
			}
		}
	}
	if s.stage != "" {
		w.r.CountFault("smtp-" + s.stage)
	}
	return s, s.fail("dial")
}

func (s *uSMTP) fail(stage string) error {
	if s.p != nil && s.p.Dead() {
		return http.ErrNet
	}
	switch s.stage {
	case stage + "-reset":
		return errors.New("sim: connection reset by peer")
	case stage + "-4xx":
		return &textproto.Error{Code: []int{421, 450, 451, 452}[s.w.r.Choose(4)], Msg: "try again later"}
	case stage + "-5xx":
		return &textproto.Error{Code: []int{500, 550, 552, 554}[s.w.r.Choose(4)], Msg: "rejected"}
	}
	return nil
}

func (s *uSMTP) StartTLS(cfg *tls.Config) error {
	if !trusts(cfg, simCA) {
		return errors.New("x509: certificate signed by unknown authority")
	}
	s.tls = true
	return s.fail("tls")
}
func (s *uSMTP) Extension(ext string) (bool, string) { return ext == "STARTTLS", "" }
func (s *uSMTP) Mail(from string) error              { return s.fail("mail") }
func (s *uSMTP) Rcpt(to string) error                { s.rcpt = to; return s.fail("rcpt") }
func (s *uSMTP) Quit() error                         { return nil }
func (s *uSMTP) Data(mail []byte) error {
	w := s.w
	if err := s.fail("data"); err != nil {
		if s.stage == "data-5xx" && w.r.Bool(1, 2) {
			// the mix never accepts it
			w.mix.never[string(mail)] = true
		}
		if s.stage == "data-4xx" && w.r.Bool(1, 2) {
			// the mix defers it, and some others, for long
			w.mix.defers = w.r.Range(1, 4)
			w.deferMail(mail)
		}
		return err
	}
	if w.faults && w.r.Bool(1, 20) {
		w.mix.defers = w.r.Range(1, 4)
	}
	if w.mix.defers > 0 && !w.mix.later[string(mail)] {
		w.deferMail(mail)
	}
	if w.mix.later[string(mail)] {
		w.r.CountFault("smtp-deferred")
		return &textproto.Error{Code: 451, Msg: "try again later"}
	}
	if w.mix.never[string(mail)] {
		return &textproto.Error{Code: 554, Msg: "rejected"}
	}
	mail = append([]byte{}, mail...)
	e := w.mails[string(mail)]
	ml := &uMail{mail: mail, env: e}
	w.mix.queue = append(w.mix.queue, ml)
	if w.r.Check(e != nil && s.tls && s.rcpt == "mix@mix.mute.one", "C19", "foreign-mail", "a mail was sent to %q which is no message of the user", s.rcpt) {
		e.accepted++
		if x := w.encs[e.enc]; x != nil {
			x.accepted++
		}
		if e.msg != nil {
			e.msg.accepted++
			w.r.Logf("  the mix accepts %s", e.msg)
		}
	}
	switch s.fault {
	case "no-reply":
		w.r.CountFault("smtp-reply-lost")
		return errors.New("sim: connection reset by peer")
	case "crash-after":
		w.m.crashed, w.m.power = true, true
		w.m.killAll()
		return http.ErrNet
	}
	return nil
}

// deferMail: the mix does not want the mail now.
func (w *uWorld) deferMail(mail []byte) {
	w.mix.defers--
	w.mix.later[string(mail)] = true
	if e := w.mails[string(mail)]; e != nil && e.msg != nil {
		e.msg.later = true
		w.r.Logf("  the mix defers %s", e.msg)
	}
}

// relay: the mix processes a mail.
func (w *uWorld) relay(i int) {
	r := w.r
	ml := w.mix.queue[i]
	w.mix.queue = append(w.mix.queue[:i:i], w.mix.queue[i+1:]...)
	w.mix.past = append(w.mix.past, ml)
	var rs *mixcrypt.ReceiveStruct
	var out []byte
	var to string
	body, err := mixclient.ReadMail(ml.mail)
	if err == nil {
		rs, err = mixcrypt.ReceiveMessage(w.mix.kl.GetPrivateKey, body)
	}
	if err == nil {
		out, to, err = rs.Send()
	}
	what := "a mail"
	if ml.env != nil && ml.env.msg != nil {
		what = ml.env.msg.String()
	}
	if err != nil {
		r.Logf("mix: %s refused: %v", what, err)
		if !ml.evil && ml.env != nil {
			r.Fail("C18", "mix-refuses", "the mix cannot process %s: %v", what, err)
		}
		return
	}
	for _, u := range rs.UniqueTest {
		if w.mix.unique[string(u.Hash)] && !ml.other {
			r.Logf("mix: %s is a repetition, dropped", what)
			r.Counter["mix-duplicates"]++
			return
		}
	}
	if ml.evil {
		// whatever it is, it is paid for
	} else if err := w.spend(rs.MixHeader.Token, (*[64]byte)(w.mix.priv), "Message", "the mix for "+what); err != nil {
		r.Logf("mix: %s has no valid token: %v", what, err)
		r.Fail("C19", "bad-token", "the mix drops %s: %v", what, err)
		return
	}
	for _, u := range rs.UniqueTest {
		if !ml.other {
			w.mix.unique[string(u.Hash)] = true
		}
	}
	a := w.accts[to]
	if a == nil {
		r.Logf("mix: %s goes to an unknown mailbox", what)
		if !ml.evil && ml.env != nil && ml.env.msg != nil && !ml.env.msg.to.gone {
			r.Fail("C18", "misdirected", "%s goes to an unknown mailbox %s", what, to)
		}
		return
	}
	if ml.copied && ml.env.msg != nil && ml.env.msg.to.acct() != a && ml.env.msg.to.u.owns(a) {
		return
	}
	r.Logf("mix: %s relayed", what)
	b := w.box(a, mixclient.WriteMail("mix@mix.mute.one", to, out))
	if e := ml.env; e != nil && (!ml.evil || ml.copied && e.msg != nil && e.msg.to.acct() == a) {
		b.env = e
		if m := e.msg; m != nil {
			m.boxed++
			if w.fetching != nil {
				w.fetching[m] = true
				r.Counter["arrived-during-fetch"]++
			}
			m.dates = append(m.dates, b.at.Unix())
			r.Check(m.to.acct() == a, "C18", "misdirected", "%s went to the mailbox of another user", m)
		}
	}
}

// tap watches the programs mutecrypt and muteproto at work, to know which
// envelope carries which message.
func (w *uWorld) tap() func() {
	crypt, proto := simexec.Programs["mutecrypt"], simexec.Programs["muteproto"]
	watch := func(prog func([]string) int, args []string, done func(in, out []byte)) int {
		p := simos.Current()
		var in, out bytes.Buffer
		i, o := p.FD[0], p.FD[1]
		p.FD[0] = simos.Reader("stdin", io.TeeReader(i, &in))
		p.FD[1] = simos.Writer("stdout", io.MultiWriter(&out, o))
		defer func() { p.FD[0], p.FD[1] = i, o }()
		code := prog(args)
		if code == 0 {
			done(in.Bytes(), out.Bytes())
		}
		return code
	}
	has := func(args []string, s string) bool {
		for _, a := range args {
			if a == s {
				return true
			}
		}
		return false
	}
	simexec.Programs["mutecrypt"] = func(args []string) int {
		if has(args, "decrypt") {
			p := simos.Current()
			in := &bytes.Buffer{}
			w.decrypting[p] = in
			i := p.FD[0]
			p.FD[0] = simos.Reader("stdin", io.TeeReader(i, in))
			defer func() { p.FD[0] = i }()
			return crypt(args)
		}
		if !has(args, "encrypt") {
			return crypt(args)
		}
		return watch(crypt, args, func(in, out []byte) {
			e := &uEnv{msg: w.byBody[string(in)], enc: string(out)}
			w.encs[string(out)] = e
			w.encsBin[string(unb64(string(out)))] = e
		})
	}
	simexec.Programs["muteproto"] = func(args []string) int {
		if !has(args, "create") {
			return proto(args)
		}
		return watch(proto, args, func(in, out []byte) {
			e := w.encs[string(in)]
			for i, a := range args {
				if a == "--nymaddress" && len(w.addrs) < 20 {
					w.addrs = append(w.addrs, args[i+1])
				}
			}
			if len(w.sentEncs) < 20 {
				w.sentEncs = append(w.sentEncs, string(in))
			}
			if e == nil {
				w.r.Logf("  an envelope for an unknown message")
				e = &uEnv{enc: string(in)}
			}
			mo := mixclient.MessageMarshalled(unb64(string(out))).Unmarshal()
			n := &uEnv{msg: e.msg, enc: e.enc}
			w.mails[string(mo.Message)] = n
		})
	}
	w.m.sqlDone = func(p *simos.Proc, op, q string) {
		if op == "exec" && strings.HasPrefix(q, "DELETE FROM MessageKeys") && w.decrypting[p] != nil {
			if m := w.encMsg(w.decrypting[p].String()); m != nil {
				m.keyGone = true
			}
		}
	}
	return func() { simexec.Programs["mutecrypt"], simexec.Programs["muteproto"] = crypt, proto }
}

// encMsg returns the message which was encrypted to enc.
func (w *uWorld) encMsg(enc string) *uMsg {
	e := w.encs[enc]
	if e == nil {
		e = w.encsBin[string(unb64(enc))]
	}
	if e == nil {
		return nil
	}
	return e.msg
}

func unb64(s string) []byte {
	b, _ := base64.StdEncoding.DecodeString(strings.TrimSpace(s))
	return b
}

// The users.

// uMsg is a message a user wrote.
type uMsg struct {
	n        int
	from, to *uNym
	body     string
	row      int64
	min, max int32
	sign     bool
	accepted int // mails with it the mix accepted
	boxed    int // copies the mix put into the mailbox
	seen     int // times it appeared at the recipient
	dates    []int64
	black    bool // the recipient may have dropped it: the sender was blocked
	dropped  bool
	deleted  bool // by the sender, before it was sent
	keyGone  bool // its key was deleted after it was decrypted
	suspect  bool // the command which decrypted it was interrupted before it was stored
	tokens   int
	later    bool // the mix defers it
}

func (m *uMsg) String() string { return fmt.Sprintf("message %d (%s to %s)", m.n, m.from.id, m.to.id) }

type uEnv struct {
	msg      *uMsg
	enc      string
	accepted int
}

type uNymRow struct {
	id, unmapped, full string
	all, accounts      int64
}

type uContactRow struct {
	nym                int64
	id, unmapped, full string
	list               int64 // 0 white, 1 gray, 2 black
}

type uMsgRow struct {
	self, peer, dir, tosend, sent int64
	from, to                      string
	date                          int64
	subject, body                 string
	sign, min, max, read, star    int64
}

type uOutRow struct {
	self, msg         int64
	text, addr        string
	min, max, env, re int64
}

type uInRow struct {
	idx, nym, contact, date int64
	text                    string
	env                     int64
}

type uAcctRow struct {
	nym, contact             int64
	priv, server, secret     string
	min, max, loaded, lastat int64
}

type uState struct {
	nyms     map[int64]uNymRow
	contacts map[int64]uContactRow
	accounts map[[2]int64]uAcctRow
	msgs     map[int64]uMsgRow
	out      map[int64]uOutRow
	in       []uInRow
	cache    int
	kv       map[string]string
	tokens   map[string]string // usage of the tokens in the wallet
}

func (s *uState) nym(id string) int64 {
	for i, n := range s.nyms {
		if n.id == id {
			return i
		}
	}
	return 0
}

func (s *uState) contact(nym int64, id string) (int64, *uContactRow) {
	for i, c := range s.contacts {
		if c.nym == nym && c.id == id {
			return i, &c
		}
	}
	return 0, nil
}

func (u *uUser) load() (*uState, error) {
	db, err := encdb.Open(filepath.Join(u.dir, "msgs"), []byte(u.pass))
	if err != nil {
		return nil, err
	}
	defer db.Close()
	s := &uState{nyms: map[int64]uNymRow{}, contacts: map[int64]uContactRow{}, accounts: map[[2]int64]uAcctRow{}, msgs: map[int64]uMsgRow{}, out: map[int64]uOutRow{}, kv: map[string]string{}}
	each := func(q string, f func(scan func(...interface{}) error) error) {
		if err != nil {
			return
		}
		rows, e := db.Query(q)
		if e != nil {
			err = e
			return
		}
		defer rows.Close()
		for rows.Next() {
			if e := f(rows.Scan); e != nil {
				err = e
				return
			}
		}
		err = rows.Err()
	}
	each("SELECT UID, MappedID, UnmappedID, FullName, IFNULL(UpkeepAll, 0), IFNULL(UpkeepAccounts, 0) FROM Nyms;", func(scan func(...interface{}) error) error {
		var i int64
		var n uNymRow
		e := scan(&i, &n.id, &n.unmapped, &n.full, &n.all, &n.accounts)
		s.nyms[i] = n
		return e
	})
	each("SELECT UID, MyID, MappedID, UnmappedID, FullName, Blocked FROM Contacts;", func(scan func(...interface{}) error) error {
		var i int64
		var c uContactRow
		e := scan(&i, &c.nym, &c.id, &c.unmapped, &c.full, &c.list)
		s.contacts[i] = c
		return e
	})
	each("SELECT MyID, ContactID, PrivKey, Server, Secret, MinDelay, MaxDelay, LoadTime, LastMsgTime FROM Accounts;", func(scan func(...interface{}) error) error {
		var a uAcctRow
		e := scan(&a.nym, &a.contact, &a.priv, &a.server, &a.secret, &a.min, &a.max, &a.loaded, &a.lastat)
		s.accounts[[2]int64{a.nym, a.contact}] = a
		return e
	})
	each(`SELECT MsgID, Self, Peer, Direction, ToSend, Sent, "From", "To", Date, Subject, Message, Sign, MinDelay, MaxDelay, Read, Star FROM Messages;`, func(scan func(...interface{}) error) error {
		var i int64
		var m uMsgRow
		e := scan(&i, &m.self, &m.peer, &m.dir, &m.tosend, &m.sent, &m.from, &m.to, &m.date, &m.subject, &m.body, &m.sign, &m.min, &m.max, &m.read, &m.star)
		s.msgs[i] = m
		return e
	})
	each("SELECT OQIdx, Self, MsgID, Msg, NymAddress, MinDelay, MaxDelay, Envelope, Resend FROM OutQueue;", func(scan func(...interface{}) error) error {
		var i int64
		var o uOutRow
		e := scan(&i, &o.self, &o.msg, &o.text, &o.addr, &o.min, &o.max, &o.env, &o.re)
		s.out[i] = o
		return e
	})
	each("SELECT IQIdx, MyID, ContactID, Date, Msg, Envelope FROM InQueue ORDER BY IQIdx;", func(scan func(...interface{}) error) error {
		var o uInRow
		e := scan(&o.idx, &o.nym, &o.contact, &o.date, &o.text, &o.env)
		s.in = append(s.in, o)
		return e
	})
	each("SELECT COUNT(*) FROM MessageIDCache;", func(scan func(...interface{}) error) error { return scan(&s.cache) })
	each("SELECT KeyEntry, ValueEntry FROM KeyValueStore;", func(scan func(...interface{}) error) error {
		var k, v string
		e := scan(&k, &v)
		s.kv[k] = v
		return e
	})
	s.tokens = map[string]string{}
	wallet := false
	each("SELECT COUNT(*) FROM sqlite_master WHERE name='walletTokens';", func(scan func(...interface{}) error) error {
		var n int
		e := scan(&n)
		wallet = n > 0
		return e
	})
	if wallet {
		each("SELECT Hash, UsageStr FROM walletTokens;", func(scan func(...interface{}) error) error {
			var h, u string
			e := scan(&h, &u)
			s.tokens[h] = u
			return e
		})
	}
	return s, err
}

// ctl runs mutectrl.
func (w *uWorld) ctl(u *uUser, stdin string, args ...string) vResult {
	w.cur = u
	a := []string{"--homedir", u.dir, "--logdir", filepath.Join(u.dir, "log")}
	if w.isOffline {
		a = append(a, "--offline")
	}
	a = append(a, args...)
	w.r.Logf("%s: mutectrl %s", u.name, strings.Join(args, " "))
	pass := []string{u.pass}
	if args[0] == "db" && args[1] == "create" {
		pass = append(pass, u.pass)
	}
	if w.passes != nil {
		pass = w.passes
	}
	if uint64(time.Now().Unix()) > w.cfgDate+3600 {
		w.publish()
	}
	w.cmdStart = time.Now().Unix()
	res := w.m.run(vCmd{prog: "mutectrl", args: a, stdin: []byte(stdin), pass: pass})
	w.r.Logf("  -> code %d%s %s", res.code, map[bool]string{true: " interrupted"}[res.crashed], vClip(res.errs))
	prop := w.prop(args)
	// a process which cannot read its database may give up like that
	failStop := res.faulted && (strings.Contains(w.m.panics, simsql.ErrDisk.Error()) || strings.Contains(w.m.panics, simsql.ErrDead.Error()))
	if w.m.panics != "" && !failStop {
		w.r.Fail(prop, "panic", "mutectrl %s panics: %s", strings.Join(args, " "), w.m.panics)
	}
	if w.m.hung {
		w.r.Fail(prop, "hang", "mutectrl %s does not end", strings.Join(args, " "))
	}
	return res
}

func (w *uWorld) prop(args []string) string {
	switch args[0] {
	case "contact":
		return "C20"
	case "uid", "db":
		return "C22"
	case "upkeep":
		return "C27"
	}
	switch args[1] {
	case "send":
		return "C19"
	case "fetch":
		return "C21"
	}
	return "C18"
}

func (u *uUser) owns(a *uAcct) bool {
	for _, n := range u.nyms {
		if n.ac == a {
			return true
		}
	}
	return false
}
