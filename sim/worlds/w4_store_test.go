//go:build go1.25

package worlds

import (
	"bytes"
	"crypto/ed25519"
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/mutecomm/mute/msgdb"
	"github.com/mutecomm/mute/uid/identity"
	"github.com/mutecomm/mute/zzverif/sim"
)

// ---------------------------------------------------------------------------
// reference model of the message database

type mContact struct {
	unmapped, full string
	ct             msgdb.ContactType
}

type mAccount struct {
	contact, server, key, secret string
	min, max                     int32
	load, last                   int64
}

type mMsg struct {
	peer     string
	out      bool // sent by us
	toSend   bool
	sent     bool
	date     int64
	body     string
	sign     bool
	min, max int32
	read     bool
}

type mOut struct {
	body     string // of the message
	msg      string
	addr     string
	min, max int32
	env      bool
	resend   bool
}

type mIn struct {
	nym, contact string
	date         int64
	msg          string
	env          bool
}

type mNym struct {
	unmapped, full string
	upAll, upAcc   int64
	contacts       map[string]mContact
	accounts       []mAccount
	msgs           []mMsg
	out            []mOut
	cache          map[string][]string
}

type mModel struct {
	nyms map[string]*mNym
	in   []mIn
	kv   map[string]string
	pass string
}

func (m *mModel) clone() *mModel {
	c := &mModel{nyms: map[string]*mNym{}, kv: map[string]string{}, in: append([]mIn{}, m.in...), pass: m.pass}
	for k, v := range m.kv {
		c.kv[k] = v
	}
	for k, n := range m.nyms {
		d := *n
		d.contacts, d.cache = map[string]mContact{}, map[string][]string{}
		for a, b := range n.contacts {
			d.contacts[a] = b
		}
		for a, b := range n.cache {
			d.cache[a] = append([]string{}, b...)
		}
		d.accounts = append([]mAccount{}, n.accounts...)
		d.msgs = append([]mMsg{}, n.msgs...)
		d.out = append([]mOut{}, n.out...)
		c.nyms[k] = &d
	}
	return c
}

func (m *mModel) getPass() string  { return m.pass }
func (m *mModel) setPass(p string) { m.pass = p }

func display(full, unmapped string) string {
	if full == "" {
		return unmapped
	}
	return full + " <" + unmapped + ">"
}

func (n *mNym) account(contact string) *mAccount {
	for i := range n.accounts {
		if n.accounts[i].contact == contact {
			return &n.accounts[i]
		}
	}
	return nil
}

func (n *mNym) msg(body string) *mMsg {
	for i := range n.msgs {
		if n.msgs[i].body == body {
			return &n.msgs[i]
		}
	}
	return nil
}

// storeWorld drives one message database.
type storeWorld struct {
	candStore[*mModel]
	db     *msgdb.MsgDB
	focus  int
	nyms   []string         // unmapped
	conts  []string         // unmapped
	nums   map[string]int64 // message body -> number
	clock  int64
	secret []string
}

func mapID(u string) string {
	m, err := identity.Map(u)
	if err != nil {
		panic(err)
	}
	return m
}

// dump renders the database as seen through its interface.
func (w *storeWorld) dump() []string {
	db := w.db
	var out []string
	add := func(f string, a ...interface{}) { out = append(out, fmt.Sprintf(f, a...)) }
	nums := map[string]int64{}
	sub := map[string]int64{}
	for _, u := range w.nyms {
		n := mapID(u)
		un, full, err := db.GetNym(n)
		if err != nil {
			add("nym %s error %v", n, err)
			continue
		}
		if un == "" {
			add("nym %s none", n)
			if _, err := db.GetMsgIDs(n); err == nil {
				add("nym %s unknown but has a message list", n)
			}
			continue
		}
		ua, err1 := db.GetUpkeepAll(n)
		uc, err2 := db.GetUpkeepAccounts(n)
		add("nym %s %s %q upkeep %d %d %v %v", n, un, full, ua, uc, err1, err2)
		for _, blocked := range []bool{false, true} {
			l, err := db.GetContacts(n, blocked)
			sort.Strings(l)
			add("contacts %s %v %q %v", n, blocked, l, err)
		}
		exists := []string{""}
		for _, cu := range w.conts {
			c := mapID(cu)
			un, full, ct, err := db.GetContact(n, c)
			add("contact %s %s %s %q %d %v", n, c, un, full, ct, err)
			if un != "" {
				exists = append(exists, c)
			}
		}
		acc, err := db.GetAccounts(n)
		sort.Strings(acc)
		add("accounts %s %q %v", n, acc, err)
		for _, c := range acc {
			k, srv, sec, min, max, last, err := db.GetAccount(n, c)
			load, err2 := db.GetAccountTime(n, c)
			if err == nil {
				add("account %s %s %x %s %x %d %d %d %d %v", n, c, k[:4], srv, sec[:4], min, max, last, load, err2)
			} else {
				add("account %s %s %v", n, c, err)
			}
		}
		for _, c := range exists {
			cache, err := db.GetMessageIDCache(n, c)
			var l []string
			for k := range cache {
				l = append(l, k)
			}
			sort.Strings(l)
			add("cache %s %s %q %v", n, c, l, err)
		}
		ids, err := db.GetMsgIDs(n)
		if err != nil {
			add("msgs %s %v", n, err)
		}
		var ml []string
		for _, id := range ids {
			from, to, body, date, err := db.GetMessage(n, id.MsgID)
			if _, dup := nums[body]; dup {
				ml = append(ml, fmt.Sprintf("duplicate of message %q", body))
			}
			nums[body] = id.MsgID
			ml = append(ml, fmt.Sprintf("msg %s %q %q incoming %v sent %v read %v date %d %d subject %q from %s to %s (%s, %s) %v", n, body,
				id.Subject, id.Incoming, id.Sent, id.Read, id.Date, date, strings.SplitN(body, "\n", 2)[0], from, to, id.From, id.To, err))
			sub[id.Subject]++
		}
		sort.Strings(ml)
		out = append(out, ml...)
		num, peer, body, sign, min, max, err := db.GetUndeliveredMessage(n)
		if peer != "" && nums[string(body)] != num {
			add("undelivered message has number %d, not %d", num, nums[string(body)])
		}
		add("undelivered %s %s %q %v %d %d %v", n, peer, body, sign, min, max, err)
		_, msg, addr, min, max, env, err := db.GetOutQueue(n)
		add("outqueue %s %q %q %d %d %v %v", n, msg, addr, min, max, env, err)
	}
	for _, mapped := range []bool{false, true} {
		l, err := db.GetNyms(mapped)
		sort.Strings(l)
		add("nyms %q %v", l, err)
	}
	_, my, c, msg, env, err := db.GetInQueue()
	add("inqueue %s %s %q %v %v", my, c, msg, env, err)
	for _, k := range []string{"k1", "k2", msgdb.ActiveUID} {
		v, err := db.GetValue(k)
		add("value %s %q %v", k, v, err)
	}
	v, err := db.Version()
	add("version %s %v", v, err)
	w.nums = nums
	return out
}

func (w *storeWorld) modelDump(m *mModel) []string {
	var out []string
	add := func(f string, a ...interface{}) { out = append(out, fmt.Sprintf(f, a...)) }
	for _, u := range w.nyms {
		id := mapID(u)
		n := m.nyms[id]
		if n == nil {
			add("nym %s none", id)
			continue
		}
		add("nym %s %s %q upkeep %d %d %v %v", id, n.unmapped, n.full, n.upAll, n.upAcc, error(nil), error(nil))
		for _, blocked := range []bool{false, true} {
			var l []string
			for _, c := range n.contacts {
				if (blocked && c.ct == msgdb.BlackList) || (!blocked && c.ct == msgdb.WhiteList) {
					l = append(l, display(c.full, c.unmapped))
				}
			}
			sort.Strings(l)
			add("contacts %s %v %q %v", id, blocked, l, error(nil))
		}
		exists := []string{""}
		for _, cu := range w.conts {
			c := mapID(cu)
			x := n.contacts[c]
			add("contact %s %s %s %q %d %v", id, c, x.unmapped, x.full, x.ct, error(nil))
			if x.unmapped != "" {
				exists = append(exists, c)
			}
		}
		var acc []string
		for _, a := range n.accounts {
			acc = append(acc, a.contact)
		}
		sort.Strings(acc)
		add("accounts %s %q %v", id, acc, error(nil))
		for _, c := range acc {
			a := n.account(c)
			add("account %s %s %x %s %x %d %d %d %d %v", id, c, a.key[:4], a.server, a.secret[:4], a.min, a.max, a.last, a.load, error(nil))
		}
		for _, c := range exists {
			l := append([]string(nil), n.cache[c]...)
			sort.Strings(l)
			add("cache %s %s %q %v", id, c, l, error(nil))
		}
		var ml []string
		for _, x := range n.msgs {
			peer := n.contacts[x.peer]
			from, to := display(peer.full, peer.unmapped), display(n.full, n.unmapped)
			fm, tm := x.peer, id
			if x.out {
				from, to = to, from
				fm, tm = tm, fm
			}
			subj := strings.SplitN(x.body, "\n", 2)[0]
			ml = append(ml, fmt.Sprintf("msg %s %q %q incoming %v sent %v read %v date %d %d subject %q from %s to %s (%s, %s) %v", id, x.body,
				subj, !x.out, x.sent, x.read, x.date, x.date, subj, from, to, fm, tm, error(nil)))
		}
		sort.Strings(ml)
		out = append(out, ml...)
		und := mMsg{}
		for _, x := range n.msgs {
			if x.toSend {
				und = x
				break
			}
		}
		add("undelivered %s %s %q %v %d %d %v", id, und.peer, und.body, und.sign, und.min, und.max, error(nil))
		var o mOut
		if i := n.head(); i >= 0 {
			o = n.out[i]
		}
		add("outqueue %s %q %q %d %d %v %v", id, o.msg, o.addr, o.min, o.max, o.env, error(nil))
	}
	var un, mp []string
	for id, n := range m.nyms {
		un, mp = append(un, display(n.full, n.unmapped)), append(mp, id)
	}
	sort.Strings(un)
	sort.Strings(mp)
	add("nyms %q %v", un, error(nil))
	add("nyms %q %v", mp, error(nil))
	var in mIn
	if len(m.in) > 0 {
		in = m.in[0]
	}
	add("inqueue %s %s %q %v %v", in.nym, in.contact, in.msg, in.env, error(nil))
	for _, k := range []string{"k1", "k2", msgdb.ActiveUID} {
		add("value %s %q %v", k, m.kv[k], error(nil))
	}
	add("version %s %v", "1", error(nil))
	return out
}

func (n *mNym) head() int {
	for i := range n.out {
		if !n.out[i].resend {
			return i
		}
	}
	return -1
}

func (w *storeWorld) nym() string     { return mapID(w.nyms[w.r.Choose(len(w.nyms))]) }
func (w *storeWorld) contact() string { return mapID(w.conts[w.r.Choose(len(w.conts))]) }

func (w *storeWorld) text(kind string) string {
	w.seq++
	s := fmt.Sprintf("%s-%d-%x", kind, w.seq, w.r.Bytes(4))
	switch w.r.Choose(4) {
	case 1:
		s += "\nbody with 'quotes', \x00 and \u2603 for " + s
	case 2:
		s += "\n" + strings.Repeat("long ", w.r.Choose(2000))
	}
	if len(w.secret) < 40 {
		w.secret = append(w.secret, strings.SplitN(s, "\n", 2)[0])
	}
	return s
}

// someMsg picks a known message of any nym.
func (w *storeWorld) someMsg() (body string, num int64) {
	if w.r.Bool(1, 8) {
		return "", 1000000 + int64(w.r.Choose(3))
	}
	w.compare()
	var l []string
	for b := range w.nums {
		l = append(l, b)
	}
	if len(l) == 0 {
		return "", 1000000
	}
	sort.Strings(l)
	b := l[w.r.Choose(len(l))]
	return b, w.nums[b]
}

func (w *storeWorld) anyNum() int64 {
	var n int64
	for _, x := range w.nums {
		if x > n {
			n = x
		}
	}
	return n
}

func (w *storeWorld) addNym(u, full string) {
	id := mapID(u)
	w.do("AddNym "+u, func() error { return w.db.AddNym(id, u, full) }, func(m *mModel) bool {
		if n := m.nyms[id]; n != nil {
			n.unmapped, n.full = u, full
		} else {
			m.nyms[id] = &mNym{unmapped: u, full: full, contacts: map[string]mContact{}, cache: map[string][]string{}}
		}
		return true
	})
}

func (w *storeWorld) addContact(n, cu, full string, ct msgdb.ContactType) {
	w.do(fmt.Sprintf("AddContact %s %s %d", n, cu, ct), func() error { return w.db.AddContact(n, mapID(cu), cu, full, ct) }, func(m *mModel) bool {
		x := m.nyms[n]
		if x == nil {
			return false
		}
		x.contacts[mapID(cu)] = mContact{cu, full, ct}
		return true
	})
}

func (w *storeWorld) step() {
	r := w.r
	w.clock++
	t := 1000 + w.clock
	wt := []int{3, 4, 2, 1, 2, 2, 8, 2, 2, 8, 10, 4, 8, 3, 2, 6, 4, 6, 1, 2, 2, 3, 12}
	for _, g := range [][]int{nil, {6, 9, 10, 10, 11}, {12, 13, 14, 15}, {2, 4, 5}, {16, 16}, {6, 7, 8}, {0, 1, 2, 3}, {20, 21}}[w.focus] {
		wt[g] *= 4
	}
	switch r.Weighted(wt...) {
	case 0: // nym
		u := w.nyms[r.Choose(len(w.nyms))]
		full := []string{"", "Full Name", "Other O'Name"}[r.Choose(3)]
		r.Op("addnym")
		if r.Bool(1, 12) { // does not fit
			w.do("AddNym mismatch", func() error { return w.db.AddNym(mapID(w.conts[0]), u, full) }, func(m *mModel) bool { return false })
			return
		}
		w.addNym(u, full)
	case 1: // contact
		n, cu := w.nym(), w.conts[r.Choose(len(w.conts))]
		ct := msgdb.ContactType(r.Choose(3))
		full := []string{"", "Contact Name"}[r.Choose(2)]
		r.Op("addcontact")
		w.addContact(n, cu, full, ct)
	case 2:
		n, c := w.nym(), w.contact()
		r.Op("delcontact")
		w.do(fmt.Sprintf("RemoveContact %s %s", n, c), func() error { return w.db.RemoveContact(n, c) }, func(m *mModel) bool {
			x := m.nyms[n]
			if x == nil {
				return false
			}
			if y, ok := x.contacts[c]; ok {
				y.ct = msgdb.GrayList
				x.contacts[c] = y
			}
			return true
		})
	case 3:
		n := w.nym()
		r.Op("delnym")
		w.do("DelNym "+n, func() error { return w.db.DelNym(n) }, func(m *mModel) bool {
			if m.nyms[n] == nil {
				return false
			}
			delete(m.nyms, n)
			var in []mIn
			for _, e := range m.in {
				if e.nym != n {
					in = append(in, e)
				}
			}
			m.in = in
			return true
		})
	case 4:
		n, c := w.nym(), w.contact()
		if r.Bool(1, 2) {
			c = ""
		}
		var key [ed25519.PrivateKeySize]byte
		var sec [64]byte
		copy(key[:], r.Bytes(64))
		copy(sec[:], r.Bytes(64))
		min, max := int32(r.Choose(100)), int32(r.Choose(1000))
		r.Op("addaccount")
		w.do(fmt.Sprintf("AddAccount %s %q", n, c), func() error { return w.db.AddAccount(n, c, &key, "accounts.example", &sec, min, max) }, func(m *mModel) bool {
			x := m.nyms[n]
			if x == nil || x.account(c) != nil {
				return false
			}
			if _, ok := x.contacts[c]; c != "" && !ok {
				return false
			}
			x.accounts = append(x.accounts, mAccount{c, "accounts.example", string(key[:]), string(sec[:]), min, max, 0, 0})
			return true
		})
	case 5:
		n, c := w.nym(), w.contact()
		if r.Bool(1, 2) {
			c = ""
		}
		last := r.Bool(1, 2)
		r.Op("accounttime")
		w.do(fmt.Sprintf("SetAccountTime %s %q %v", n, c, last), func() error {
			if last {
				return w.db.SetAccountLastMsg(n, c, t)
			}
			return w.db.SetAccountTime(n, c, t)
		}, func(m *mModel) bool {
			x := m.nyms[n]
			if x == nil {
				return false
			}
			if _, ok := x.contacts[c]; c != "" && !ok {
				return false
			}
			if a := x.account(c); a != nil {
				if last {
					a.last = t
				} else {
					a.load = t
				}
			}
			return true
		})
	case 6:
		n, c := w.nym(), w.contact()
		sent := r.Bool(2, 3)
		sign := r.Bool(1, 4)
		body := w.text("message")
		min, max := int32(r.Choose(100)), int32(r.Choose(1000))
		r.Op("addmsg")
		w.do(fmt.Sprintf("AddMessage %s %s %v %.20q", n, c, sent, body), func() error {
			return w.db.AddMessage(n, c, t, sent, body, sign, min, max)
		}, func(m *mModel) bool {
			x := m.nyms[n]
			if x == nil {
				return false
			}
			if _, ok := x.contacts[c]; !ok {
				return false
			}
			x.msgs = append(x.msgs, mMsg{peer: c, out: sent, toSend: sent, date: t, body: body, sign: sign, min: min, max: max})
			return true
		})
	case 7:
		body, num := w.someMsg()
		r.Op("read")
		w.do(fmt.Sprintf("ReadMessage %.20q", body), func() error { return w.db.ReadMessage(num) }, func(m *mModel) bool {
			for _, x := range m.nyms {
				if y := x.msg(body); y != nil && body != "" {
					y.read = true
				}
			}
			return true
		})
	case 8:
		n := w.nym()
		body, num := w.someMsg()
		r.Op("delmsg")
		w.do(fmt.Sprintf("DelMessage %s %.20q", n, body), func() error { return w.db.DelMessage(n, num) }, func(m *mModel) bool {
			x := m.nyms[n]
			if x == nil || body == "" || x.msg(body) == nil {
				return false
			}
			for i := range x.msgs {
				if x.msgs[i].body == body {
					x.msgs = append(x.msgs[:i:i], x.msgs[i+1:]...)
					break
				}
			}
			for i := range x.out {
				if x.out[i].body == body {
					x.out = append(x.out[:i:i], x.out[i+1:]...)
					break
				}
			}
			return true
		})
	case 9: // as msgSend: oldest undelivered message -> out queue
		n := w.nym()
		r.Op("addout")
		num, peer, b, _, min, max, err := w.db.GetUndeliveredMessage(n)
		if err != nil || peer == "" {
			return
		}
		body := string(b)
		enc, addr := w.text("encrypted"), w.text("address")
		w.do(fmt.Sprintf("AddOutQueue %s %.20q", n, body), func() error { return w.db.AddOutQueue(n, num, enc, addr, min, max) }, func(m *mModel) bool {
			x := m.nyms[n]
			if x == nil || x.msg(body) == nil {
				return false
			}
			x.msg(body).toSend = false
			x.out = append(x.out, mOut{body: body, msg: enc, addr: addr, min: min, max: max})
			return true
		})
	case 10: // work on the head of an out queue
		n := w.nym()
		r.Op("outqueue")
		idx, _, _, _, _, _, err := w.db.GetOutQueue(n)
		if err != nil || idx == 0 {
			return
		}
		kind := r.Weighted(4, 6, 2, 2)
		env := ""
		if kind == 0 {
			env = w.text("envelope")
		}
		w.do(fmt.Sprintf("%s %s", []string{"SetOutQueue", "RemoveOutQueue", "RetractOutQueue", "SetResendOutQueue"}[kind], n), func() error {
			switch kind {
			case 0:
				return w.db.SetOutQueue(idx, env)
			case 1:
				return w.db.RemoveOutQueue(idx, t)
			case 2:
				return w.db.RetractOutQueue(idx)
			}
			return w.db.SetResendOutQueue(idx)
		}, func(m *mModel) bool {
			x := m.nyms[n]
			if x == nil || x.head() < 0 {
				return false
			}
			i := x.head()
			switch kind {
			case 0:
				x.out[i].msg, x.out[i].env = env, true
			case 1:
				y := x.msg(x.out[i].body)
				y.date, y.sent = t, true
				x.out = append(x.out[:i:i], x.out[i+1:]...)
			case 2:
				x.msg(x.out[i].body).toSend = true
				x.out = append(x.out[:i:i], x.out[i+1:]...)
			case 3:
				x.out[i].resend = true
			}
			return true
		})
	case 11:
		n := w.nym()
		r.Op("clearresend")
		w.do("ClearResendOutQueue "+n, func() error { return w.db.ClearResendOutQueue(n) }, func(m *mModel) bool {
			x := m.nyms[n]
			if x == nil {
				return false
			}
			for i := range x.out {
				x.out[i].resend = false
			}
			return true
		})
	case 12: // in queue
		n, c := w.nym(), w.contact()
		if r.Bool(2, 3) {
			c = ""
		}
		msg := w.text("incoming")
		r.Op("addin")
		w.do(fmt.Sprintf("AddInQueue %s %q", n, c), func() error { return w.db.AddInQueue(n, c, t, msg) }, func(m *mModel) bool {
			x := m.nyms[n]
			if x == nil {
				return false
			}
			if _, ok := x.contacts[c]; c != "" && !ok {
				return false
			}
			m.in = append(m.in, mIn{n, c, t, msg, true})
			return true
		})
	case 13:
		r.Op("setin")
		idx, _, _, _, _, err := w.db.GetInQueue()
		if err != nil || idx == 0 {
			return
		}
		msg := w.text("opened")
		w.do("SetInQueue", func() error { return w.db.SetInQueue(idx, msg) }, func(m *mModel) bool {
			if len(m.in) == 0 {
				return false
			}
			m.in[0].msg, m.in[0].env = msg, false
			return true
		})
	case 14:
		r.Op("delin")
		idx, _, _, _, _, err := w.db.GetInQueue()
		if err != nil || idx == 0 {
			return
		}
		w.do("DelInQueue", func() error { return w.db.DelInQueue(idx) }, func(m *mModel) bool {
			if len(m.in) == 0 {
				return false
			}
			m.in = m.in[1:]
			return true
		})
	case 15:
		r.Op("removein")
		idx, my, _, _, _, err := w.db.GetInQueue()
		if err != nil || idx == 0 {
			return
		}
		from := w.contact()
		drop := r.Bool(1, 5)
		body := w.text("received")
		w.do(fmt.Sprintf("RemoveInQueue %s from %s drop %v", my, from, drop), func() error { return w.db.RemoveInQueue(idx, body, from, drop) }, func(m *mModel) bool {
			if len(m.in) == 0 {
				return false
			}
			x := m.nyms[m.in[0].nym]
			if x == nil {
				return false
			}
			if _, ok := x.contacts[from]; !ok {
				return false
			}
			if !drop {
				x.msgs = append(x.msgs, mMsg{peer: from, date: m.in[0].date, body: body})
			}
			m.in = m.in[1:]
			return true
		})
	case 16: // message ID cache
		n, c := w.nym(), w.contact()
		if r.Bool(1, 2) {
			c = ""
		}
		r.Op("cache")
		if r.Bool(2, 3) {
			w.seq++
			id := fmt.Sprintf("mid%d", w.seq)
			w.do(fmt.Sprintf("AddMessageIDCache %s %q", n, c), func() error { return w.db.AddMessageIDCache(n, c, id) }, func(m *mModel) bool {
				x := m.nyms[n]
				if x == nil {
					return false
				}
				if _, ok := x.contacts[c]; c != "" && !ok {
					return false
				}
				x.cache[c] = append(x.cache[c], id)
				return true
			})
			return
		}
		var ids []string
		if x := w.cands[0].nyms[n]; x != nil {
			ids = x.cache[c]
		}
		id := "midX"
		if len(ids) > 0 {
			id = ids[r.Choose(len(ids))]
		}
		w.do(fmt.Sprintf("RemoveMessageIDCache %s %q %s", n, c, id), func() error { return w.db.RemoveMessageIDCache(n, c, id) }, func(m *mModel) bool {
			x := m.nyms[n]
			if x == nil {
				return false
			}
			for i, y := range x.cache[c] {
				if y == id {
					x.cache[c] = append([]string{}, x.cache[c][i:]...)
					return true
				}
			}
			return false
		})
	case 17:
		k := []string{"k1", "k2", msgdb.ActiveUID}[r.Choose(3)]
		v := w.text("value")
		r.Op("value")
		w.do("AddValue "+k, func() error { return w.db.AddValue(k, v) }, func(m *mModel) bool { m.kv[k] = v; return true })
	case 18:
		mode := []string{"", "NONE", "FULL", "INCREMENTAL"}[r.Choose(4)]
		r.Op("vacuum")
		w.do("Vacuum "+mode, func() error { return w.db.Vacuum(mode) }, func(m *mModel) bool { return true })
	case 19:
		n := w.nym()
		all := r.Bool(1, 2)
		r.Op("upkeep")
		w.do(fmt.Sprintf("SetUpkeep %s %v", n, all), func() error {
			if all {
				return w.db.SetUpkeepAll(n, t)
			}
			return w.db.SetUpkeepAccounts(n, t)
		}, func(m *mModel) bool {
			if x := m.nyms[n]; x != nil {
				if all {
					x.upAll = t
				} else {
					x.upAcc = t
				}
			}
			return true
		})
	case 20:
		w.rekey()
	case 22:
		n, c := w.nym(), w.contact()
		k := r.Choose(15)
		w.read(fmt.Sprintf("kind %d %s %s", k, n, c), func() string {
			switch k {
			case 0:
				a, b, err := w.db.GetNym(n)
				return outcome(err, a, b)
			case 1:
				a, err := w.db.GetNyms(c == "")
				sort.Strings(a)
				return outcome(err, a)
			case 2:
				a, b, ct, err := w.db.GetContact(n, c)
				return outcome(err, a, b, ct)
			case 3:
				a, err := w.db.GetContacts(n, false)
				sort.Strings(a)
				return outcome(err, a)
			case 4:
				a, err := w.db.GetAccounts(n)
				sort.Strings(a)
				return outcome(err, a)
			case 5:
				a, b, s, x, y, l, err := w.db.GetAccount(n, c)
				return outcome(err, a, b, s, x, y, l)
			case 6:
				a, err := w.db.GetAccountTime(n, c)
				return outcome(err, a)
			case 7:
				a, err := w.db.GetMessageIDCache(n, c)
				return outcome(err, fmt.Sprint(a))
			case 8:
				a, err := w.db.GetMsgIDs(n)
				s := ""
				for _, m := range a {
					s += fmt.Sprintf("%+v;", *m)
				}
				return outcome(err, s)
			case 9:
				a, b, m, s, x, y, err := w.db.GetUndeliveredMessage(n)
				return outcome(err, a, b, m, s, x, y)
			case 10:
				a, b, m, s, x, y, err := w.db.GetOutQueue(n)
				return outcome(err, a, b, m, s, x, y)
			case 11:
				a, b, m, s, x, err := w.db.GetInQueue()
				return outcome(err, a, b, m, s, x)
			case 12:
				a, err := w.db.GetValue("k1")
				return outcome(err, a)
			case 13:
				a, err := w.db.GetUpkeepAll(n)
				b, err2 := w.db.GetUpkeepAccounts(n)
				if err == nil {
					err = err2
				}
				return outcome(err, a, b)
			}
			f, t, m, d, err := w.db.GetMessage(n, w.anyNum())
			return outcome(err, f, t, m, d)
		})
	case 21: // regular restart
		r.Op("restart")
		w.closed = true
		defer func() { w.closed = false }()
		w.do("Close", func() error { return w.db.Close() }, func(m *mModel) bool { return true })
		if !w.f.faulted {
			if r.Bool(1, 2) {
				w.f.crash() // power loss after the program ended
			}
			w.reopen()
			w.closed = false
			w.compare()
		} else {
			w.reopen()
		}
	}
}

// drain empties all queues and compares their order and content.
func (w *storeWorld) drain() {
	r := w.r
	for i := 0; i < 300; i++ {
		idx, my, _, _, _, err := w.db.GetInQueue()
		if err != nil || idx == 0 {
			break
		}
		w.do("DelInQueue "+my, func() error { return w.db.DelInQueue(idx) }, func(m *mModel) bool {
			if len(m.in) == 0 {
				return false
			}
			m.in = m.in[1:]
			return true
		})
		w.compare()
	}
	for _, u := range w.nyms {
		n := mapID(u)
		if w.cands[0].nyms[n] == nil {
			continue
		}
		w.do("ClearResendOutQueue "+n, func() error { return w.db.ClearResendOutQueue(n) }, func(m *mModel) bool {
			for i := range m.nyms[n].out {
				m.nyms[n].out[i].resend = false
			}
			return true
		})
		for i := 0; i < 300; i++ {
			idx, _, _, _, _, _, err := w.db.GetOutQueue(n)
			if err != nil || idx == 0 {
				break
			}
			w.do("RemoveOutQueue "+n, func() error { return w.db.RemoveOutQueue(idx, 77) }, func(m *mModel) bool {
				x := m.nyms[n]
				if len(x.out) == 0 {
					return false
				}
				y := x.msg(x.out[0].body)
				y.date, y.sent = 77, true
				x.out = x.out[1:]
				return true
			})
			w.compare()
		}
	}
	r.Counter["drained"]++
}

// encrypted checks that no stored text appears in a file.
func encrypted(r *sim.Run, dir string, secrets []string) {
	files, _ := ioutil.ReadDir(dir)
	for _, fi := range files {
		b, err := os.ReadFile(filepath.Join(dir, fi.Name()))
		if err != nil {
			continue
		}
		r.Eval("C24")
		if bytes.HasPrefix(b, []byte("SQLite format 3")) {
			r.Fail("C24", "plaintext", "file %s is not encrypted", fi.Name())
		}
		for _, s := range secrets {
			if len(s) > 6 && bytes.Contains(b, []byte(s)) {
				r.Fail("C24", "plaintext", "file %s contains stored text %q", fi.Name(), s)
			}
		}
	}
}

func storeBody(r *sim.Run) {
	w := &storeWorld{nums: map[string]int64{}}
	w.candStore = candStore[*mModel]{r: r, f: &storeFaults{r: r}, name: scratchFile(r, "msgs"), pass: "passphrase 0", contents: "C25",
		openDB:   func(pass string) (err error) { w.db, err = msgdb.Open(w.name, []byte(pass)); return },
		createDB: func(pass string, iter int) error { return msgdb.Create(w.name, []byte(pass), iter) },
		rekeyDB:  func(o, n string, iter int) error { return msgdb.Rekey(w.name, []byte(o), []byte(n), iter) },
		probe:    func() error { return w.db.AddNym(mapID(w.nyms[0]), w.nyms[0], "") },
		dump:     w.dump, modelDump: w.modelDump}
	w.f.install()
	defer w.f.uninstall()
	w.nyms = []string{"Alice@mute.one", "bob@mute.two", "carol@mute.one"}[:1+r.Choose(3)]
	w.conts = []string{"dave@mute.one", "Erin@mute.three", "bob@mute.two"}[:1+r.Choose(3)]
	if !r.NoFault {
		w.f.errP = []int{0, 10, 40}[r.Choose(3)]
		w.f.crashP = []int{5, 0, 30}[r.Choose(3)]
	}
	w.cands = []*mModel{{nyms: map[string]*mNym{}, kv: map[string]string{}, pass: w.pass}}
	if !w.create() {
		return
	}
	w.focus = r.Choose(8)
	if r.Bool(3, 4) { // start with all nyms and contacts
		w.f.errP, w.f.crashP = -w.f.errP, -w.f.crashP
		for _, u := range w.nyms {
			w.addNym(u, "")
			for _, c := range w.conts {
				w.addContact(mapID(u), c, "", msgdb.WhiteList)
			}
		}
		w.f.errP, w.f.crashP = -w.f.errP, -w.f.crashP
	}
	n := 40
	if r.Tier == "thorough" {
		n = 40 + r.Choose(160)
	}
	for i := 0; i < n; i++ {
		w.step()
	}
	w.f.errP, w.f.crashP = 0, 0
	w.compare()
	w.onlyKey(w.cands[0].pass, w.cands[0].pass+"x", "passphrase 0")
	w.drain()
	w.db.Close()
	w.db = nil
	encrypted(r, r.Scratch, w.secret)
}

func init() {
	register(&sim.World{Name: "msgdb", Body: storeBody})
}
