//go:build go1.25

package worlds

import (
	"bytes"
	"crypto/rand"
	"encoding/base64"
	"fmt"
	nethttp "net/http"
	"os"
	"path/filepath"
	"reflect"
	"regexp"
	"sort"
	"strings"
	"time"

	"github.com/mutecomm/mute/encdb"
	mixclient "github.com/mutecomm/mute/mix/client"
	"github.com/mutecomm/mute/mix/mixcrypt"
	"github.com/mutecomm/mute/uid/identity"
	"github.com/mutecomm/mute/util"
	simos "github.com/mutecomm/mute/zzverif/shim/os"
	"github.com/mutecomm/mute/zzverif/shim/smtp"
	"github.com/mutecomm/mute/zzverif/sim"
)

// clone copies the state of a user's message database.
func (s *uState) clone() *uState {
	c := &uState{nyms: map[int64]uNymRow{}, contacts: map[int64]uContactRow{}, accounts: map[[2]int64]uAcctRow{}, msgs: map[int64]uMsgRow{},
		out: map[int64]uOutRow{}, kv: map[string]string{}, cache: s.cache}
	for k, v := range s.nyms {
		c.nyms[k] = v
	}
	for k, v := range s.contacts {
		c.contacts[k] = v
	}
	for k, v := range s.accounts {
		c.accounts[k] = v
	}
	for k, v := range s.msgs {
		c.msgs[k] = v
	}
	for k, v := range s.out {
		c.out[k] = v
	}
	c.in = append(c.in, s.in...)
	for k, v := range s.kv {
		c.kv[k] = v
	}
	return c
}

// diff says where two states differ, or "".
func (s *uState) diff(t *uState, parts string) string {
	d := func(what string, a, b interface{}) string {
		if !strings.Contains(parts, what) {
			return ""
		}
		x, y := reflect.ValueOf(a), reflect.ValueOf(b)
		var keys []string
		for _, k := range append(x.MapKeys(), y.MapKeys()...) {
			xv, yv := x.MapIndex(k), y.MapIndex(k)
			switch {
			case !xv.IsValid():
				keys = append(keys, fmt.Sprintf("new %s %v %s", what, k, vClip(fmt.Sprintf("%+v", yv))))
			case !yv.IsValid():
				keys = append(keys, fmt.Sprintf("no %s %v any more", what, k))
			case xv.Interface() != yv.Interface():
				keys = append(keys, fmt.Sprintf("%s %v was %s, is %s", what, k, vClip(fmt.Sprintf("%+v", xv)), vClip(fmt.Sprintf("%+v", yv))))
			}
		}
		if len(keys) == 0 {
			return ""
		}
		sort.Strings(keys)
		return keys[0]
	}
	kv := func(m map[string]string) map[string]string {
		// a command may fetch the configuration
		return map[string]string{"ActiveUID": m["ActiveUID"], "WalletKey": m["WalletKey"]}
	}
	for _, x := range []string{d("nym", s.nyms, t.nyms), d("contact", s.contacts, t.contacts), d("account", s.accounts, t.accounts),
		d("msg", s.msgs, t.msgs), d("out", s.out, t.out), d("kv", kv(s.kv), kv(t.kv))} {
		if x != "" {
			return x
		}
	}
	if strings.Contains(parts, "in") && !reflect.DeepEqual(append([]uInRow{}, s.in...), append([]uInRow{}, t.in...)) {
		return fmt.Sprintf("the inqueue changed from %d to %d entries", len(s.in), len(t.in))
	}
	if strings.Contains(parts, "cache") && s.cache != t.cache {
		return "the message ID cache changed"
	}
	return ""
}

const uAll = "nym contact account msg out kv in cache"

// do runs a command of a user, possibly with a fault, and returns the states
// before and after it.
func (w *uWorld) do(u *uUser, stdin string, args ...string) (b, a *uState, res vResult) {
	r := w.r
	if w.faults && w.faultNum > 0 {
		den := w.faultDen
		if !w.busy(u, args) {
			den *= 3
		}
		w.m.choosePlan(w.faultNum, den, true, args[0]+args[1])
		if pl := &w.m.plan; args[1] == "send" && pl.kind != "" && w.busy(u, args) && r.Bool(1, 4) {
			// something happens to a mail to the mix
			kind := []string{"malformed", "server-error", "lost", "no-reply", "crash-after", "slow"}[r.Weighted(3, 4, 2, 3, 2, 1)]
			*pl = vPlan{kind: "net-" + kind, sig: vSig(nil, "net", "smtp"), at: r.Choose(3)}
		}
	} else {
		w.m.plan = vPlan{}
		w.m.key = args[0] + args[1]
	}
	b = u.st
	res = w.ctl(u, stdin, args...)
	var err error
	a, err = u.load()
	if err != nil {
		r.Fail("C22", "unreadable", "after mutectrl %s %s the message database of %s is unreadable: %v", args[0], args[1], u.name, err)
		r.Stop()
	}
	u.st = a
	if w.m.stuck {
		r.Stop()
	}
	w.invariants(u)
	w.confCheck(u, b, a, res, !w.isOffline)
	return b, a, res
}

// busy reports whether the command has messages to send or to fetch.
func (w *uWorld) busy(u *uUser, args []string) bool {
	if args[0] == "upkeep" {
		return true
	}
	if args[0] == "msg" && args[1] == "send" {
		for _, m := range u.st.msgs {
			if m.dir == 1 && m.sent == 0 {
				return true
			}
		}
	}
	if args[0] == "msg" && args[1] == "fetch" {
		for _, m := range w.msgs {
			if m.to != nil && m.to.u == u && m.boxed > 0 && m.seen == 0 {
				return true
			}
		}
	}
	return false
}

// alias spells an identity differently.
func (w *uWorld) alias(id string) string {
	if w.r.Bool(2, 3) {
		return id
	}
	b := []byte(id)
	for i := range b {
		switch {
		case b[i] == '@':
			return string(b)
		case b[i] == 'o' && w.r.Bool(1, 2):
			b[i] = '0'
		case b[i] == 'l' && w.r.Bool(1, 2):
			b[i] = '1'
		case b[i] >= 'a' && b[i] <= 'z' && w.r.Bool(1, 3):
			b[i] -= 32
		}
	}
	return string(b)
}

// invariants of the message database.
func (w *uWorld) invariants(u *uUser) {
	r, s := w.r, u.st
	queued := map[int64]int{}
	for _, o := range s.out {
		queued[o.msg]++
	}
	r.Eval("C19")
	for i, m := range s.msgs {
		if m.dir == 0 {
			continue
		}
		q := queued[i]
		ok := false
		switch {
		case m.sent != 0:
			ok = q == 0 && m.tosend == 0
		case m.tosend != 0:
			ok = q == 0
		default:
			ok = q == 1
		}
		r.Check(ok, "C19", "status", "outgoing message %d of %s is in no proper state: to send %d, sent %d, %d times in the outqueue", i, u.name, m.tosend, m.sent, q)
	}
	for i, o := range s.out {
		if m, ok := s.msgs[o.msg]; !ok || m.self != o.self {
			r.Fail("C19", "orphan", "entry %d of the outqueue of %s belongs to no message", i, u.name)
		}
	}
}

// exact checks that a command had exactly the wanted effect, or, if it failed,
// none, and if it was interrupted, one of the two.
func (w *uWorld) exact(prop, sig string, res vResult, b, a, want *uState, refused bool) {
	r := w.r
	r.Eval(prop)
	now := b.diff(a, uAll)
	if refused {
		if r.Check(!res.ok(), prop, sig+"-accepted", "mutectrl succeeds although it must refuse") {
			r.Check(now == "", prop, sig+"-refused-effect", "a refused command changed something: %s", now)
		}
		return
	}
	if d := want.diff(a, uAll); d != "" && (res.ok() || now != "") {
		r.Fail(prop, sig+"-effect", "the command did something else than it should: %s", d)
		return
	}
	if !res.ok() && !res.crashed && !res.faulted {
		r.Fail(prop, sig+"-fails", "the command fails: %s", vClip(res.errs))
	}
}

// frame checks that nothing but the named parts changed.
func (w *uWorld) frame(b, a *uState, except string) {
	parts := ""
	for _, p := range strings.Fields(uAll) {
		if !strings.Contains(" "+except+" ", " "+p+" ") {
			parts += p + " "
		}
	}
	d := b.diff(a, parts)
	w.r.Check(d == "", "C22", "frame", "a command changed what it should not: %s", d)
}

// newMessage makes up a message.
func (w *uWorld) newBody() string {
	r := w.r
	w.nmsg++
	head := fmt.Sprintf("message %d", w.nmsg)
	switch r.Choose(8) {
	case 0:
		return head
	case 1:
		return head + "\n"
	case 2:
		return head + "\r\nline\r\n.\r\nFrom x\r\n\r\n"
	case 3:
		return head + " \xc3\xa4\xe2\x82\xac\xf0\x9f\x98\x80\n" + strings.Repeat("l\u00f6ng ", r.Range(1, 300))
	case 4:
		return head + "\n" + string(r.Bytes(r.Range(1, 400)))
	case 5:
		return "\n" + head
	case 6:
		return head + "\n" + strings.Repeat("x", r.Range(1000, 41000))
	case 7:
		if r.Bool(1, 3) {
			// around the maximum
			return (head + "\n" + strings.Repeat("x", uMaxBody+3))[:uMaxBody-2+r.Choose(5)]
		}
	}
	return head + "\nhello\n\n--\nbye\n"
}

func (w *uWorld) msgAdd(n *uNym, to string, peer *uNym) {
	r, u := w.r, n.u
	body := w.newBody()
	m := &uMsg{n: w.nmsg, from: n, to: peer, body: body, min: 120, max: 300}
	args := []string{"msg", "add", "--from", w.alias(n.id), "--to", w.alias(to)}
	if def := r.Bool(1, 2); !def {
		m.min = int32(r.Range(60, 3600))
		m.max = m.min + int32(r.Range(1, 3600))
		args = append(args, "--mindelay", fmt.Sprint(m.min), "--maxdelay", fmt.Sprint(m.max))
	} else {
		m.min, m.max = w.defMin, w.defMax
	}
	w.byBody[body] = m
	stdin := body
	if r.Bool(1, 5) {
		f := filepath.Join(r.Scratch, "body")
		if err := os.WriteFile(f, []byte(body), 0600); err != nil {
			panic(err)
		}
		args = append(args, "--file", f)
		stdin = ""
	}
	t0 := time.Now().Unix()
	b, a, res := w.do(u, stdin, args...)
	t1 := time.Now().Unix()
	_, c := b.contact(n.row, to)
	white := c != nil && c.list == 0
	w.frame(b, a, "msg")
	var added []int64
	want := b.clone()
	for _, i := range uSorted(a.msgs) {
		if _, ok := b.msgs[i]; !ok {
			added = append(added, i)
		}
	}
	r.Eval("C20")
	if m.to == n {
		r.Check(!res.ok() && len(added) == 0, "C19", "message-to-self", "a message of %s to itself is accepted, which can never be sent", n)
		return
	}
	if len(body) > uMaxBody {
		r.Check(!res.ok() && len(added) == 0, "C19", "message-too-long", "a message of %d bytes is accepted, which can never be sent", len(body))
		return
	}
	if !white {
		r.Check(!res.ok() && len(added) == 0, "C20", "message-to-stranger", "a message to %s, which is %s of %s, is accepted", to, uList(c), n)
		return
	}
	if len(added) == 1 {
		i := added[0]
		cid, _ := b.contact(n.row, to)
		row := uMsgRow{self: n.row, peer: cid, dir: 1, tosend: 1, from: n.id, to: to, body: body, sign: b2i(m.sign), min: int64(m.min), max: int64(m.max)}
		row.subject = strings.SplitN(body, "\n", 2)[0]
		got := a.msgs[i]
		row.date = got.date
		r.Check(got.date >= t0 && got.date <= t1, "C18", "add-date", "%s is dated %d, it was written at %d to %d", m, got.date, t0, t1)
		want.msgs[i] = row
		m.row = i
		u.rows[i] = m
		w.msgs = append(w.msgs, m)
	} else if res.ok() {
		r.Fail("C18", "add-effect", "a message was added, but %d new messages are stored", len(added))
	}
	if d := want.diff(a, "msg"); d != "" {
		r.Fail("C18", "add-effect", "msg add stores something else: %s", d)
	}
	if !res.ok() && !res.crashed && !res.faulted {
		r.Fail("C18", "add-fails", "msg add to a white listed contact fails: %s", vClip(res.errs))
	}
}

// uMaxBody is the length of the longest message.
const uMaxBody = 41691

func b2i(b bool) int64 {
	if b {
		return 1
	}
	return 0
}

func uList(c *uContactRow) string {
	if c == nil {
		return "no contact"
	}
	return []string{"white", "gray", "black"}[c.list] + " listed"
}

func (w *uWorld) msgSend(u *uUser, n *uNym) vResult {
	r := w.r
	args := []string{"msg", "send", "--all"}
	if n != nil {
		args = []string{"msg", "send", "--id", w.alias(n.id)}
	}
	mine := func(self int64) bool { return n == nil || self == n.row }
	t0 := time.Now().Unix()
	b, a, res := w.do(u, "", args...)
	t1 := time.Now().Unix()
	w.frame(b, a, "msg out")
	r.Eval("C19")
	for _, i := range uSorted(b.msgs) {
		m := b.msgs[i]
		x, ok := a.msgs[i]
		if !ok {
			r.Fail("C19", "send-deletes", "msg send deletes message %d", i)
			continue
		}
		if m == x {
			continue
		}
		y := x
		y.tosend, y.sent, y.date = m.tosend, m.sent, m.date
		if y != m || m.dir == 0 || m.sent != 0 || !mine(m.self) {
			r.Fail("C19", "send-changes", "msg send changes message %d from %s to %s", i, vClip(fmt.Sprintf("%+v", m)), vClip(fmt.Sprintf("%+v", x)))
			continue
		}
		um := u.rows[i]
		if x.sent == 0 {
			r.Check(x.date == m.date, "C19", "send-changes", "msg send changes the date of %s, which is not sent", um)
			continue
		}
		r.Check(um.accepted > 0, "C19", "sent-not-accepted", "%s is marked as sent, but the mix did not accept it", um)
		r.Check(x.date >= t0+int64(um.min) && x.date <= t1+int64(um.min), "C19", "sent-date",
			"%s was sent at %d to %d with a minimum delay of %d and is dated %d", um, t0, t1, um.min, x.date)
	}
	for _, i := range uSorted(a.msgs) {
		if _, ok := b.msgs[i]; !ok {
			r.Fail("C19", "send-adds", "msg send adds message %d", i)
		}
	}
	for _, i := range uSorted(b.out) {
		o := b.out[i]
		if x, ok := a.out[i]; !mine(o.self) && (!ok || x != o) {
			r.Fail("C22", "frame", "msg send for %s changes the outqueue of another nym", n)
		}
	}
	if res.ok() && !res.faulted {
		for _, i := range uSorted(a.msgs) {
			m := a.msgs[i]
			if m.dir == 1 && m.sent == 0 && mine(m.self) && !u.rows[i].later {
				r.Fail("C19", "not-sent", "msg send succeeds, but %s is not sent", u.rows[i])
			}
		}
	}
	return res
}

func (w *uWorld) msgFetch(u *uUser, n *uNym) vResult {
	r := w.r
	args := []string{"msg", "fetch", "--all"}
	if n != nil {
		args = []string{"msg", "fetch", "--id", w.alias(n.id)}
	}
	w.fetching = map[*uMsg]bool{}
	b, a, res := w.do(u, "", args...)
	late := w.fetching
	w.fetching = nil
	w.frame(b, a, "msg in cache contact account")
	r.Eval("C18")
	r.Eval("C20")
	r.Eval("C21")
	r.Eval("C22")
	nym := map[int64]*uNym{}
	for _, x := range u.nyms {
		if !x.gone {
			nym[x.row] = x
		}
	}
	unknown := map[[2]string]bool{} // senders who were no contact
	for _, i := range uSorted(b.msgs) {
		m := b.msgs[i]
		if x, ok := a.msgs[i]; !ok || x != m {
			r.Fail("C18", "fetch-changes", "msg fetch changes message %d", i)
		}
	}
	for _, i := range uSorted(a.msgs) {
		x := a.msgs[i]
		if _, ok := b.msgs[i]; ok {
			continue
		}
		m := w.byBody[x.body]
		me := nym[x.self]
		if m == nil || m.row == 0 || me == nil || x.dir != 0 {
			r.Fail("C18", "phantom", "msg fetch stores a message nobody wrote: %s", vClip(fmt.Sprintf("%+v", x)))
			continue
		}
		u.rows[i] = m
		r.Logf("  %s arrives", m)
		if m.to != me {
			r.Fail("C22", "wrong-nym", "%s arrives at %s", m, me)
			continue
		}
		if x.from != m.from.id || x.to != me.id {
			r.Fail("C18", "wrong-sender", "%s arrives as a message from %s to %s", m, x.from, x.to)
		}
		if m.boxed == 0 {
			r.Fail("C18", "phantom", "%s arrives although it was never delivered", m)
			continue
		}
		m.seen++
		r.Counter["delivered"]++
		r.Check(m.seen == 1, "C18", "duplicate", "%s arrives %d times", m, m.seen)
		ok := false
		for _, d := range m.dates {
			ok = ok || d == x.date
		}
		r.Check(ok, "C18", "date", "%s arrived at %v, but is dated %d", m, m.dates, x.date)
		y := uMsgRow{self: x.self, peer: x.peer, from: x.from, to: x.to, date: x.date, body: x.body, subject: strings.SplitN(x.body, "\n", 2)[0]}
		r.Check(x == y, "C18", "stored-as", "%s is stored as %s", m, vClip(fmt.Sprintf("%+v", x)))
		if pid, c := a.contact(me.row, m.from.id); c == nil || pid != x.peer {
			r.Fail("C18", "wrong-peer", "%s is stored under another contact", m)
		}
		_, was := b.contact(me.row, m.from.id)
		if was == nil {
			unknown[[2]string{me.id, m.from.id}] = true
		} else if was.list == 2 {
			r.Fail("C20", "black-delivered", "%s arrives although its sender is blocked", m)
		}
	}
	for _, i := range uSorted(b.contacts) {
		c := b.contacts[i]
		x, ok := a.contacts[i]
		r.Check(ok && x == c, "C20", "decision-changed", "msg fetch changes the contact %s (%s) of %s to %s", c.id, uList(&c), nym[c.nym], uList(&x))
	}
	for _, i := range uSorted(a.contacts) {
		c := a.contacts[i]
		if _, ok := b.contacts[i]; ok {
			continue
		}
		me := nym[c.nym]
		if me == nil {
			r.Fail("C22", "frame", "a contact of another nym appears")
			continue
		}
		r.Check(c.list == 1, "C20", "unknown-not-gray", "%s, unknown to %s, is %s after a message of it arrived", c.id, me, uList(&c))
		if res.ok() && !res.faulted {
			r.Check(unknown[[2]string{me.id, c.id}], "C20", "contact-invented", "%s becomes a contact of %s without a message", c.id, me)
		}
	}
	for _, i := range uSorted(b.accounts) {
		x := b.accounts[i]
		y, ok := a.accounts[i]
		y.lastat = x.lastat
		r.Check(ok && y == x, "C22", "frame", "msg fetch changes an account")
	}
	r.Check(len(a.accounts) == len(b.accounts), "C22", "frame", "msg fetch adds an account")
	// messages of blocked senders may have been dropped
	for _, m := range w.msgs {
		if m.to != nil && m.to.u == u && m.boxed > 0 && m.seen == 0 && !m.to.gone {
			if _, c := b.contact(m.to.row, m.from.id); c != nil && c.list == 2 {
				m.black = true
			}
		}
	}
	strict := res.ok() && !res.faulted
	if !strict {
		u.broken = true
		if len(a.in) > 0 && a.in[0].env == 0 && (res.crashed || (!strings.HasPrefix(res.hit, "net-") && (res.hit == "full" || res.by == w.m.main || w.decrypting[res.by] != nil))) {
			if m := w.encMsg(a.in[0].text); m != nil && m.keyGone {
				m.suspect = true
			}
		}
		if !res.ok() && !res.crashed && !res.faulted {
			r.Fail("C21", "fetch-fails", "msg fetch fails: %s", vClip(res.errs))
		}
		return res
	}
	r.Check(len(a.in) == 0, "C21", "queue-blocked", "%d messages stay in the inqueue of %s after a successful fetch", len(a.in), u.name)
	for _, m := range w.msgs {
		if m.to == nil || m.to.u != u || m.to.gone || m.boxed == 0 || m.seen > 0 || m.dropped || late[m] || (n != nil && m.to != n) {
			continue
		}
		if m.black {
			m.dropped = true
			r.Counter["dropped-black"]++
			continue
		}
		sig := "lost"
		if m.suspect {
			sig = "lost-crash-decrypt"
		}
		m.dropped = true
		r.Fail("C18", sig, "%s was delivered, but msg fetch of %s does not bring it", m, u.name)
		if sig == "lost" && (u.broken || w.evils > 0) {
			r.Fail("C21", sig, "%s was delivered, but after an interrupted fetch or a bad message msg fetch of %s does not bring it", m, u.name)
		}
	}
	u.broken = false
	return res
}

func uSorted[K comparable, T any](m map[K]T) []K {
	var l []K
	for k := range m {
		l = append(l, k)
	}
	sort.Slice(l, func(i, j int) bool { return fmt.Sprintf("%020d", l[i]) < fmt.Sprintf("%020d", l[j]) })
	return l
}

var uLine = regexp.MustCompile(`^(..) (\d+)\t(\S+)\t(\S*)\t(\S*)\t(.*)$`)

func (w *uWorld) msgList(n *uNym) {
	r := w.r
	b, a, res := w.do(n.u, "", "msg", "list", "--id", w.alias(n.id))
	w.exact("C22", "list", res, b, a, b, false)
	if !res.ok() {
		return
	}
	// subjects may contain anything but line feeds
	want := map[string]bool{}
	for _, i := range uSorted(a.msgs) {
		m := a.msgs[i]
		if m.self != n.row {
			continue
		}
		st := ""
		switch {
		case m.dir == 0 && m.read != 0:
			st = ">R"
		case m.dir == 0:
			st = ">N"
		case m.sent != 0:
			st = "<S"
		default:
			st = "<P"
		}
		want[fmt.Sprintf("%s %d\t%s\t%s\t%s\t%s", st, i, time.Unix(m.date, 0).Format(time.RFC3339), m.from, m.to, m.subject)] = true
	}
	r.Eval("C18")
	for _, l := range strings.Split(strings.TrimSuffix(res.out, "\n"), "\n") {
		if l == "" {
			continue
		}
		if !r.Check(want[l], "C18", "list", "msg list of %s shows %q which is not there", n, vClip(l)) {
			return
		}
		delete(want, l)
	}
	r.Check(len(want) == 0, "C18", "list", "msg list of %s omits %d messages", n, len(want))
}

// pick picks a message number, mostly one of the nym.
func (w *uWorld) pick(n *uNym) (int64, bool) {
	var own, other []int64
	for _, i := range uSorted(n.u.st.msgs) {
		if n.u.st.msgs[i].self == n.row {
			own = append(own, i)
		} else {
			other = append(other, i)
		}
	}
	if len(other) > 0 && w.r.Bool(1, 5) {
		return other[w.r.Choose(len(other))], false
	}
	if len(own) > 0 && !w.r.Bool(1, 12) {
		return own[w.r.Choose(len(own))], true
	}
	return 999, false
}

func (w *uWorld) msgRead(n *uNym) {
	r := w.r
	i, ok := w.pick(n)
	b, a, res := w.do(n.u, "", "msg", "read", "--id", w.alias(n.id), "--msgnum", fmt.Sprint(i))
	want := b.clone()
	if ok {
		m := want.msgs[i]
		m.read = 1
		want.msgs[i] = m
	}
	w.exact("C22", "read", res, b, a, want, !ok)
	if !res.ok() || !ok {
		if !ok {
			r.Check(!strings.Contains(res.out, "Date:"), "C22", "foreign-read", "msg read shows a message of another nym")
		}
		return
	}
	r.Eval("C18")
	row := a.msgs[i]
	head, text, _ := strings.Cut(res.out, "\r\n\r\n")
	_, body, _ := strings.Cut(row.body, "\n")
	if text != body {
		r.Fail("C18", "read", "msg read shows another text for message %d of %s: %q instead of %q", i, n, vClip(text), vClip(body))
	}
	ph := func(full, id string) string {
		if full == "" {
			return id
		}
		return full + " <" + id + ">"
	}
	un := a.nyms[n.row]
	c := a.contacts[row.peer]
	from, to := ph(c.full, c.unmapped), ph(un.full, un.unmapped)
	if row.dir == 1 {
		from, to = to, from
	}
	for _, l := range []string{"From: " + from, "To: " + to, "Date: " + time.Unix(row.date, 0).UTC().Format(time.RFC1123Z)} {
		r.Check(strings.Contains("\r\n"+head+"\r\n", "\r\n"+l+"\r\n"), "C18", "read-head", "msg read of message %d of %s does not show %q: %q", i, n, l, vClip(head))
	}
}

func (w *uWorld) msgDelete(n *uNym) {
	i, ok := w.pick(n)
	b, a, res := w.do(n.u, "", "msg", "delete", "--id", w.alias(n.id), "--msgnum", fmt.Sprint(i))
	want := b.clone()
	if ok {
		delete(want.msgs, i)
		for _, k := range uSorted(want.out) {
			o := want.out[k]
			if o.msg == i {
				delete(want.out, k)
			}
		}
	}
	w.exact("C22", "delete", res, b, a, want, !ok)
	if _, there := a.msgs[i]; ok && !there {
		if m := n.u.rows[i]; m != nil && b.msgs[i].dir == 1 && b.msgs[i].sent == 0 {
			m.deleted = true
		}
		delete(n.u.rows, i)
	}
}

// Contacts.

func (w *uWorld) contactOp(n *uNym, verb, id string) {
	r, u := w.r, n.u
	args := []string{"contact", verb, "--id", w.alias(n.id), "--contact", w.alias(id)}
	full := ""
	if (verb == "add" && r.Bool(1, 3)) || verb == "edit" {
		full = fmt.Sprintf("Full Name %d", r.Choose(100))
		args = append(args, "--full-name", full)
	}
	b, a, res := w.do(u, "", args...)
	want := b.clone()
	i, c := b.contact(n.row, id)
	refused := false
	put := func(list int64, full string) {
		if c != nil {
			x := *c
			x.list, x.full = list, full
			want.contacts[i] = x
			return
		}
		// the row of a new contact is not ours to choose
		if j, x := a.contact(n.row, id); x != nil {
			if _, old := b.contacts[j]; !old {
				want.contacts[j] = uContactRow{nym: n.row, id: id, full: full, list: list}
				return
			}
		}
		want.contacts[-1] = uContactRow{nym: n.row, id: id, full: full, list: list}
	}
	// identities exist or not
	exists := w.nymOf(id) != nil
	switch verb {
	case "add":
		switch {
		case (c == nil || c.list != 0) && !exists:
			refused = true
		case c == nil:
			put(0, full)
		default:
			f := c.full
			if full != "" {
				f = full
			}
			put(0, f)
		}
	case "edit":
		if refused = c == nil; !refused {
			put(c.list, full)
		}
	case "remove":
		if c != nil {
			put(1, c.full)
		}
	case "block":
		f := ""
		if c != nil {
			f = c.full
		}
		put(2, f)
	case "unblock":
		if refused = c == nil || c.list != 2 || !exists; !refused {
			put(0, c.full)
		}
	}
	norm := func(s *uState) *uState {
		s = s.clone()
		for k, x := range s.contacts {
			if x.unmapped != "" {
				if m, err := identity.Map(x.unmapped); err != nil || m != x.id {
					r.Fail("C20", "unmapped", "contact %s of %s is displayed as %s", x.id, n, x.unmapped)
				}
			}
			x.unmapped = ""
			s.contacts[k] = x
		}
		return s
	}
	w.exact("C20", verb, res, norm(b), norm(a), norm(want), refused)
}

func (w *uWorld) contactList(n *uNym, black bool) {
	r := w.r
	verb, list := "list", int64(0)
	if black {
		verb, list = "blacklist", 2
	}
	b, a, res := w.do(n.u, "", "contact", verb, "--id", w.alias(n.id))
	w.exact("C22", "contact-list", res, b, a, b, false)
	if !res.ok() {
		return
	}
	var want []string
	for _, key := range uSorted(a.contacts) {
		c := a.contacts[key]
		if c.nym == n.row && c.list == list {
			s := c.unmapped
			if c.full != "" {
				s = c.full + " <" + s + ">"
			}
			want = append(want, s)
		}
	}
	got := strings.Split(strings.TrimSuffix(res.out, "\n"), "\n")
	if res.out == "" {
		got = nil
	}
	sort.Strings(want)
	sort.Strings(got)
	r.Eval("C20")
	r.Check(strings.Join(want, "\n") == strings.Join(got, "\n"), "C20", "shown", "contact %s of %s shows %q instead of %q", verb, n, got, want)
}

// Nyms.

func (w *uWorld) nymOf(id string) *uNym {
	for _, u := range w.users {
		for _, n := range u.nyms {
			if n.id == id {
				return n
			}
		}
	}
	return nil
}

func (w *uWorld) uidOp(u *uUser, verb string, n *uNym) {
	r := w.r
	id := "nobody@mute.one"
	if n != nil {
		id = n.id
	}
	typed := w.alias(id)
	args := []string{"uid", verb, "--id", typed}
	full := ""
	switch verb {
	case "edit":
		full = fmt.Sprintf("Owner %d", r.Choose(100))
		args = append(args, "--full-name", full)
	case "delete":
		args = append(args, "--force")
	}
	b, a, res := w.do(u, "", args...)
	want := b.clone()
	refused := n == nil || n.u != u || n.gone
	norm := func(s *uState) *uState { return s }
	if !refused {
		switch verb {
		case "edit":
			x := want.nyms[n.row]
			x.full, x.unmapped = full, typed
			want.nyms[n.row] = x
		case "switch":
			want.kv["ActiveUID"] = n.id
			norm = func(s *uState) *uState {
				s = s.clone()
				if m, err := identity.Map(s.kv["ActiveUID"]); err == nil {
					s.kv["ActiveUID"] = m
				}
				return s
			}
		case "delete":
			uDelNym(want, n.row)
			want.cache = a.cache
		}
	}
	if verb == "delete" && !refused {
		w.nymDeleted(n, b, a, want, res)
		return
	}
	w.exact("C22", "uid-"+verb, res, norm(b), norm(a), norm(want), refused)
}

func uDelNym(s *uState, row int64) {
	delete(s.nyms, row)
	for k, c := range s.contacts {
		if c.nym == row {
			delete(s.contacts, k)
		}
	}
	for k, c := range s.accounts {
		if c.nym == row {
			delete(s.accounts, k)
		}
	}
	for k, m := range s.msgs {
		if m.self == row {
			delete(s.msgs, k)
		}
	}
	for k, m := range s.out {
		if m.self == row {
			delete(s.out, k)
		}
	}
	var in []uInRow
	for _, x := range s.in {
		if x.nym != row {
			in = append(in, x)
		}
	}
	s.in = in
}

func (w *uWorld) nymDeleted(n *uNym, b, a, want *uState, res vResult) {
	r := w.r
	r.Eval("C22")
	if _, ok := a.nyms[n.row]; ok {
		r.Check(!res.ok(), "C22", "uid-delete-effect", "uid delete of %s succeeds, but it is still there", n)
		d := b.diff(a, uAll)
		r.Check(d == "", "C22", "uid-delete-effect", "a failed uid delete changed something: %s", d)
		if !res.ok() && !res.faulted && !res.crashed {
			r.Fail("C22", "uid-delete-fails", "uid delete of %s fails: %s", n, vClip(res.errs))
		}
		return
	}
	n.gone = true
	d := want.diff(a, uAll)
	r.Check(d == "", "C22", "uid-delete-effect", "uid delete of %s does something else: %s", n, d)
	for i, m := range n.u.rows {
		if _, ok := a.msgs[i]; !ok {
			if m.from == n {
				m.deleted = true
			}
			delete(n.u.rows, i)
		}
	}
	if res.ok() {
		r.Check(w.byKey[n.ac.pub] == nil, "C22", "uid-delete-account", "uid delete of %s succeeds, but its account is still there", n)
	} else if !res.faulted && !res.crashed {
		r.Fail("C22", "uid-delete-fails", "uid delete of %s fails: %s", n, vClip(res.errs))
	}
}

func (w *uWorld) uidShow(u *uUser, verb string) {
	r := w.r
	b, a, res := w.do(u, "", "uid", verb)
	if verb == "active" && a.kv["ActiveUID"] == "" {
		return
	}
	w.exact("C22", "uid-"+verb, res, b, a, b, false)
	if !res.ok() {
		return
	}
	var want []string
	if verb == "active" {
		want = []string{a.kv["ActiveUID"]}
	} else {
		for _, key := range uSorted(a.nyms) {
			x := a.nyms[key]
			s := x.unmapped
			if x.full != "" {
				s = x.full + " <" + s + ">"
			}
			want = append(want, s)
		}
	}
	got := strings.Split(strings.TrimSuffix(res.out, "\n"), "\n")
	if res.out == "" {
		got = nil
	}
	sort.Strings(want)
	sort.Strings(got)
	r.Check(strings.Join(want, "\n") == strings.Join(got, "\n"), "C22", "uid-shown", "uid %s of %s shows %q instead of %q", verb, u.name, got, want)
}

// uidNew registers a nym, without faults.
func (w *uWorld) uidNew(u *uUser, id string) {
	r := w.r
	typed := w.alias(id)
	b := u.st
	w.m.plan = vPlan{}
	w.m.key = "uidnew"
	res := w.ctl(u, "", "uid", "new", "--id", typed, "--full-name", "The "+u.name)
	a, err := u.load()
	if err != nil {
		panic(err)
	}
	u.st = a
	owned := w.nymOf(id)
	if owned != nil {
		w.exact("C22", "uid-new", res, b, a, b, true)
		return
	}
	if !res.ok() {
		if b == nil {
			panic("uid new: " + res.errs)
		}
		r.Fail("C22", "uid-new-fails", "uid new --id %s fails: %s", typed, vClip(res.errs))
		return
	}
	n := &uNym{u: u, id: id, row: a.nym(id)}
	u.nyms = append(u.nyms, n)
	acct, ok := a.accounts[[2]int64{n.row, 0}]
	if !r.Check(ok && n.row != 0, "C22", "uid-new-effect", "uid new %s succeeds, but there is no such nym or no account for it", typed) {
		r.Stop()
	}
	key, err := base64.StdEncoding.DecodeString(acct.priv)
	if err != nil || len(key) != 64 {
		panic("account key")
	}
	var pub [32]byte
	copy(pub[:], key[32:])
	n.ac = w.byKey[pub]
	if !r.Check(n.ac != nil && acct.server == n.ac.server, "C22", "uid-new-effect", "the account of %s is not known to the account server %s", typed, acct.server) {
		r.Stop()
	}
	if b != nil {
		want := b.clone()
		want.nyms[n.row] = uNymRow{id: id, unmapped: typed, full: "The " + u.name}
		want.accounts[[2]int64{n.row, 0}] = acct
		if want.kv["ActiveUID"] == "" {
			want.kv["ActiveUID"] = typed
		}
		w.exact("C22", "uid-new", res, b, a, want, false)
	}
}

// Adversaries.

// evil puts bad mail into a mailbox or into the mix.
func (w *uWorld) evil() {
	r := w.r
	var ns []*uNym
	for _, u := range w.users {
		for _, n := range u.nyms {
			if !n.gone {
				ns = append(ns, n)
			}
		}
	}
	n := ns[r.Choose(len(ns))]
	to := string(util.MailboxAddress(&n.ac.pub, n.ac.server)) + "@001.mute.one"
	var all []*uBox
	for _, x := range ns {
		all = append(all, x.ac.msgs...)
	}
	w.evils++
	r.Counter["bad-mail"]++
	k := r.Weighted(1, 1, 1, 1, 1, 4, 1)
	switch k {
	case 0: // noise
		r.Logf("evil: noise for %s", n)
		w.box(n.ac, r.Bytes(r.Range(7, 300)))
	case 1: // a mail with noise
		r.Logf("evil: mail with noise for %s", n)
		w.box(n.ac, mixclient.WriteMail("mix@mix.mute.one", to, r.Bytes(r.Choose(3000))))
	case 2, 3: // a copy, to the same or another mailbox
		if len(all) == 0 {
			return
		}
		b := all[r.Choose(len(all))]
		r.Logf("evil: copy of a mail for %s", n)
		w.box(n.ac, b.mail)
	case 4: // an altered copy
		if len(all) == 0 {
			return
		}
		c := append([]byte{}, all[r.Choose(len(all))].mail...)
		if len(c) > 0 {
			switch r.Choose(3) {
			case 0:
				c = c[:min(len(c), 7+r.Choose(len(c)))]
			default:
				for j := r.Range(1, 3); j > 0; j-- {
					c[r.Choose(len(c))] ^= byte(1 << uint(r.Choose(8)))
				}
			}
		}
		r.Logf("evil: altered copy of a mail for %s", n)
		w.box(n.ac, c)
	case 5: // something else than a message, properly sent to a nym address
		if len(w.addrs) == 0 {
			return
		}
		ad := w.addrs[r.Choose(len(w.addrs))]
		var body []byte
		var env *uEnv
		kind := r.Choose(6)
		switch kind {
		case 0: // noise
			body = r.Bytes(mixcrypt.RelayMinSize + r.Choose(20000))
		case 1: // something which starts like a message
			body = append([]byte{1, 0, byte(r.Choose(3)), byte(r.Choose(5)), byte(r.Choose(2)), byte(r.Choose(256))}, r.Bytes(mixcrypt.RelayMinSize+r.Choose(500))...)
		case 2, 3, 4: // a message which was sent before
			var l []string
			for _, e := range w.sentEncs {
				if x := w.encs[e]; x != nil && x.msg != nil && x.accepted > 0 {
					l = append(l, e)
				}
			}
			if len(l) == 0 {
				return
			}
			enc := l[r.Choose(len(l))]
			body = unb64(enc)
			switch kind {
			case 2:
				env = w.encs[enc]
			case 3:
				for j := r.Range(1, 3); j > 0; j-- {
					body[r.Choose([]int{len(body), 12, 100, 4096}[r.Choose(4)])] ^= byte(1 << uint(r.Choose(8)))
				}
			default:
				body = body[:r.Range(mixcrypt.RelayMinSize, len(body)-1)]
			}
		case 5: // nothing
			body = r.Bytes(r.Choose(100))
		}
		tok := make([]byte, 32)
		rand.Read(tok)
		mo := mixclient.MessageInput{SenderMinDelay: 120, SenderMaxDelay: 300, Token: tok, NymAddress: unb64(ad), Message: body}.Create()
		if mo.Error != nil {
			r.Logf("evil: %v", mo.Error)
			return
		}
		r.Logf("evil: bad message %d, but properly sent", kind)
		r.Counter["bad-message-sealed"]++
		w.mix.queue = append(w.mix.queue, &uMail{mail: mo.Message, env: env, evil: true, copied: env != nil, other: true})
	case 6: // repeat a mail to the mix
		if len(w.mix.past) == 0 {
			return
		}
		p := w.mix.past[r.Choose(len(w.mix.past))]
		r.Logf("evil: repeats a mail to the mix")
		w.mix.queue = append(w.mix.queue, &uMail{mail: p.mail, env: p.env, evil: true})
	}
}

func (w *uWorld) relaySome() {
	r := w.r
	k := r.Range(1, len(w.mix.queue))
	for ; k > 0 && len(w.mix.queue) > 0; k-- {
		i := 0
		if r.Bool(1, 3) {
			i = r.Choose(len(w.mix.queue))
		}
		w.relay(i)
		if r.Bool(1, 3) {
			time.Sleep(time.Duration(r.Range(1, 3000)) * time.Millisecond)
		}
	}
}

func uBody(r *sim.Run) {
	w := &uWorld{r: r, accts: map[string]*uAcct{}, byKey: map[[32]byte]*uAcct{}, encs: map[string]*uEnv{}, encsBin: map[string]*uEnv{}, mails: map[string]*uEnv{}, byBody: map[string]*uMsg{}}
	w.decrypting = map[*simos.Proc]*bytes.Buffer{}
	w.m = newMachine(r)
	defer w.m.close()
	old := nethttp.DefaultTransport
	defer func() { nethttp.DefaultTransport = old; smtp.Dialer = nil }()
	w.setupServers()
	defer w.tap()()
	w.defMin, w.defMax = 120, 300
	w.faultNum, w.faultDen = []int{0, 1, 2, 3}[r.Choose(4)], 4
	w.talk = r.Bool(1, 2)
	names := []string{"alice", "bob", "carol"}[:r.Range(2, 3)]
	for _, n := range names {
		u := &uUser{name: n, pass: vPass, dir: filepath.Join(r.Scratch, n), rows: map[int64]*uMsg{}}
		ww := *w.bank
		ww.walletKey, ww.funds = newEd(), 1000
		ww.authCache, ww.authFail, ww.reCache = map[string]map[string]interface{}{}, map[string]int{}, map[string]map[string]interface{}{}
		u.wallet = &ww
		w.users = append(w.users, u)
		if err := os.MkdirAll(u.dir, 0700); err != nil {
			panic(err)
		}
		if res := w.ctl(u, "", "db", "create", "--iterations", "1", "--walletkey", base64.StdEncoding.EncodeToString(ww.walletKey.priv[:])); !res.ok() {
			panic("db create: " + res.errs)
		}
		w.uidNew(u, n+"@mute.one")
	}
	if r.Bool(1, 2) {
		w.uidNew(w.users[0], "alice.two@mute.one")
	}
	var ids []string
	for _, u := range w.users {
		for _, n := range u.nyms {
			ids = append(ids, n.id)
		}
	}
	ids = append(ids, "nobody@mute.one")
	w.faults = false
	for _, u := range w.users {
		for _, n := range u.nyms {
			for _, id := range ids {
				if id != n.id && id != "nobody@mute.one" && r.Bool(2, 3) {
					w.contactOp(n, "add", id)
				}
			}
		}
	}
	if r.Bool(3, 4) {
		// one message of everyone without faults
		for _, u := range w.users {
			n := u.nyms[0]
			var l []string
			for _, c := range u.st.contacts {
				if c.nym == n.row && c.list == 0 {
					l = append(l, c.id)
				}
			}
			if len(l) > 0 {
				sort.Strings(l)
				w.msgAdd(n, l[0], w.nymOf(l[0]))
				w.msgSend(u, nil)
			}
		}
		for len(w.mix.queue) > 0 {
			w.relay(0)
		}
		for _, u := range w.users {
			w.msgFetch(u, nil)
		}
	}
	w.uidShow(w.users[0], "list")
	w.m.boring = w.m.known["uidlist"]
	simos.Flush()
	w.faults = true
	start := time.Now()
	n := r.Range(8, 24)
	if r.Tier == "thorough" {
		n = r.Range(8, 60)
	}
	for i := 0; i < n; i++ {
		if time.Since(start) > 24*24*time.Hour {
			break
		}
		w.step(ids)
	}
	w.settle()
	if den := map[bool]int{true: 3, false: 12}[r.Prop == "C19"]; r.Bool(1, den) {
		w.pause()
	}
	if r.Prop == "C27" || r.Prop == "" {
		w.upkeepSettle()
	}
}

func (w *uWorld) step(ids []string) {
	r := w.r
	u := w.users[r.Choose(len(w.users))]
	var own []*uNym
	for _, n := range u.nyms {
		if !n.gone {
			own = append(own, n)
		}
	}
	queue := 0
	if len(w.mix.queue) > 0 {
		queue = 10
	}
	wt := []int{12, 8, 8, queue, 2, 3, 2, 9, 2, 2, 1, 4, 5, 4, 2, 1, 1}
	if w.talk {
		wt = []int{3, 3, 3, queue / 3, 1, 1, 1, 2, 0, 0, 0, 1, 2, 25, 1, 0, 0}
	}
	// what the property is about comes more often
	switch r.Prop {
	case "C20":
		wt[7] *= 2
	case "C21":
		wt[12] = 12
	case "C22":
		wt[9] *= 2
		wt[15], wt[16] = 4, 5
	case "C27":
		wt[0], wt[1], wt[2], wt[11], wt[13], wt[14] = 3, 3, 3, 6, 2, 30
	}
	k := r.Weighted(wt...)
	if len(own) == 0 && k != 3 && k != 11 && k != 12 && k != 15 {
		return
	}
	var n *uNym
	if len(own) > 0 {
		n = own[r.Choose(len(own))]
	}
	one := func() *uNym {
		if r.Bool(1, 2) {
			return nil
		}
		return n
	}
	switch k {
	case 0:
		r.Op("msg add")
		id := ids[r.Choose(len(ids))]
		for j := 0; j < 3; j++ { // prefer white listed contacts
			if _, c := u.st.contact(n.row, id); c != nil && c.list == 0 {
				break
			}
			id = ids[r.Choose(len(ids))]
		}
		w.msgAdd(n, id, w.nymOf(id))
	case 1:
		r.Op("msg send")
		w.msgSend(u, one())
	case 2:
		r.Op("msg fetch")
		w.msgFetch(u, one())
	case 3:
		r.Op("relay")
		w.relaySome()
	case 4:
		r.Op("msg list")
		w.msgList(n)
	case 5:
		r.Op("msg read")
		w.msgRead(n)
	case 6:
		r.Op("msg delete")
		w.msgDelete(n)
	case 7:
		verb := []string{"add", "edit", "remove", "block", "unblock"}[r.Weighted(4, 2, 2, 3, 3)]
		r.Op("contact " + verb)
		w.contactOp(n, verb, ids[r.Choose(len(ids))])
	case 8:
		r.Op("contact list")
		w.contactList(n, r.Bool(1, 2))
	case 9:
		verb := []string{"edit", "switch", "list", "active", "new"}[r.Choose(5)]
		r.Op("uid " + verb)
		x := n
		if r.Bool(1, 5) {
			x = w.nymOf(ids[r.Choose(len(ids))])
		}
		switch verb {
		case "list", "active":
			w.uidShow(u, verb)
		case "new":
			w.uidNew(u, ids[r.Choose(len(ids)-1)])
		default:
			w.uidOp(u, verb, x)
		}
	case 10:
		if len(own) > 1 || r.Bool(1, 4) {
			r.Op("uid delete")
			w.uidOp(u, "delete", n)
		}
	case 11:
		r.Op("sleep")
		time.Sleep(time.Duration(1<<uint(r.Range(0, 18))) * time.Second)
		simos.Flush()
	case 12:
		r.Op("evil")
		w.evil()
	case 14:
		w.upkeep(u, n)
	case 16:
		if r.Bool(1, 3) {
			cmd := []string{"vacuum", "version"}[r.Choose(2)]
			r.Op("db " + cmd)
			b, a, res := w.do(u, "", "db", cmd)
			w.exact("C22", "db-"+cmd, res, b, a, b, false)
		} else {
			w.rekey(u)
		}
	case 15:
		w.strange(u, n, ids)
	case 13:
		// messages all the way
		r.Op("talk")
		var l []string
		for _, c := range u.st.contacts {
			if c.nym == n.row && c.list == 0 && c.id != "nobody@mute.one" {
				l = append(l, c.id)
			}
		}
		if len(l) == 0 {
			return
		}
		sort.Strings(l)
		var to *uNym
		for j := r.Range(1, 3); j > 0; j-- {
			id := l[r.Choose(len(l))]
			to = w.nymOf(id)
			w.msgAdd(n, id, to)
		}
		w.msgSend(u, one())
		if len(w.mix.queue) > 0 {
			w.relaySome()
		}
		if to != nil && !to.gone {
			w.msgFetch(to.u, nil)
		}
	}
}

// rekey changes the passphrase of a user.
func (w *uWorld) rekey(u *uUser) {
	r := w.r
	r.Op("db rekey")
	w.rekeys++
	old, new, again := u.pass, fmt.Sprintf("passphrase %d", w.rekeys), ""
	again = new
	kind := r.Weighted(6, 1, 1)
	switch kind {
	case 1:
		again += "x"
	case 2:
		old += "x"
	}
	var true_ [2][]byte
	files := [2]string{filepath.Join(u.dir, "msgs.key"), filepath.Join(u.dir, "keys.key")}
	opens := func(i int, pass string) bool {
		k, err := encdb.ReadKeyfile(files[i], []byte(pass))
		return err == nil && bytes.Equal(k, true_[i])
	}
	for i := range files {
		k, err := encdb.ReadKeyfile(files[i], []byte(u.pass))
		if err != nil {
			panic(err)
		}
		true_[i] = k
	}
	b := u.st
	run := func(faults bool) vResult {
		w.m.plan = vPlan{}
		w.m.key = "dbrekey"
		if faults && w.faults && w.faultNum > 0 {
			w.m.choosePlan(w.faultNum, w.faultDen, true, "dbrekey")
		}
		w.passes = []string{old, new, again}
		res := w.ctl(u, "", "db", "rekey", "--iterations", "1")
		w.passes = nil
		return res
	}
	r.Eval("C22")
	res := run(true)
	if w.m.stuck {
		r.Stop()
	}
	var is [2]bool // the new one
	for i := range files {
		o, n := opens(i, u.pass), opens(i, new)
		if !r.Check(o != n, "C22", "unreadable", "after a change of the passphrase of %s %d of 2 passphrases open %s", u.name, map[bool]int{true: 2}[o && n], filepath.Base(files[i])) {
			r.Stop()
		}
		is[i] = n
	}
	none, all := !is[0] && !is[1], is[0] && is[1]
	switch {
	case kind != 0:
		r.Check(!res.ok() && none, "C22", "rekey-refused", "db rekey with wrong passphrases succeeds (%v) or changes something (%v)", res.ok(), is)
	case res.ok():
		r.Counter["rekeyed"]++
		r.Check(all, "C22", "rekey-nothing", "db rekey of %s succeeds, but the passphrase is changed for %v", u.name, is)
	case !res.crashed && !res.faulted:
		r.Fail("C22", "rekey-fails", "db rekey of %s fails: %s", u.name, vClip(res.errs))
	case !none && !all:
		// half of it is done, the user does it again
		r.Counter["rekey-interrupted"]++
		res = run(false)
		r.Check(res.ok() && opens(0, new) && opens(1, new), "C22", "locked-out", "a change of the passphrase of %s was interrupted, and then it can not be completed: %s", u.name, vClip(res.errs))
		all = true
	}
	if r.Viol != nil {
		r.Stop()
	}
	if all {
		u.pass = new
	}
	a, err := u.load()
	if err != nil {
		r.Fail("C22", "unreadable", "after a change of the passphrase the message database of %s is unreadable: %v", u.name, err)
		r.Stop()
	}
	u.st = a
	w.frame(b, a, "")
}

// strange: a command for a nym the user does not have, or not anymore.
func (w *uWorld) strange(u *uUser, own *uNym, ids []string) {
	r := w.r
	id := ids[r.Choose(len(ids))]
	if r.Bool(1, 4) {
		id = "nobody.else@mute.one"
	}
	if n := w.nymOf(id); n != nil && n.u == u && !n.gone {
		return
	}
	typed := w.alias(id)
	peer := ids[r.Choose(len(ids))]
	num := fmt.Sprint(r.Range(1, 12))
	cmds := [][]string{
		{"msg", "add", "--from", typed, "--to", peer},
		{"msg", "send", "--id", typed},
		{"msg", "fetch", "--id", typed},
		{"msg", "list", "--id", typed},
		{"msg", "read", "--id", typed, "--msgnum", num},
		{"msg", "delete", "--id", typed, "--msgnum", num},
		{"contact", "add", "--id", typed, "--contact", peer},
		{"contact", "edit", "--id", typed, "--contact", peer, "--full-name", "X"},
		{"contact", "remove", "--id", typed, "--contact", peer},
		{"contact", "block", "--id", typed, "--contact", peer},
		{"contact", "unblock", "--id", typed, "--contact", peer},
		{"contact", "list", "--id", typed},
		{"contact", "blacklist", "--id", typed},
		{"uid", "edit", "--id", typed, "--full-name", "X"},
		{"uid", "switch", "--id", typed},
		{"uid", "delete", "--force", "--id", typed},
		{"upkeep", "accounts", "--id", typed, "--period", "0s", "--remaining", "9000h"},
		{"upkeep", "all", "--id", typed, "--period", "0s"},
	}
	c := cmds[r.Choose(len(cmds))]
	if c[0] == "msg" && c[1] == "fetch" && len(u.st.in) > 0 {
		return // what an interrupted fetch left in the inqueue is processed first
	}
	r.Op("strange nym")
	b, a, res := w.do(u, "a body\n", c...)
	w.exact("C22", "strange-nym", res, b, a, b, true)
}

// settle: without further faults everything gets through.
func (w *uWorld) settle() {
	r := w.r
	r.Logf("settle")
	w.faults = false
	simos.Flush()
	var sendErr, fetchErr map[string]string
	for round := 0; round < 9; round++ {
		if round == 4 || len(w.mix.later) == 0 {
			// the mix accepts everything now
			w.mix.later, w.mix.defers = map[string]bool{}, 0
			for _, m := range w.msgs {
				m.later = false
			}
		}
		sendErr, fetchErr = map[string]string{}, map[string]string{}
		for _, u := range w.users {
			if res := w.msgSend(u, nil); !res.ok() {
				sendErr[u.name] = res.errs
			}
		}
		for len(w.mix.queue) > 0 {
			w.relay(0)
		}
		time.Sleep(time.Minute)
		for _, u := range w.users {
			if res := w.msgFetch(u, nil); !res.ok() {
				fetchErr[u.name] = res.errs
			}
		}
		if len(sendErr) == 0 && len(fetchErr) == 0 && len(w.mix.later) == 0 {
			break
		}
	}
	for _, u := range w.users {
		if e := sendErr[u.name]; e != "" {
			r.Fail("C19", "send-blocked", "msg send --all of %s keeps failing: %s", u.name, vClip(e))
		}
		if e := fetchErr[u.name]; e != "" {
			r.Fail("C21", "fetch-blocked", "msg fetch --all of %s keeps failing: %s", u.name, vClip(e))
		}
	}
	if len(sendErr)+len(fetchErr) > 0 {
		return
	}
	r.Eval("C18")
	r.Eval("C19")
	for _, m := range w.msgs {
		switch {
		case m.deleted:
		case m.accepted == 0:
			r.Fail("C19", "never-sent", "%s never reached the mix", m)
		case m.to == nil || m.to.gone || m.dropped || m.seen > 0:
		case m.boxed == 0:
			r.Fail("C18", "lost-mix", "%s was accepted by the mix, but never delivered", m)
		}
	}
	r.Counter["messages"] += len(w.msgs)
}

// pause lets so much time pass that all nym addresses expire which users know
// of each other: messages to a contact of old cannot be sent, but they must not
// keep the messages to a new contact from being sent.
func (w *uWorld) pause() {
	r := w.r
	var ns []*uNym
	for _, u := range w.users {
		for _, n := range u.nyms {
			for _, c := range u.st.contacts {
				if p := w.nymOf(c.id); !n.gone && c.nym == n.row && c.list == 0 && p != nil && !p.gone {
					ns = append(ns, n)
					break
				}
			}
		}
	}
	if len(ns) == 0 || len(w.users) < 2 {
		return
	}
	n := ns[r.Choose(len(ns))]
	var old []string
	for _, c := range n.u.st.contacts {
		if p := w.nymOf(c.id); c.nym == n.row && c.list == 0 && p != nil && !p.gone {
			old = append(old, c.id)
		}
	}
	sort.Strings(old)
	r.Logf("long pause")
	r.Counter["long-pauses"]++
	time.Sleep(time.Duration(r.Range(31*24, 40*24)) * time.Hour)
	if err := w.mix.kl.AddKey(); err != nil {
		panic(err)
	}
	for _, u := range w.bank.usages {
		is := w.bank.issuers[u]
		is.newKey()
		w.bank.addKey(is)
	}
	stale := 0
	for i := r.Range(1, 2); i > 0; i-- {
		k, id := len(w.msgs), old[r.Choose(len(old))]
		w.msgAdd(n, id, w.nymOf(id))
		for _, m := range w.msgs[k:] {
			m.later = true
			stale++
		}
	}
	o := w.users[r.Choose(len(w.users))]
	for o == n.u {
		o = w.users[r.Choose(len(w.users))]
	}
	if r.Bool(1, 2) {
		w.msgSend(n.u, nil)
	}
	id := "fresh@mute.one"
	w.uidNew(o, id)
	to := w.nymOf(id)
	if to == nil {
		return
	}
	w.contactOp(n, "add", id)
	k := len(w.msgs)
	for i := 0; i < 5 && len(w.msgs) == k; i++ {
		w.msgAdd(n, id, to)
	}
	if len(w.msgs) == k {
		return
	}
	m := w.msgs[k]
	res := w.msgSend(n.u, nil)
	r.Check(m.accepted > 0, "C19", "expired-blocks", "%s is not sent (%s) after %d messages for which there is no valid address", m, vClip(res.errs), stale)
	for len(w.mix.queue) > 0 {
		w.relay(0)
	}
	w.msgFetch(o, nil)
	r.Check(m.accepted == 0 || m.seen > 0, "C18", "lost", "%s was delivered, but msg fetch of %s does not bring it", m, o.name)
}

var _ = bytes.Equal
