//go:build go1.25

package worlds

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"time"

	"github.com/mutecomm/mute/configclient"
	"github.com/mutecomm/mute/def"
)

// Upkeep: the configuration and the accounts.

// uPub is a configuration which was published.
type uPub struct {
	date uint64
	m    string
}

func canonMap(m map[string]string) string {
	b, err := json.Marshal(m)
	if err != nil {
		panic(err)
	}
	return string(b)
}

// conf judges a stored configuration and returns its date.
func (w *uWorld) conf1(u *uUser, what string, jsn []byte) uint64 {
	var c configclient.Config
	if err := json.Unmarshal(jsn, &c); err != nil {
		w.r.Fail("C27", "config-broken", "the configuration in %s of %s is broken: %v", what, u.name, err)
		return 0
	}
	p, ok := w.pubs[c.LastSignDate]
	if !ok || p != canonMap(c.Map) {
		w.r.Fail("C27", "config-foreign", "the configuration in %s of %s, dated %d, was never published", what, u.name, c.LastSignDate)
		return 0
	}
	return c.LastSignDate
}

// confCheck checks the stored configurations of a user after a command.
func (w *uWorld) confCheck(u *uUser, b, a *uState, res vResult, online bool) {
	r := w.r
	net, _, _ := def.ConfigParams()
	r.Eval("C27")
	var kv, file uint64
	if v := a.kv[net]; v != "" {
		kv = w.conf1(u, "the database", []byte(v))
	}
	jsn, err := os.ReadFile(filepath.Join(u.dir, "config", net))
	switch {
	case err == nil:
		file = w.conf1(u, "the file", jsn)
	case !os.IsNotExist(err):
		panic(err)
	}
	if r.Viol != nil {
		return
	}
	r.Check(kv >= u.kvDate, "C27", "config-older", "the configuration in the database of %s went back from %d to %d", u.name, u.kvDate, kv)
	r.Check(file >= u.fileDate, "C27", "config-older", "the configuration file of %s went back from %d to %d", u.name, u.fileDate, file)
	u.kvDate, u.fileDate = kv, file
	var t, was int64
	fmt.Sscan(a.kv["time."+net], &t)
	if b != nil {
		fmt.Sscan(b.kv["time."+net], &was)
	}
	if t != was {
		// a fetch is complete
		r.Counter["config-fetched"]++
		now := time.Now().Unix()
		r.Check(t >= w.cmdStart && t <= now, "C27", "config-time", "a fetch at %d..%d is recorded for %d", w.cmdStart, now, t)
		r.Check(kv == w.served && file == w.served, "C27", "config-time-early",
			"%s has recorded a fetch, but the configuration of %d is not stored (database %d, file %d)", u.name, w.served, kv, file)
	}
	if online && res.ok() {
		r.Check(t >= w.cmdStart-int64(def.FetchconfMinDuration.Seconds()), "C27", "config-stale", "a command of %s used a configuration fetched %d s before", u.name, w.cmdStart-t)
		r.Check(kv != 0 && file != 0, "C27", "config-missing", "a command of %s succeeds without a stored configuration", u.name)
	}
}

// spentTokens returns the number of tokens in the wallet which a service has
// taken already.
func (w *uWorld) spentTokens(s *uState, usage string) (n int) {
	for h, u := range s.tokens {
		if u == usage && w.bank.spent[h] == "the account server" {
			n++
		}
	}
	return n
}

func (w *uWorld) allPaid() (n int) {
	for _, a := range w.byKey {
		n += a.paid
	}
	return n
}

// upkeep performs a maintenance command.
func (w *uWorld) upkeep(u *uUser, n *uNym) {
	r := w.r
	switch r.Weighted(5, 4, 2, 1, 2) {
	case 0:
		w.upkeepAccounts(n, "accounts")
	case 1:
		w.upkeepAccounts(n, "all")
	case 2: // fetchconf
		r.Op("upkeep fetchconf")
		if r.Bool(1, 2) {
			w.conf["verif.extra"] = fmt.Sprint(r.Choose(1000))
			time.Sleep(time.Second)
			w.publish()
		}
		args := []string{"upkeep", "fetchconf"}
		show := r.Bool(1, 2)
		if show {
			args = append(args, "--show")
		}
		b, a, res := w.do(u, "", args...)
		w.frame(b, a, "")
		if !res.ok() {
			if !res.crashed && !res.faulted {
				r.Fail("C27", "fetchconf-fails", "upkeep fetchconf fails: %s", vClip(res.errs))
			}
			return
		}
		net, _, _ := def.ConfigParams()
		var t int64
		fmt.Sscan(a.kv["time."+net], &t)
		r.Check(t >= w.cmdStart, "C27", "fetchconf-nothing", "upkeep fetchconf of %s succeeds without having fetched anything", u.name)
		if show {
			var c configclient.Config
			err := json.Unmarshal([]byte(res.out), &c)
			r.Check(err == nil && canonMap(c.Map) == w.pubs[u.kvDate], "C27", "fetchconf-shows", "upkeep fetchconf shows something else than the configuration")
		}
	case 3:
		r.Op("upkeep hashchain")
		b, a, res := w.do(u, "", "upkeep", "hashchain", "--domain", "mute.one")
		w.frame(b, a, "")
		if !res.ok() && !res.crashed && !res.faulted {
			r.Fail("C27", "hashchain-fails", "upkeep hashchain fails: %s", vClip(res.errs))
		}
	case 4:
		w.offline(u, n)
	}
}

// offline shows something without a network.
func (w *uWorld) offline(u *uUser, n *uNym) {
	r := w.r
	r.Op("offline")
	if r.Bool(1, 3) {
		d := []time.Duration{time.Hour, 23 * time.Hour, 25 * time.Hour, 100 * time.Hour, 170 * time.Hour}[r.Choose(5)]
		time.Sleep(d)
	}
	args := [][]string{{"contact", "list", "--id", n.id}, {"msg", "list", "--id", n.id}, {"uid", "list"}}[r.Choose(3)]
	w.isOffline = true
	w.nets = 0
	b, a, res := w.do(u, "", args...)
	nets := w.nets
	w.isOffline = false
	r.Check(nets == 0, "C27", "offline-network", "mutectrl --offline %s used the network", strings.Join(args, " "))
	w.frame(b, a, "")
	net, _, _ := def.ConfigParams()
	var t int64
	fmt.Sscan(b.kv["time."+net], &t)
	old := w.cmdStart - t
	max := int64(def.FetchconfMaxDuration.Seconds())
	switch {
	case b.kv[net] == "" || old > max+60:
		r.Check(!res.ok(), "C27", "offline-outdated", "mutectrl --offline works with a configuration fetched %d s ago", old)
		r.Counter["offline-refused"]++
	case old < max-60:
		r.Counter["offline"]++
		if !res.ok() && !res.crashed && !res.faulted {
			r.Fail("C27", "offline-fails", "mutectrl --offline %s fails with a configuration fetched %d s ago: %s", strings.Join(args, " "), old, vClip(res.errs))
		}
	}
}

// upkeepAccounts pays for an account, if that is necessary.
func (w *uWorld) upkeepAccounts(n *uNym, what string) vResult {
	r := w.r
	r.Op("upkeep " + what)
	period := []string{"0s", "1h", "24h", "168h"}[r.Weighted(4, 2, 2, 1)]
	remaining := "2160h"
	args := []string{"upkeep", what, "--id", w.alias(n.id), "--period", period}
	if what == "accounts" && r.Bool(4, 5) {
		remaining = []string{"1h", "8700h", "8770h", "9000h", "17600h", "26400h", "35200h"}[r.Choose(7)]
		args = append(args, "--remaining", remaining)
	}
	return w.upkeepRun(n, what, period, remaining, args)
}

func (w *uWorld) upkeepRun(n *uNym, what, period, remaining string, args []string) vResult {
	r, u := w.r, n.u
	time.Sleep(2 * time.Second)
	paid0, all0 := n.ac.paid, w.allPaid()
	loaded0 := n.ac.loaded
	b, a, res := w.do(u, "", args...)
	now := time.Now().Unix()
	r.Eval("C27")
	w.frame(b, a, "nym account")
	paid := n.ac.paid - paid0
	r.Counter["account-payments"] += paid
	r.Check(w.allPaid()-all0 == paid, "C27", "paid-other", "upkeep for %s pays for another account", n)

	// the reference
	p, _ := time.ParseDuration(period)
	rem, _ := time.ParseDuration(remaining)
	when := func(past, t int64) bool { return p == 0 || past == 0 || past+int64(p.Seconds()) <= t }
	br, ar := b.nyms[n.row], a.nyms[n.row]
	due := func(t int64) bool {
		return (what != "all" || when(br.all, t)) && when(br.accounts, t)
	}
	key := [2]int64{n.row, 0}
	ba, aa := b.accounts[key], a.accounts[key]
	last := loaded0
	need := func(t int64) bool { return t+int64(rem.Seconds()) >= last }
	clear := due(w.cmdStart) == due(now) && need(w.cmdStart) == need(now)

	// the frame
	for i, x := range b.nyms {
		y := a.nyms[i]
		if i == n.row {
			y.all, y.accounts = x.all, x.accounts
		}
		r.Check(x == y, "C27", "frame", "upkeep for %s changed the nym %s", n, x.id)
	}
	r.Check(len(a.nyms) == len(b.nyms) && len(a.accounts) == len(b.accounts), "C27", "frame", "upkeep for %s adds or removes a nym or an account", n)
	for i, x := range b.accounts {
		y := a.accounts[i]
		if o := w.nymByRow(u, i[0]); i == key || o != nil && y.loaded == o.ac.loaded {
			y.loaded = x.loaded
		}
		r.Check(x == y, "C27", "frame", "upkeep for %s changed an account", n)
	}
	r.Check(aa.loaded == ba.loaded || aa.loaded == loaded0 || aa.loaded == n.ac.loaded, "C27", "load-time", "upkeep for %s stores the load time %d, which the account never had", n, aa.loaded)
	if paid > 0 {
		r.Check(paid == 1, "C27", "paid-twice", "one upkeep for %s pays %d times", n, paid)
		if !due(now) {
			r.Fail("C27", "paid-not-due", "upkeep for %s, which is not due, pays for the account", n)
		} else if !need(now) {
			r.Fail("C27", "paid-early", "upkeep for %s pays although the account is paid until %d, it is %d and %s remaining are wanted", n, last, now, remaining)
		}
	}
	recorded := func(name string, was, is int64) bool {
		if was == is {
			return false
		}
		r.Check(is >= w.cmdStart && is <= now, "C27", "recorded-time", "upkeep %s at %d..%d is recorded for %d", name, w.cmdStart, now, is)
		return true
	}
	ra, rl := recorded("accounts", br.accounts, ar.accounts), recorded("all", br.all, ar.all)
	r.Check(!rl || what == "all", "C27", "recorded-all", "upkeep accounts is recorded as upkeep all")
	if rl && clear && when(br.accounts, now) {
		r.Check(ra, "C27", "recorded-not-done", "upkeep all for %s is recorded as done, but upkeep accounts is not", n)
	}
	if clear {
		d := due(now)
		done := !need(now) || paid == 1 && aa.loaded == n.ac.loaded
		if ra {
			r.Check(d, "C27", "recorded-not-due", "upkeep accounts for %s is recorded, but was not due", n)
			r.Check(done, "C27", "recorded-not-done", "upkeep accounts for %s is recorded as done, but is not (paid %d times)", n, paid)
		}
		if rl && when(br.accounts, now) {
			r.Check(done, "C27", "recorded-not-done", "upkeep all for %s is recorded as done, but is not (paid %d times)", n, paid)
		}
		if res.ok() {
			if d && !res.faulted {
				r.Counter["upkeep-done"]++
				r.Check(ra, "C27", "not-recorded", "upkeep accounts for %s is done, but not recorded", n)
			}
			if d {
				r.Check(done, "C27", "not-done", "upkeep %s for %s succeeds, but the account is not paid for (paid %d times)", what, n, paid)
			}
			if what == "all" && when(br.all, w.cmdStart) {
				r.Check(rl, "C27", "not-recorded", "upkeep all for %s is done, but not recorded", n)
			}
		}
	}
	if k := w.spentTokens(a, "account"); k > 0 && res.ok() && clear && due(now) {
		r.Fail("C27", "spent-token", "a token %s paid with is still in the wallet after an upkeep for %s", u.name, n)
	} else if k > 0 {
		r.Counter["payment-interrupted"]++
	}
	if !res.ok() && !res.crashed && !res.faulted {
		r.Fail("C27", "upkeep-fails", "upkeep %s for %s fails: %s", what, n, vClip(res.errs))
	}
	return res
}

// upkeepSettle: without faults upkeep gets done, and new versions are
// announced.
func (w *uWorld) upkeepSettle() {
	r := w.r
	for _, u := range w.users {
		for _, n := range u.nyms {
			if n.gone {
				continue
			}
			ok := false
			for i := 0; i < 3 && !ok; i++ {
				res := w.upkeepRun(n, "accounts", "0s", "26400h", []string{"upkeep", "accounts", "--id", n.id, "--period", "0s", "--remaining", "26400h"})
				ok = res.ok()
			}
			r.Check(ok, "C27", "blocked", "upkeep accounts for %s keeps failing", n)
		}
	}
	// a new release
	u := w.users[0]
	bin, err := time.Parse(gitDate, w.conf["release.Date"])
	if err != nil {
		panic(err)
	}
	d := []time.Duration{-time.Hour, def.UpdateDuration - time.Hour, def.UpdateDuration + time.Hour}[r.Choose(3)]
	w.conf["release.Commit"] = "0123456789012345678901234567890123456789"
	w.conf["release.Date"] = bin.Add(d).Format(gitDate)
	time.Sleep(time.Second)
	w.publish()
	if r.Bool(1, 2) {
		time.Sleep(25 * time.Hour) // the program fetches it by itself
	} else {
		_, _, res := w.do(u, "", "upkeep", "fetchconf")
		r.Check(res.ok(), "C27", "fetchconf-fails", "upkeep fetchconf fails: %s", vClip(res.errs))
	}
	_, _, res := w.do(u, "", "uid", "list")
	what := map[bool]string{true: "works", false: "refuses"}
	r.Check(res.ok() == (d < def.UpdateDuration), "C27", "outdated-software", "with a release %v newer than the program it %s: %s", d, what[res.ok()], vClip(res.errs))
}

const gitDate = "Mon Jan _2 15:04:05 2006 -0700"

func (w *uWorld) nymByRow(u *uUser, row int64) *uNym {
	for _, n := range u.nyms {
		if !n.gone && n.row == row {
			return n
		}
	}
	return nil
}
