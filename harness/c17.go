//go:build verifmc && verifhooks

package main

import (
	"bytes"
	"compress/gzip"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
)

func init() {
	register(&Prop{ID: "C17", Level: "fault_enumeration",
		Rule:        "the real download commands against a scripted bank (in-process HTTP server behind the default transport, clock owned): every size, spacing and burst of the paging table; every sequence of bank changes up to the stated depth with a run behind each; every request of every scenario failing in each of the ways of the failure table (refused, reset, status codes, cut short, empty, null, malformed, wrong types), pairs of failures and failures of file operations, followed by a run without failures. States: distinct state files; transitions: requests served",
		Assumptions: []string{"the bank gives the oldest transactions from the given moment on (inclusive or exclusive), at most 100, in any order; it may refuse everything older than 90 days", "time stamps of one bank are in UTC; Nordigen tokens are renewed with the secret and outlive a run"},
		Run:         runC17})
}

func gunzip(b []byte) []byte {
	r, err := gzip.NewReader(bytes.NewReader(b))
	if err != nil {
		panic(failure{"", "the state file is no gzip file: " + err.Error()})
	}
	d, err := io.ReadAll(r)
	if err != nil {
		panic(failure{"", "the state file is cut short: " + err.Error()})
	}
	return d
}

const stamp = "2006-01-02T15:04:05.000Z"

// ---- Monzo

// stamp writes the time of creation in one of the ways that RFC 3339 has.
func (m mtrans) stamp() string {
	if strings.HasPrefix(m.id, "u") {
		return m.created.UTC().Format(stamp)
	}
	sum := 0
	for _, c := range m.id {
		sum += int(c)
	}
	switch sum % 5 {
	case 1:
		return m.created.In(time.FixedZone("", 3600)).Format("2006-01-02T15:04:05.000-07:00")
	case 2:
		return m.created.UTC().Format(time.RFC3339Nano)
	case 3:
		return m.created.In(time.FixedZone("", -9*3600-1800)).Format(time.RFC3339Nano)
	}
	return m.created.UTC().Format(stamp)
}

type mtrans struct {
	id      string
	created time.Time
	version int
}

func (m mtrans) obj(acct string) obj {
	return obj{"id": m.id, "created": m.stamp(), "account_id": acct, "amount": float64(-100 * (m.version + 1)), "merchant": bankText}
}

// bankText is what a bank may say of anything.
var bankText = map[string]interface{}{"name": "  Shop \t é\u2028 <&>\"\\\n\x00  ", "": nil, "none": []interface{}{}, "list": []interface{}{nil, false, 0.0, -1.25, 9007199254740991.0, "  ", map[string]interface{}{}}}

type macct struct {
	id      string
	version int
	trans   []mtrans // by creation

	unlisted bool // not among the accounts the bank gives
}

type monzo struct {
	accts     []*macct
	token     string
	refresh   string
	tokens    int
	sca       bool // refuses what is older than 90 days
	exclusive bool
	order     int // of what a page has: 0 oldest first, 1 newest first, 2 mixed
	lifetime  int // seconds a token lives
	expires   time.Time
	sameToken bool
	renewals  int
}

func newMonzo() *monzo { return &monzo{token: "tok0", refresh: "ref0", lifetime: 3600} }

func (b *monzo) find(id string) *macct {
	for _, a := range b.accts {
		if a.id == id {
			return a
		}
	}
	return nil
}

func (a *macct) add(ts ...mtrans) {
	a.trans = append(a.trans, ts...)
	sort.SliceStable(a.trans, func(i, j int) bool { return a.trans[i].created.Before(a.trans[j].created) })
}

func clientOK(r *http.Request, form url.Values) bool {
	if u, p, ok := r.BasicAuth(); ok {
		return u == "cid" && p == "sec"
	}
	return form.Get("client_id") == "cid" && form.Get("client_secret") == "sec"
}

func (b *monzo) serve(r *http.Request, form url.Values) reply {
	deny := func(status int) reply { return reply{status: status, body: `{"code":"unauthorized"}`} }
	if r.URL.Host != "" && r.URL.Host != "api.monzo.com" || r.Host != "api.monzo.com" {
		return deny(404)
	}
	if r.URL.Path == "/oauth2/token" {
		if r.Method != "POST" || form.Get("grant_type") != "refresh_token" || form.Get("refresh_token") != b.refresh || !clientOK(r, form) {
			return deny(401)
		}
		b.renewals++
		if !b.sameToken {
			b.tokens++
			b.token = fmt.Sprintf("tok%d", b.tokens)
			b.refresh = fmt.Sprintf("ref%d", b.tokens)
		}
		b.expires = bankNow().Add(time.Duration(b.lifetime) * time.Second)
		return reply{status: 200, body: obj{"access_token": b.token, "refresh_token": b.refresh, "token_type": "Bearer", "expires_in": b.lifetime}.json()}
	}
	if r.Method != "GET" || r.Header.Get("Authorization") != "Bearer "+b.token || !b.expires.IsZero() && bankNow().After(b.expires) {
		return deny(401)
	}
	switch r.URL.Path {
	case "/ping/whoami":
		return reply{status: 200, body: `{"authenticated":true,"client_id":"cid","user_id":"me"}`}
	case "/accounts":
		list := []interface{}{}
		for _, a := range b.accts {
			if a.unlisted {
				continue
			}
			list = append(list, map[string]interface{}{"id": a.id, "description": fmt.Sprint("account ", a.version)})
		}
		return reply{status: 200, body: canon(map[string]interface{}{"accounts": list})}
	case "/transactions":
		q := r.URL.Query()
		a := b.find(q.Get("account_id"))
		if a == nil {
			return deny(404)
		}
		var since time.Time
		if s := q.Get("since"); s != "" {
			var err error
			if since, err = time.Parse(time.RFC3339, s); err != nil {
				return deny(400)
			}
		}
		if b.sca && since.Before(bankNow().Add(-90*24*time.Hour)) {
			return deny(403)
		}
		limit := 30
		if l := q.Get("limit"); l != "" {
			n, err := strconv.Atoi(l)
			if err != nil || n < 1 || n > 100 {
				return deny(400)
			}
			limit = n
		}
		list := []interface{}{}
		for _, t := range a.trans {
			if t.created.Before(since) || b.exclusive && !t.created.After(since) || len(list) >= limit {
				continue
			}
			list = append(list, map[string]interface{}(t.obj(a.id)))
		}
		switch n := len(list); b.order {
		case 1:
			for i := 0; i < n/2; i++ {
				list[i], list[n-1-i] = list[n-1-i], list[i]
			}
		case 2:
			for i := 0; i+1 < n/2; i += 2 {
				list[i], list[n-1-i] = list[n-1-i], list[i]
			}
			if n > 1 {
				list[n-1], list[n/3] = list[n/3], list[n-1]
			}
		}
		return reply{status: 200, body: canon(map[string]interface{}{"transactions": list})}
	}
	return deny(404)
}

// crowded tells that a window of 61 seconds has 100 or more transactions (the bank's paging cannot be trusted
// to get past them).
func (b *monzo) crowded() bool {
	for _, a := range b.accts {
		for i := 0; i+99 < len(a.trans); i++ {
			if a.trans[i+99].created.Sub(a.trans[i].created) <= 61*time.Second {
				return true
			}
		}
	}
	return false
}

// held is what a state file has: canonical texts by kind and id.
type held map[string]map[string]string

func (h held) key() string {
	var ks []string
	for k, m := range h {
		for i, v := range m {
			ks = append(ks, k+"/"+i+"="+v)
		}
	}
	sort.Strings(ks)
	return strings.Join(ks, "\n")
}

// bankData describes what a bank has at the end of a run.
type bankData struct {
	all  held // newest version of everything
	want held // what a successful run must have
}

func (b *monzo) data(from time.Time) bankData {
	d := bankData{held{"accounts": {}, "transactions": {}}, held{"accounts": {}, "transactions": {}}}
	for _, a := range b.accts {
		x := obj{"id": a.id, "description": fmt.Sprint("account ", a.version)}.json()
		d.all["accounts"][a.id] = x
		if !a.unlisted {
			d.want["accounts"][a.id] = x
		}
		for _, t := range a.trans {
			x := t.obj(a.id).json()
			d.all["transactions"][t.id] = x
			if !a.unlisted && !t.created.Before(from) {
				d.want["transactions"][t.id] = x
			}
		}
	}
	return d
}

func monzoHeld(fn string) held {
	v, _ := readJSON(fn)
	return held{"accounts": strs(v, "accounts"), "transactions": strs(v, "transactions")}
}

// judgeRun compares the state file before and after a run with the bank's data.
func judgeRun(t *T, before, after held, d bankData, ok bool, what func() string) {
	for kind, m := range before {
		for id, old := range m {
			now, there := after[kind][id]
			if !there {
				t.Failf("%s %s was stored before and is gone: %s", kind, id, what())
			}
			if now != old && now != d.all[kind][id] {
				t.Failf("%s %s was %s, is %s, at the bank %s: %s", kind, id, clip(old, 200), clip(now, 200), clip(d.all[kind][id], 200), what())
			}
		}
	}
	for kind, m := range after {
		for id, now := range m {
			if _, there := before[kind][id]; !there && now != d.all[kind][id] {
				t.Failf("%s %s is stored as %s, at the bank %s: %s", kind, id, clip(now, 200), clip(d.all[kind][id], 200), what())
			}
		}
	}
	if !ok {
		return
	}
	for kind, m := range d.want {
		for id, now := range m {
			if after[kind][id] != now {
				t.Failf("success is reported, but %s %s is stored as %q, at the bank %s: %s", kind, id, clip(after[kind][id], 200), clip(now, 200), what())
			}
		}
	}
}

const bankConf = `
[Download.Monzo]
ClientID = "cid"
ClientSecret = "sec"
[Download.Starling]
PersonalAccessToken = "pat"
[Download.Nordigen]
ClientID = "nid"
ClientSecret = "nsec"
`

type c17 struct {
	w    *W
	t    *T
	file string
	base time.Time

	stdin       string
	storeFailed bool
}

// begin prepares a case: an own stretch of time and an empty directory.
func (w *W) c17begin(t *T, name string) *c17 {
	dir := filepath.Join(w.Scratch, "c17")
	os.RemoveAll(dir)
	c := &c17{w: w, t: t, file: filepath.Join(dir, name)}
	c.base = time.Date(2001, 1, 1, 0, 0, 0, 0, time.UTC).Add(time.Duration(t.idx) * time.Hour)
	if last := bankNow().Add(time.Hour); last.After(c.base) {
		c.base = last
	}
	bankStep = 0
	startBankClock(c.base)
	if c.base.Year() > 2250 {
		panic("harness: out of time")
	}
	return c
}

// put writes a state file.
func (c *c17) put(v interface{}) {
	os.MkdirAll(filepath.Dir(c.file), 0755)
	b := []byte(canon(v))
	if strings.HasSuffix(c.file, ".gz") {
		var buf bytes.Buffer
		g := gzip.NewWriter(&buf)
		g.Write(b)
		g.Close()
		b = buf.Bytes()
	}
	if err := os.WriteFile(c.file, b, 0644); err != nil {
		panic("harness: " + err.Error())
	}
}

func (c *c17) run(nr *netRun, args ...string) cliOut {
	nr.install()
	var out cliOut
	c.storeFailed = storing(func() {
		out = c.w.cliIn(bankConf, c.stdin, append(append([]string{"download"}, args...), c.file)...)
	})
	c.t.Trans(int64(nr.n))
	return out
}

// mustFail tells that an injected failure leaves the run no way to succeed.
func (nr *netRun) mustFail() bool {
	for i := range nr.hit {
		k := nr.faults[i]
		if nr.kinds[i] == "/oauth2/token" {
			continue // the library may try in another way
		}
		for _, f := range netFaults {
			if f.kind == k && f.must {
				return true
			}
		}
	}
	return false
}

func mtok(b *monzo, expiry time.Time) map[string]interface{} {
	m := map[string]interface{}{"access_token": b.token, "refresh_token": b.refresh, "token_type": "Bearer"}
	if !expiry.IsZero() {
		m["expiry"] = expiry.UTC().Format(time.RFC3339Nano)
	}
	return m
}

func tokenOf(fn string) string {
	v, _ := readJSON(fn)
	m, _ := v["token"].(map[string]interface{})
	return fmt.Sprint(m["access_token"], "/", m["refresh_token"])
}

// monzoRun runs the program and judges the run.
func (c *c17) monzoRun(b *monzo, faults map[int]string, what string) (ok bool, nr *netRun) {
	issued := map[int]string{}
	nr = &netRun{faults: faults}
	nr.right = func(r *http.Request, form url.Values) reply {
		n := b.renewals
		rep := b.serve(r, form)
		if b.renewals > n {
			issued[nr.n-1] = b.token + "/" + b.refresh
		}
		return rep
	}
	before := monzoHeld(c.file)
	tokBefore := tokenOf(c.file)
	from := time.Time{}
	out := c.run(nr, "monzo")
	ok = out.err == nil
	describe := func() string { return fmt.Sprintf("%s; error %v; requests %v", what, out.err, nr.log) }
	if nr.over {
		c.t.Failf("the run does not end: %s", describe())
	}
	if b.sca {
		from = bankNow().Add(-89 * 24 * time.Hour)
	}
	refused := false // everything, or what is older than 89 days
	for i := range nr.hit {
		if nr.faults[i] == "403" && nr.kinds[i] == "/transactions" {
			refused = true
			if nr.since[i] {
				continue // of what is left to get
			}
			from = bankNow().Add(-89 * 24 * time.Hour)
		}
	}
	if ok && nr.mustFail() && !refused {
		c.t.Failf("success is reported: %s", describe())
	}
	if !ok && len(nr.hit) == 0 && !b.crowded() && !c.storeFailed {
		c.t.Failf("failure is reported: %s", describe())
	}
	after := monzoHeld(c.file)
	judgeRun(c.t, before, after, b.data(from), ok, describe)
	tok := tokenOf(c.file)
	good := map[string]bool{tokBefore: true}
	for i := 0; i < nr.n; i++ {
		if tk, ok := issued[i]; ok {
			if !nr.hit[i] { // the token before is no longer valid
				good = map[string]bool{}
			}
			good[tk] = true
		}
	}
	if !good[tok] {
		c.t.Failf("token %s is stored; before %s; may be one of %v: %s", tok, tokBefore, good, describe())
	}
	c.t.State(after.key() + tok)
	if ok {
		c.t.Outcome("complete")
	} else {
		c.t.Outcome("error reported")
	}
	return ok, nr
}

func (w *W) monzoPaging() {
	w.Section("Monzo: paging")
	sizes := []int{0, 1, 2, 59, 60, 98, 99, 100, 101, 102, 139, 140, 141, 199, 200, 201, 260, 299, 300, 301}
	gaps := []time.Duration{0, 100 * time.Millisecond, 500 * time.Millisecond, 600 * time.Millisecond, 617 * time.Millisecond, time.Second, 1500 * time.Millisecond, 20 * time.Second, 59 * time.Second, time.Minute, 61 * time.Second, time.Hour, 7 * time.Hour, 26 * time.Hour}
	if w.Thorough {
		sizes = nil
		for n := 0; n <= 310; n += 1 {
			if n <= 2 || n >= 97 && n <= 103 || n >= 197 && n <= 203 || n%10 == 9 || n%10 == 0 {
				sizes = append(sizes, n)
			}
		}
		gaps = append(gaps, 610*time.Millisecond, 650*time.Millisecond, 700*time.Millisecond, 999*time.Millisecond, 10*time.Second, 90*time.Second)
	}
	for _, n := range sizes {
		for _, gap := range gaps {
			for _, burst := range []int{1, 2, 7, 39, 40, 41, -1} {
				pre := "acc"
				if burst < 0 { // all times are written in the same way
					pre, burst = "u", 1
					if n < 99 {
						continue
					}
				}
				for mode := 0; mode < 12; mode++ {
					if w.Done() {
						return
					}
					if mode >= 4 && n < 2 || !w.Thorough && mode >= 4 && (mode&3 == 1 || mode&3 == 2) {
						continue
					}
					if gap < time.Second && burst > 7 || gap > time.Minute && burst > 7 && !w.Thorough {
						continue
					}
					n, gap, burst, mode := n, gap, burst, mode
					w.Case(func() string {
						return fmt.Sprintf("%d transactions, groups of %d at once, %s apart; recent time excluded: %v; only 90 days: %v; order %d; accounts %s", n, burst, gap, mode&1 != 0, mode&2 != 0, mode>>2, pre)
					}, func(t *T) {
						name := "s.json"
						if n%2 == 1 {
							name = "s.json.gz"
						}
						c := w.c17begin(t, name)
						b := newMonzo()
						b.exclusive, b.sca, b.order = mode&1 != 0, mode&2 != 0, mode>>2
						for k, id := range []string{pre + "_a", pre + "_b"} {
							a := &macct{id: id}
							end := c.base.Add(-time.Duration(k) * 50 * time.Hour)
							m := n
							if k == 1 {
								m = 3
							}
							for i := 0; i < m; i++ {
								a.add(mtrans{fmt.Sprintf("%s_%03d", id, (i*77)%1000), end.Add(-gap*time.Duration((m-1-i)/burst) - time.Hour - 333*time.Millisecond), 0})
							}
							b.accts = append(b.accts, a)
						}
						c.put(map[string]interface{}{"token": mtok(b, time.Time{})})
						ok, _ := c.monzoRun(b, nil, "first run")
						t.Nontrivial(fmt.Sprint(n, gap, burst, mode))
						if ok {
							c.monzoRun(b, nil, "second run")
						}
					})
				}
			}
		}
	}
}

type bankOp struct {
	name string
	do   func()
}

func (b *monzo) changes(c *c17, serial *int) []bankOp {
	next := func() int { *serial++; return *serial }
	now := func(back time.Duration) mtrans {
		return mtrans{fmt.Sprintf("tx_%d", next()), bankNow().Add(-back), 0}
	}
	return []bankOp{
		{"nothing", func() {}},
		{"new transaction", func() {
			for _, a := range b.accts {
				a.add(now(time.Minute))
			}
		}},
		{"all change", func() {
			for _, a := range b.accts {
				a.version++
				for i := range a.trans {
					a.trans[i].version++
				}
			}
		}},
		{"oldest changes", func() {
			for _, a := range b.accts {
				if len(a.trans) > 0 {
					a.trans[0].version++
				}
			}
		}},
		{"new account", func() {
			a := &macct{id: fmt.Sprintf("acc_%d", next())}
			a.add(now(200*24*time.Hour), now(time.Hour))
			b.accts = append([]*macct{a}, b.accts...)
		}},
		{"101 new transactions", func() {
			if len(b.accts) > 0 {
				for i := 0; i < 101; i++ {
					b.accts[0].add(now(time.Duration(i+1) * 2 * time.Minute))
				}
			}
		}},
		{"late transaction", func() {
			for _, a := range b.accts {
				a.add(now(100 * 24 * time.Hour))
			}
		}},
		{"newest disappears", func() {
			for _, a := range b.accts {
				if n := len(a.trans); n > 0 {
					a.trans = a.trans[:n-1]
				}
			}
		}},
		{"only 90 days are given", func() { b.sca = !b.sca }},
		{"token expires", func() { b.expires = bankNow().Add(-time.Hour) }},
		{"two days later", func() { tick(48 * time.Hour) }},
		{"an account is no longer listed, or is again", func() {
			if n := len(b.accts); n > 0 {
				b.accts[n-1].unlisted = !b.accts[n-1].unlisted
			}
		}},
	}
}

func (w *W) monzoHistories() {
	w.Section("Monzo: histories")
	depth := 2
	if w.Thorough {
		depth = 3
	}
	const nops = 12
	for start := 0; start < 3; start++ {
		for d := depth; d <= depth; d++ {
			seqs(nops, d, func(ixs []int) {
				if w.Done() {
					return
				}
				ix := append([]int(nil), ixs...)
				start := start
				w.Case(func() string {
					var names []string
					for _, i := range ix {
						names = append(names, newMonzo().changes(nil, new(int))[i].name)
					}
					return fmt.Sprintf("start %d, then run; then each of %s followed by a run", start, strings.Join(names, ", "))
				}, func(t *T) {
					c := w.c17begin(t, "s.json")
					b := newMonzo()
					serial := 0
					ops := b.changes(c, &serial)
					switch start {
					case 1:
						ops[4].do()
					case 2:
						ops[4].do()
						ops[4].do()
						ops[5].do()
						ops[6].do()
					}
					exp := c.base.Add(24 * time.Hour)
					c.put(map[string]interface{}{"token": mtok(b, exp), "transactions": map[string]interface{}{"tx_old": mtrans{"tx_old", c.base.Add(-400 * 24 * time.Hour), 5}.obj("acc_x")}})
					if start == 2 {
						b.expires = exp
					}
					c.monzoRun(b, nil, "first run")
					for _, i := range ix {
						tick(time.Hour)
						if ops[i].name == "token expires" {
							// in the file as well
							v, _ := readJSON(c.file)
							v["token"] = mtok(b, bankNow().Add(-time.Minute))
							c.put(v)
						}
						ops[i].do()
						tick(time.Hour)
						b.renewals = 0
						if ok, _ := c.monzoRun(b, nil, "run behind "+ops[i].name); !ok {
							t.Failf("run behind %s fails", ops[i].name)
						}
					}
					t.Nontrivial(fmt.Sprint(start, ix))
					t.Trace()
				})
			})
		}
	}
}

func (w *W) monzoTokens() {
	w.Section("Monzo: renewal of credentials")
	// life of the token at the start of the run, and of the renewed one
	lives := []time.Duration{-100 * 24 * time.Hour, -time.Hour, -time.Second, 0, time.Second, 4500 * time.Millisecond, 9 * time.Second, 11 * time.Second, 12 * time.Second, 14 * time.Second, time.Minute, time.Hour}
	for _, life := range lives {
		for _, renewed := range []int{12, 15, 30, 3600} {
			for _, same := range []bool{false, true} {
				for _, size := range []int{3, 150} {
					life, renewed, same, size := life, renewed, same, size
					scene := func(t *T) (*c17, *monzo) {
						c := w.c17begin(t, "s.json")
						b := newMonzo()
						b.lifetime, b.sameToken = renewed, same
						a := &macct{id: "acc_a"}
						for i := 0; i < size; i++ {
							a.add(mtrans{fmt.Sprintf("t%03d", i), c.base.Add(-time.Duration(i+1) * time.Hour), 0})
						}
						b.accts = append(b.accts, a)
						b.expires = c.base.Add(life)
						c.put(map[string]interface{}{"token": mtok(b, b.expires), "transactions": map[string]interface{}{"tx_old": mtrans{"tx_old", c.base.Add(-400 * 24 * time.Hour), 5}.obj("acc_x")}})
						return c, b
					}
					w.Case(func() string {
						return fmt.Sprintf("token ends %s from the start, %d transactions, renewed for %d s, same token again: %v; 1 s per request; three runs", life, size, renewed, same)
					}, func(t *T) {
						c, b := scene(t)
						t.Nontrivial(fmt.Sprint(life, renewed, same, size))
						for i := 0; i < 3; i++ {
							if ok, nr := c.monzoRun(b, nil, fmt.Sprint("run ", i)); !ok {
								t.Failf("run %d fails: %v", i, nr.log)
							}
							tick(20 * time.Second)
							b.renewals = 0
						}
					})
					// the renewal or something behind it fails
					for at := 0; at < 6; at++ {
						for _, f := range netFaults {
							if w.Done() {
								return
							}
							if !w.Thorough && (size != 3 || renewed != 3600 || same) {
								continue
							}
							at, f := at, f
							w.Case(func() string {
								return fmt.Sprintf("token ends %s from the start, %d transactions, renewed for %d s, same %v; request %d: %s", life, size, renewed, same, at, f.kind)
							}, func(t *T) {
								c, b := scene(t)
								t.Nontrivial(fmt.Sprint(life, renewed, same, size, at, f))
								c.monzoRun(b, map[int]string{at: f.kind}, "run")
							})
						}
					}
				}
			}
		}
	}
	w.Case(func() string { return "state file without a token, callback port in use" }, func(t *T) {
		c := w.c17begin(t, "s.json")
		b := newMonzo()
		c.put(map[string]interface{}{"token": nil, "transactions": map[string]interface{}{"tx_old": mtrans{"tx_old", c.base.Add(-400 * 24 * time.Hour), 5}.obj("acc_x")}})
		before, _ := os.ReadFile(c.file)
		nr := &netRun{right: b.serve}
		out := c.run(nr, "monzo", "--port", "70000")
		after, _ := os.ReadFile(c.file)
		if out.err == nil || string(before) != string(after) || nr.n > 0 {
			t.Failf("error %v, requests %v, file %s", out.err, nr.log, clip(string(after), 300))
		}
		t.Nontrivial("no token")
	})
}

// failures runs a scenario with failures at every request.
func (w *W) failures(bankName string, scenes int, kinds []netFault, scene func(t *T, i int) (run func(faults map[int]string, what string) (bool, *netRun), reset func())) {
	w.Section(bankName + ": failing requests")
	for s := 0; s < scenes; s++ {
		for at := 0; at < 24; at++ {
			for _, f := range kinds {
				if w.Done() {
					return
				}
				s, at, f := s, at, f
				w.Case(func() string { return fmt.Sprintf("scenario %d, request %d: %s", s, at, f.kind) }, func(t *T) {
					run, reset := scene(t, s)
					_, nr := run(map[int]string{at: f.kind}, "run with a failure")
					if len(nr.hit) == 0 {
						return
					}
					t.Nontrivial(fmt.Sprint(s, at, f.kind))
					n := nr.n
					if ok, nr := run(nil, "run behind a failed run"); !ok {
						t.Failf("the run behind it fails: %v", nr.log)
					}
					// another failure in the run behind
					for at2 := 0; at2 < 24; at2++ {
						for _, f2 := range kinds {
							if !w.Thorough && f2.kind != "500" && f2.kind != "cut half" {
								continue
							}
							reset()
							run(map[int]string{at: f.kind}, "run with a failure")
							_, nr := run(map[int]string{at2: f2.kind}, "second run with a failure")
							if len(nr.hit) == 0 && at2 >= n {
								at2 = 99
								break
							}
							if ok, nr := run(nil, "run behind two failed runs"); !ok {
								t.Failf("the run behind them fails: %v", nr.log)
							}
						}
						if !w.Thorough && at2 > 4 {
							break
						}
					}
				})
			}
		}
		// failing to store
		for at := 0; at < 20; at++ {
			for ki := 0; ki < 7; ki++ {
				s, at, ki := s, at, ki
				w.Case(func() string { return fmt.Sprintf("scenario %d, file operation %d fails (kind %d)", s, at, ki) }, func(t *T) {
					root := filepath.Join(w.Scratch, "c17")
					var fr *fsRun
					try := func(faults []fault) (bool, *netRun) {
						run, _ := scene(t, s)
						fr = &fsRun{root: root, faults: faults, fds: map[int]string{}}
						watchSave = fr
						defer func() { watchSave = nil }()
						return run(nil, "run with a failing file operation")
					}
					try([]fault{{at, fmt.Sprint("#", ki)}})
					for _, e := range fr.events {
						if e.err != nil && e.err != syscall.ENOENT {
							t.Nontrivial(fmt.Sprint(s, at, ki))
						}
					}
				})
			}
		}
	}
}

var watchSave *fsRun

func runC17(w *W) {
	installBank()
	// the OAuth library remembers per process how the bank wants its credentials
	{
		c := w.c17begin(&T{w: w, idx: -1000, desc: func() string { return "" }}, "s.json")
		b := newMonzo()
		c.put(map[string]interface{}{"token": mtok(b, c.base.Add(-time.Hour))})
		func() {
			defer func() { recover() }()
			c.run(&netRun{right: b.serve}, "monzo")
		}()
	}
	w.monzoPaging()
	w.monzoHistories()
	w.monzoTokens()
	w.monzoFailures()
	w.starling()
	w.nordigen()
	w.bankSizes()
}

// bankSizes has banks with many accounts, spaces and entries.
func (w *W) bankSizes() {
	w.Section("sizes")
	runLimit = 5000
	accts, inner, items := []int{1, 2, 4, 9, 33}, []int{0, 1, 3, 4, 9, 17, 65}, []int{1, 2, 65, 129, 1025}
	if w.Thorough {
		accts, inner, items = append(accts, 65, 129), append(inner, 33, 129), append(items, 5000)
	}
	for _, na := range accts {
		for _, ns := range inner {
			for _, ni := range items {
				if w.Done() {
					return
				}
				if na*(ns+1)*ni > 20000 {
					continue
				}
				na, ns, ni := na, ns, ni
				w.Case(func() string {
					return fmt.Sprintf("Starling: %d accounts with %d spaces and %d items each", na, ns, ni)
				}, func(t *T) {
					c := w.c17begin(t, "s.json")
					b := newStarling()
					for i := 0; i < na; i++ {
						a := &sacct{id: fmt.Sprintf("a%d", i), cat: fmt.Sprintf("c%d", i), created: bankNow().Add(-500 * 24 * time.Hour), feeds: map[string][]sitem{}}
						for s := 0; s < ns; s++ {
							a.spaces = append(a.spaces, sspace{fmt.Sprintf("s%d_%d", i, s), s%2 == (ns/2)%2 || s > ns/2, 0})
						}
						for k, cat := range a.cats() {
							for j := 0; j < ni; j++ {
								a.feeds[cat] = append(a.feeds[cat], sitem{fmt.Sprintf("f%d_%d_%d", i, k, j), bankNow().Add(-time.Duration(ni-j) * time.Hour), 0})
							}
						}
						b.accts = append(b.accts, a)
					}
					c.starlingRun(b, true, nil, "first run")
					tick(time.Hour)
					for _, a := range b.accts {
						for _, cat := range a.cats() {
							a.feeds[cat] = append(a.feeds[cat], sitem{"n" + cat, bankNow(), 0})
						}
					}
					tick(time.Hour)
					c.starlingRun(b, false, nil, "second run")
					t.Nontrivial(fmt.Sprint("s", na, ns, ni))
				})
				if ns > 4 {
					continue
				}
				w.Case(func() string {
					return fmt.Sprintf("Nordigen: %d accounts with %d booked and %d pending entries each", na, ni, ns)
				}, func(t *T) {
					c := w.c17begin(t, "s.json")
					b := &nordigen{}
					for i := 0; i < na; i++ {
						a := &nacct{id: fmt.Sprintf("n%d", i)}
						for j := 0; j < ni; j++ {
							a.booked = append(a.booked, fmt.Sprintf("t%d_%d:0", i, j))
						}
						for j := 0; j < ns; j++ {
							a.pending = append(a.pending, fmt.Sprintf("p%d_%d:0", i, j))
						}
						b.accts, b.linked = append(b.accts, a), append(b.linked, a.id)
					}
					c.put(nordigenState(b))
					c.nordigenRun(b, nil, "first run")
					for _, a := range b.accts {
						a.booked, a.pending = append(append([]string{"n" + a.id + ":0"}, a.pending...), a.booked...), nil
					}
					c.nordigenRun(b, nil, "second run")
					t.Nontrivial(fmt.Sprint("n", na, ns, ni))
				})
				if ns > 0 {
					continue
				}
				w.Case(func() string { return fmt.Sprintf("Monzo: %d accounts with %d transactions each", na, ni) }, func(t *T) {
					c := w.c17begin(t, "s.json")
					b := newMonzo()
					for i := 0; i < na; i++ {
						a := &macct{id: fmt.Sprintf("acc_%d", i)}
						for j := 0; j < ni; j++ {
							a.add(mtrans{fmt.Sprintf("tx_%d_%d", i, j), c.base.Add(-time.Duration(ni-j) * time.Minute), 0})
						}
						b.accts = append(b.accts, a)
					}
					c.put(map[string]interface{}{"token": mtok(b, time.Time{})})
					ok, _ := c.monzoRun(b, nil, "first run")
					t.Nontrivial(fmt.Sprint("m", na, ni))
					if ok {
						c.monzoRun(b, nil, "second run")
					}
				})
			}
		}
	}
}

func (w *W) monzoFailures() {
	w.failures("Monzo", 4, netFaults, func(t *T, i int) (func(map[int]string, string) (bool, *netRun), func()) {
		c := w.c17begin(t, []string{"s.json", "s.json.gz", "s.json", "s.json"}[i])
		b := newMonzo()
		serial := 0
		ops := b.changes(c, &serial)
		ops[4].do()
		if i == 3 { // two pages of old transactions
			for k := 0; k < 120; k++ {
				b.accts[0].add(mtrans{fmt.Sprint("tx_p", k), c.base.Add(time.Duration(k-200*720) * 2 * time.Minute), 0})
			}
		}
		ops[1].do()
		if i == 1 {
			ops[5].do()
			ops[4].do()
		}
		state := map[string]interface{}{"token": mtok(b, time.Time{}), "transactions": map[string]interface{}{"tx_old": mtrans{"tx_old", c.base.Add(-400 * 24 * time.Hour), 5}.obj("acc_x"), "tx_2": mtrans{"tx_2", c.base.Add(-200 * 24 * time.Hour), 7}.obj("acc_1")}}
		if i == 2 {
			b.sca = true
		}
		c.put(state)
		return func(f map[int]string, what string) (bool, *netRun) { return c.monzoRun(b, f, what) }, func() { c.put(state) }
	})
}

// storing applies the failing file operations, if any, to a run of the program.
func storing(f func()) (failed bool) {
	if watchSave == nil {
		f()
		return false
	}
	syscall.VerifFS, syscall.VerifPost = watchSave.pre, watchSave.post
	defer func() { syscall.VerifFS, syscall.VerifPost = nil, nil }()
	f()
	for _, e := range watchSave.events {
		if e.err != nil && e.err != syscall.EINTR && e.err != syscall.ENOENT {
			failed = true
		}
	}
	return failed
}
