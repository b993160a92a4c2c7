//go:build verifmc && verifhooks && verifyield

package main

import (
	"bytes"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/url"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/mescanne/goledger/cmd/download"
)

func init() {
	register(&Prop{ID: "C25", Level: "model_checking",
		Rule:        "the real authorisation flow (real loopback HTTP server of the program, scripted token endpoint): every callback request of the table (codes x states x order x method x path, raw queries), every sequence of two of the short table, every failure of the token endpoint and of storing; and for pairs of callbacks that arrive together every schedule of the statements of the two handlers and of the waiting program up to the stated number of preemptions (a scheduling point before every statement of the download package, one goroutine running at a time). States: distinct outcomes (requests to the token endpoint, state file, status); transitions: schedule steps and requests",
		Assumptions: []string{"schedules interleave whole statements of cmd/download; the HTTP server of the Go library is not scheduled", "an empty code is not judged when it comes with the right state (the bank refuses it)"},
		Run:         runC25})
}

// authBank is the token endpoint.
type authBank struct {
	codes    map[string]bool // codes the bank has issued
	redirect string
	posts    []string // codes it was asked for
}

func (b *authBank) serve(r *http.Request, form url.Values) reply {
	if r.Host == "api.monzo.com" && r.URL.Path == "/oauth2/token" && r.Method == "POST" {
		b.posts = append(b.posts, form.Get("code"))
		if !clientOK(r, form) || form.Get("grant_type") != "authorization_code" || !b.codes[form.Get("code")] || form.Get("redirect_uri") != b.redirect {
			return reply{status: 400, body: `{"error":"invalid_grant"}`}
		}
		return reply{status: 200, body: `{"access_token":"granted","refresh_token":"again","token_type":"Bearer","expires_in":3600}`}
	}
	return reply{status: 404, body: "{}"}
}

var nextPort int

// freePort gives a port nobody listens on; the workers use ranges of their own, below the ephemeral ports.
func (w *W) freePort() int {
	for i := 0; i < 2000; i++ {
		nextPort++
		p := 12000 + int(w.shard+1)%10*2000 + (nextPort+os.Getpid())%2000
		if l, err := net.Listen("tcp", fmt.Sprintf(":%d", p)); err == nil {
			l.Close()
			return p
		}
	}
	panic("harness: no free port")
}

var reAuthURL = regexp.MustCompile(`https://auth\.monzo\.com/?\?(\S+)`)

// offered waits for the program to show the address to visit, and gives the state it issued.
func offered(done chan struct{}) (state, redirect string, err error) {
	for i := 0; i < 20000; i++ {
		select {
		case <-done:
			return "", "", fmt.Errorf("the program ended before it listened")
		default:
		}
		f := cliFiles[0]
		if f != nil {
			b := make([]byte, 4096)
			n, _ := f.ReadAt(b, 0)
			if m := reAuthURL.FindSubmatch(b[:n]); m != nil && bytes.IndexByte(b[:n], '\n') >= 0 {
				q, perr := url.ParseQuery(string(m[1]))
				if perr != nil {
					return "", "", perr
				}
				if q.Get("client_id") != "cid" || q.Get("response_type") != "code" {
					return "", "", fmt.Errorf("address to visit %q", m[1])
				}
				return q.Get("state"), q.Get("redirect_uri"), nil
			}
		}
		time.Sleep(500 * time.Microsecond)
	}
	return "", "", fmt.Errorf("the program shows no address to visit")
}

// connect dials the program's port, waiting until it listens.
func connect(port int, done chan struct{}) net.Conn {
	for i := 0; i < 20000; i++ {
		c, err := net.Dial("tcp", fmt.Sprintf("127.0.0.1:%d", port))
		if err == nil {
			return c
		}
		select {
		case <-done:
			return nil
		default:
		}
		time.Sleep(500 * time.Microsecond)
	}
	return nil
}

func less(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// authRun is one attempt.
type authRun struct {
	out    cliOut
	bank   *authBank
	before string
	after  string
	state  string
	nr     *netRun
}

// attempt runs the command, and visitors (called with the issued state) in another goroutine.
func (w *W) attempt(c *c17, codes []string, faults map[int]string, stored interface{}, visit func(state string, port int, done chan struct{})) *authRun {
	r := &authRun{bank: &authBank{codes: map[string]bool{}}}
	for _, x := range codes {
		r.bank.codes[x] = true
	}
	if stored != nil {
		c.put(stored)
	} else {
		os.RemoveAll(filepath.Dir(c.file))
	}
	b, _ := os.ReadFile(c.file)
	r.before = string(b)
	r.nr = &netRun{right: r.bank.serve, faults: faults}
	port := w.freePort()
	done := make(chan struct{})
	visited := make(chan error, 1)
	w.cli("", "--help") // the output files exist and are empty
	mainGoid = goid()
	go func() {
		state, redirect, err := offered(done)
		if err == nil {
			r.state, r.bank.redirect = state, redirect
			visit(state, port, done)
		}
		visited <- err
	}()
	r.out = c.run(r.nr, "monzo", "--port", strconv.Itoa(port))
	close(done)
	if err := <-visited; err != nil {
		panic(failure{"", err.Error() + "; " + r.out.String()})
	}
	a, _ := os.ReadFile(c.file)
	r.after = string(a)
	return r
}

func send(c net.Conn, method, target, body string) {
	if c == nil {
		return
	}
	req := fmt.Sprintf("%s %s HTTP/1.1\r\nHost: localhost\r\nConnection: close\r\n", method, target)
	if body != "" {
		req += fmt.Sprintf("Content-Type: application/x-www-form-urlencoded\r\nContent-Length: %d\r\n", len(body))
	}
	io.WriteString(c, req+"\r\n"+body)
}

func hangup(c net.Conn) {
	if c != nil {
		c.SetReadDeadline(time.Now().Add(5 * time.Second))
		io.Copy(io.Discard, c)
		c.Close()
	}
}

// judgeAuth checks an attempt: good tells the codes of callbacks that carry the issued state, any tells that a
// good callback must lead to an exchange.
func (r *authRun) judge(t *T, good []string, must bool, what func() string) {
	describe := func() string {
		return fmt.Sprintf("%s; state %q; token endpoint asked for %q; error %v; file before %s, after %s", what(), r.state, r.bank.posts, r.out.err, clip(r.before, 200), clip(r.after, 400))
	}
	for _, p := range r.bank.posts {
		ok := false
		for _, g := range good {
			ok = ok || g == p
		}
		if !ok {
			t.Failf("code %q is exchanged: %s", p, describe())
		}
	}
	if r.after == r.before {
		if must {
			t.Failf("no token is stored: %s", describe())
		}
		if r.out.err == nil {
			t.Failf("no error: %s", describe())
		}
		t.Outcome("nothing stored, error")
	} else {
		if len(r.bank.posts) == 0 {
			t.Failf("the file changes without a token: %s", describe())
		}
		issued := false
		for _, p := range r.bank.posts {
			issued = issued || r.bank.codes[p]
		}
		var v map[string]interface{}
		func() {
			defer func() {
				if recover() != nil {
					t.Failf("the file is damaged: %s", describe())
				}
			}()
			v = mustJSON(r.after)
		}()
		if !issued || getmap(v, "token")["access_token"] != "granted" || getmap(v, "token")["refresh_token"] != "again" {
			t.Failf("a token is stored that was not granted: %s", describe())
		}
		if r.before != "" {
			old := mustJSON(r.before)
			if canon(old["transactions"]) != canon(v["transactions"]) || canon(old["accounts"]) != canon(v["accounts"]) {
				t.Failf("stored data changes: %s", describe())
			}
		}
		t.Outcome("token stored")
	}
	t.State(fmt.Sprint(r.bank.posts, r.after, r.out.err != nil))
}

// must leads to an exchange; r.nr tells of failing requests.

type callbackReq struct {
	method, target, body string
	kind                 string // good, bad, unclear
	code                 string
}

// classify says what a callback with the state is.
func classify(target, state string) (kind, code string) {
	i := strings.IndexByte(target, '?')
	if i < 0 {
		return "bad", ""
	}
	raw := target[i+1:]
	if j := strings.IndexByte(raw, '#'); j >= 0 {
		raw = raw[:j]
	}
	q := map[string][]string{}
	unclear := false
	for _, p := range strings.Split(raw, "&") {
		if p == "" {
			continue
		}
		k, v := p, ""
		if j := strings.IndexByte(p, '='); j >= 0 {
			k, v = p[:j], p[j+1:]
		}
		k1, err1 := url.QueryUnescape(k)
		v1, err2 := url.QueryUnescape(v)
		if err1 != nil || err2 != nil || strings.Contains(p, ";") {
			unclear = true
			continue
		}
		q[k1] = append(q[k1], v1)
	}
	if len(q["code"]) == 1 && len(q["state"]) == 1 && q["state"][0] == state {
		if unclear || q["code"][0] == "" || strings.Contains(target, "#") {
			return "unclear", q["code"][0]
		}
		return "good", q["code"][0]
	}
	return "bad", ""
}

func runC25(w *W) {
	installBank()
	prime := func() {
		c := w.c17begin(&T{w: w, idx: -1000, desc: func() string { return "" }}, "s.json")
		b := newMonzo()
		c.put(map[string]interface{}{"token": mtok(b, c.base.Add(-time.Hour))})
		func() {
			defer func() { recover() }()
			c.run(&netRun{right: b.serve}, "monzo")
		}()
	}
	prime()
	const S = "\x01" // stands for the issued state
	oldData := map[string]interface{}{"token": nil, "transactions": map[string]interface{}{"tx_old": mtrans{"tx_old", time.Date(2000, 1, 1, 0, 0, 0, 0, time.UTC), 5}.obj("acc_x")}, "accounts": map[string]interface{}{"acc_x": map[string]interface{}{"id": "acc_x"}}}
	fill := func(target, state string) string {
		// the state with a character changed, left out or added
		esc := url.QueryEscape(state)
		r := strings.NewReplacer("\x01-", esc[:len(esc)-less(1, len(esc))], "\x01^", "1"+esc[less(1, len(esc)):]+"0", "\x01", esc)
		return r.Replace(target)
	}

	w.Section("single callbacks")
	var targets []string
	codeLists := [][]string{{}, {"good"}, {"evil"}, {""}, {"good", "good"}, {"good", "evil"}, {"evil", "good"}, {"good", ""}}
	stateLists := [][]string{{}, {S}, {""}, {"0"}, {S + "0"}, {S + "-"}, {S + "^"}, {"%20" + S}, {S + "%00"}, {"x" + S}, {S, S}, {S, "0"}, {"0", S}, {S, ""}, {"0" + S}}
	add := func(path string, parts ...string) { targets = append(targets, path+"?"+strings.Join(parts, "&")) }
	for _, cl := range codeLists {
		for _, sl := range stateLists {
			var c, s []string
			for _, x := range cl {
				c = append(c, "code="+x)
			}
			for _, x := range sl {
				s = append(s, "state="+x)
			}
			add("/", append(append([]string{}, c...), s...)...)
			if len(c) > 0 && len(s) > 0 {
				add("/", append(append([]string{}, s...), c...)...)
				add("/cb", append(append([]string{"scope=x"}, c...), s...)...)
			}
			if len(c) == 2 || len(s) == 2 {
				var mix []string
				for i := 0; i < 2; i++ {
					if i < len(c) {
						mix = append(mix, c[i])
					}
					if i < len(s) {
						mix = append(mix, s[i])
					}
				}
				add("/", mix...)
			}
		}
	}
	targets = append(targets, "/", "/favicon.ico", "/?", "/?error=access_denied&state="+S, "/?error=access_denied&code=good&state="+S,
		"/?Code=good&State="+S, "/?code=good&STATE="+S, "/?code=good;state="+S, "/?code=good&state="+S+";x", "/?code=good&code=%zz&state="+S, "/?code=good&state="+S+"&state=%zz",
		"/?co%64e=good&st%61te="+S, "/?code=good&state="+S+"#x", "/?code&state="+S, "/?code=good&state", "/?code[]=good&state[]="+S, "/?code=good%26state="+S, "/?state="+S+"%26code=good",
		"/code=good&state="+S, "/?&&code=good&&state="+S+"&&", "/?code=go%6fd&state="+S, "/?code=good&state="+S+"&code", "/?code=good&state=%EF%BC%91"+S, "/?code=good&state=+"+S, "/?code=good&state="+S+"+")
	for _, tg := range targets {
		for _, method := range []string{"GET", "POST", "HEAD"} {
			for _, fresh := range []bool{false, true} {
				if w.Done() {
					return
				}
				if method != "GET" && (fresh || !w.Thorough && !strings.Contains(tg, "good")) {
					continue
				}
				tg, method, fresh := tg, method, fresh
				w.Case(func() string {
					return fmt.Sprintf("%s %s, state file: %v", method, strings.Replace(tg, S, "<state>", -1), !fresh)
				}, func(t *T) {
					c := w.c17begin(t, "s.json")
					var stored interface{} = oldData
					if fresh {
						stored = nil
					}
					kind, code := "", ""
					body := ""
					if method == "POST" {
						body = "code=good&state=0"
					}
					r := w.attempt(c, []string{"good"}, nil, stored, func(state string, port int, done chan struct{}) {
						x := fill(tg, state)
						kind, code = classify(x, state)
						conn := connect(port, done)
						send(conn, method, x, body)
						hangup(conn)
					})
					t.Nontrivial(fmt.Sprint(tg, method, fresh))
					t.Trace()
					var good []string
					if kind != "bad" {
						good = []string{code}
					}
					r.judge(t, good, kind == "good" && code == "good", func() string { return kind + " callback" })
				})
			}
		}
	}

	w.Section("one callback behind another")
	short := []string{"/?code=good&state=" + S, "/?code=evil&state=0", "/?code=evil", "/?state=" + S, "/?code=evil&state=" + S, "/favicon.ico", "/?code=good&code=evil&state=" + S}
	for _, a := range short {
		for _, b := range short {
			for _, early := range []bool{false, true} {
				a, b, early := a, b, early
				w.Case(func() string {
					return fmt.Sprintf("%s, then %s; connected from the start: %v", strings.Replace(a, S, "<state>", -1), strings.Replace(b, S, "<state>", -1), early)
				}, func(t *T) {
					c := w.c17begin(t, "s.json")
					kind, code := "", ""
					r := w.attempt(c, []string{"good"}, nil, oldData, func(state string, port int, done chan struct{}) {
						kind, code = classify(fill(a, state), state)
						c1 := connect(port, done)
						var c2 net.Conn
						if early {
							c2 = connect(port, done)
						}
						send(c1, "GET", fill(a, state), "")
						hangup(c1)
						if !early {
							c2, _ = net.Dial("tcp", fmt.Sprintf("127.0.0.1:%d", port))
						}
						send(c2, "GET", fill(b, state), "")
						hangup(c2)
					})
					t.Nontrivial(a + b + fmt.Sprint(early))
					t.Trace()
					var good []string
					if kind == "good" {
						good = []string{code}
					}
					r.judge(t, good, kind == "good" && code == "good", func() string { return kind + " callback, then another" })
				})
			}
		}
	}

	w.Section("the token cannot be had or stored")
	for at := 0; at < 2; at++ {
		for _, f := range netFaults {
			for _, fresh := range []bool{false, true} {
				at, f, fresh := at, f, fresh
				w.Case(func() string { return fmt.Sprintf("request %d: %s; state file: %v", at, f.kind, !fresh) }, func(t *T) {
					c := w.c17begin(t, "s.json")
					var stored interface{} = oldData
					if fresh {
						stored = nil
					}
					r := w.attempt(c, []string{"good"}, map[int]string{at: f.kind}, stored, func(state string, port int, done chan struct{}) {
						conn := connect(port, done)
						send(conn, "GET", fill(short[0], state), "")
						hangup(conn)
					})
					t.Nontrivial(fmt.Sprint(at, f, fresh))
					t.Trace()
					r.judge(t, []string{"good"}, len(r.nr.hit) == 0, func() string { return "a granted code" })
				})
			}
		}
	}
	w.Case(func() string { return "the port is taken" }, func(t *T) {
		c := w.c17begin(t, "s.json")
		c.put(oldData)
		port := w.freePort()
		l, err := net.Listen("tcp", fmt.Sprintf(":%d", port))
		if err != nil {
			panic("harness: " + err.Error())
		}
		defer l.Close()
		b := &authBank{}
		before := readBackFile(c.file)
		out := c.run(&netRun{right: b.serve}, "monzo", "--port", strconv.Itoa(port))
		t.Nontrivial("port")
		if out.err == nil || len(b.posts) > 0 || readBackFile(c.file) != before {
			t.Failf("the port is taken: requests %q, %s", b.posts, out)
		}
	})
	for at := 0; at < 16; at++ {
		for ki := 0; ki < 7; ki++ {
			at, ki := at, ki
			w.Case(func() string { return fmt.Sprintf("file operation %d fails (kind %d)", at, ki) }, func(t *T) {
				c := w.c17begin(t, "s.json")
				fr := &fsRun{root: filepath.Join(w.Scratch, "c17"), faults: []fault{{at, fmt.Sprint("#", ki)}}, fds: map[int]string{}}
				watchSave = fr
				defer func() { watchSave = nil }()
				visited := false
				defer func() {
					if x := recover(); x != nil {
						if f, ok := x.(failure); ok && strings.HasPrefix(f.msg, "the program ended before") && c.storeFailed {
							return // the state could not be read
						}
						panic(x)
					}
				}()
				r := w.attempt(c, []string{"good"}, nil, oldData, func(state string, port int, done chan struct{}) {
					visited = true
					conn := connect(port, done)
					send(conn, "GET", fill(short[0], state), "")
					hangup(conn)
				})
				t.Nontrivial(fmt.Sprint(at, ki))
				t.Trace()
				_ = visited
				r.judge(t, []string{"good"}, !c.storeFailed, func() string { return "a granted code" })
			})
		}
	}

	w.Section("callbacks that arrive together")
	pairs := [][2]string{
		{"/?code=evil&state=0", "/?code=good&state=" + S},
		{"/?code=evil", "/?code=good&state=" + S},
		{"/?state=" + S, "/?code=evil&state=0"},
		{"/?code=good&state=" + S, "/?code=good2&state=" + S},
		{"/?code=evil&state=0", "/?code=evil2&state=1"},
		{"/?code=evil&state=", "/?code=good&state=" + S},
	}
	bound := 2
	if w.Thorough {
		bound = 3
	}
	for _, p := range pairs {
		for first := 0; first < 2; first++ {
			for sw := 0; sw < 28; sw++ {
				if w.Done() {
					return
				}
				p, first, sw := p, first, sw
				w.Case(func() string {
					return fmt.Sprintf("%s and %s; handler %d first; first preemption at step %d; up to %d preemptions", strings.Replace(p[0], S, "<state>", -1), strings.Replace(p[1], S, "<state>", -1), first, sw, bound)
				}, func(t *T) {
					c := w.c17begin(t, "s.json")
					var rec func(sws []int)
					rec = func(sws []int) {
						// the second number of a switch says which of the other threads goes on
						for alt := 0; alt < 2; alt++ {
							plan := append(append([]int{}, sws...), alt)
							s := &sched{plan: plan, first: first}
							var good []string
							r := w.attempt(c, []string{"good", "good2"}, nil, oldData, func(state string, port int, done chan struct{}) {
								for _, x := range p {
									if k, code := classify(fill(x, state), state); k == "good" {
										good = append(good, code)
									}
								}
								s.run(port, done, [2]string{fill(p[0], state), fill(p[1], state)})
							})
							s.stop()
							t.Trans(int64(s.steps))
							t.Trace()
							t.Nontrivial(fmt.Sprint(p, first, s.log))
							r.judge(t, good, false, func() string { return "schedule " + strings.Join(s.log, " ") })
							if len(plan)/2 < bound {
								for nx := plan[len(plan)-2] + 1; nx < s.steps; nx++ {
									rec(append(append([]int{}, plan...), nx))
								}
							}
							if s.nalt < 2 {
								break
							}
						}
					}
					rec([]int{sw})
				})
			}
		}
	}
}

func readBackFile(fn string) string {
	b, err := os.ReadFile(fn)
	if err != nil {
		return "none"
	}
	return string(b)
}

func mustJSON(s string) map[string]interface{} {
	fn := filepath.Join(os.TempDir(), fmt.Sprintf("verifmc-json-%d", os.Getpid()))
	defer os.Remove(fn)
	if err := os.WriteFile(fn, []byte(s), 0644); err != nil {
		panic("harness: " + err.Error())
	}
	v, _ := readJSON(fn)
	return v
}

// ---- the scheduler

// sched runs one goroutine of the program at a time between the scheduling points.  Threads: 0 and 1 are the
// handlers of the two callbacks in the order they were entered, 2 is the command.
type sched struct {
	plan  []int // pairs (step, which other thread)
	first int

	mu      sync.Mutex
	events  chan schedEv
	threads map[int]*thread
	mainID  int
	live    bool

	steps int
	nalt  int
	log   []string
}

type thread struct {
	id     int // 0, 1, 2
	goid   int
	depth  int
	parked chan struct{}
	done   bool
	label  string
}

type schedEv struct {
	th   *thread
	park bool // else finished
}

func goid() int {
	var b [64]byte
	n := runtime.Stack(b[:], false)
	f := bytes.Fields(b[:n])
	id, _ := strconv.Atoi(string(f[1]))
	return id
}

func (s *sched) install(mainID int) {
	s.events = make(chan schedEv, 16)
	s.threads = map[int]*thread{}
	s.mainID = mainID
	s.live = true
	download.VerifYield = s.yield
	download.VerifIn = func() { s.depth(1) }
	download.VerifOut = func() { s.depth(-1) }
}

func (s *sched) thread() *thread {
	g := goid()
	s.mu.Lock()
	defer s.mu.Unlock()
	if !s.live {
		return nil
	}
	th := s.threads[g]
	if th == nil {
		id := 2
		if g != s.mainID {
			id = 0
			for _, o := range s.threads {
				if o.goid != s.mainID {
					id++
				}
			}
		}
		th = &thread{id: id, goid: g}
		s.threads[g] = th
	}
	return th
}

func (s *sched) depth(d int) {
	th := s.thread()
	if th == nil {
		return
	}
	th.depth += d
	if th.depth == 0 && d < 0 && th.id != 2 {
		s.mu.Lock()
		live := s.live
		s.mu.Unlock()
		if live {
			s.events <- schedEv{th, false}
		}
	}
}

func (s *sched) yield() {
	th := s.thread()
	if th == nil {
		return
	}
	ch := make(chan struct{})
	th.parked = ch
	s.events <- schedEv{th, true}
	<-ch
}

// stop lets everything run on.
func (s *sched) stop() {
	download.VerifYield, download.VerifIn, download.VerifOut = nil, nil, nil
	s.release()
}

func (s *sched) release() {
	if s.events == nil {
		return
	}
	s.mu.Lock()
	s.live = false
	s.mu.Unlock()
	for {
		select {
		case e := <-s.events:
			if e.park {
				close(e.th.parked)
			}
		case <-time.After(2 * time.Millisecond):
			return
		}
	}
}

var mainGoid int // the goroutine that runs the command

// run is the visitor: it delivers both callbacks and schedules their handlers.
func (s *sched) run(port int, done chan struct{}, targets [2]string) {
	var conns [2]net.Conn
	parked := map[int]*thread{}
	over := done // once the command has ended, do not wait for it
	s.install(mainGoid)
	wait := func(d time.Duration) (schedEv, bool) {
		select {
		case e := <-s.events:
			return e, true
		case <-time.After(d):
			return schedEv{}, false
		case <-over:
			over = nil
			return schedEv{}, false
		}
	}
	mainThere := false
	note := func(e schedEv) {
		if e.th.id == 2 {
			mainThere = true
		}
		if e.park {
			parked[e.th.id] = e.th
		} else {
			e.th.done = true
			delete(parked, e.th.id)
		}
	}
	grant := func(th *thread) {
		delete(parked, th.id)
		close(th.parked)
	}
	// the command goes on to listening; then the callbacks come in, the first one entering its handler first
	for i := 0; i < 2; i++ {
		conn := make(chan net.Conn, 1)
		go func() { conn <- connect(port, done) }()
		for conns[i] == nil {
			select {
			case c := <-conn:
				if c == nil {
					s.release()
					return
				}
				conns[i] = c
			case e := <-s.events:
				if e.th.id == 2 && e.park {
					close(e.th.parked)
				}
			}
		}
	}
	for i := 0; i < 2; i++ {
		send(conns[i], "GET", targets[i], "")
		for parked[i] == nil {
			e, ok := wait(5 * time.Second)
			if !ok {
				break
			}
			if e.th.id == 2 && e.park {
				close(e.th.parked)
				continue
			}
			note(e)
		}
	}
	finished := func(id int) bool {
		for _, th := range s.threads {
			if th.id == id {
				return th.done
			}
		}
		return true
	}
	cur := s.first
	k := 0
	for {
		s.mu.Lock()
		alive := !finished(0) || !finished(1)
		s.mu.Unlock()
		if !alive {
			break
		}
		if s.steps > 200 {
			break
		}
		// which thread goes on
		if k+1 < len(s.plan) && s.plan[k] == s.steps {
			var others []int
			for id := 0; id < 3; id++ {
				if id != cur && parked[id] != nil {
					others = append(others, id)
				}
			}
			if k+2 >= len(s.plan) {
				s.nalt = len(others)
			}
			if len(others) > 0 {
				cur = others[s.plan[k+1]%len(others)]
			}
			k += 2
		}
		if parked[cur] == nil {
			next := -1
			for _, id := range []int{2, 0, 1} {
				if parked[id] != nil {
					next = id
					break
				}
			}
			if next < 0 {
				// everything is blocked or finished
				e, ok := wait(300 * time.Millisecond)
				if !ok {
					break
				}
				note(e)
				continue
			}
			cur = next
		}
		th := parked[cur]
		grant(th)
		s.log = append(s.log, string("ABm"[cur]))
		s.steps++
		// until it stops again
		for {
			e, ok := wait(100 * time.Millisecond)
			if !ok {
				break // blocked, or the command has left the package
			}
			note(e)
			if e.th == th {
				break
			}
		}
		// closing the port wakes the command
		if !mainThere && cur != 2 && parked[2] == nil {
			if l, err := net.Listen("tcp", fmt.Sprintf(":%d", port)); err == nil {
				l.Close()
				mainThere = true
				for parked[2] == nil {
					e, ok := wait(2 * time.Second)
					if !ok {
						break
					}
					note(e)
				}
			}
		}
	}
	for _, th := range parked {
		close(th.parked)
	}
	s.release()
	for _, c := range conns {
		if c != nil {
			c.Close()
		}
	}
}
