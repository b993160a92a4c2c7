//go:build verifmc && verifhooks

package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/url"
	"os"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// A scripted bank: an HTTP server in this process, reached by every dial of the default transport.

// reply is what the bank answers.
type reply struct {
	status int
	body   string
	// how it is delivered
	how string
	cut int

	opaque bool // any JSON will do
	free   bool // the list may have any elements
}

type bankConn struct {
	mu      sync.Mutex
	handler func(r *http.Request, form url.Values) reply
	dial    func() error
}

var bank = &bankConn{}

func (b *bankConn) serve(c net.Conn) {
	defer c.Close()
	req, err := http.ReadRequest(bufio.NewReader(c))
	if err != nil {
		return
	}
	form := url.Values{}
	if req.Method == "POST" {
		body, err := io.ReadAll(req.Body)
		if err != nil {
			return
		}
		form, _ = url.ParseQuery(string(body))
	}
	b.mu.Lock()
	rep := b.handler(req, form)
	b.mu.Unlock()
	var out bytes.Buffer
	switch rep.how {
	case "reset":
		return
	case "garbage":
		out.WriteString("\x00\x01 what?\r\n\r\n")
	case "cut": // shorter than announced
		fmt.Fprintf(&out, "HTTP/1.1 %d X\r\nContent-Type: application/json\r\nContent-Length: %d\r\nConnection: close\r\n\r\n%s", rep.status, len(rep.body), rep.body[:rep.cut])
	case "cut chunk": // without the last chunk
		fmt.Fprintf(&out, "HTTP/1.1 %d X\r\nContent-Type: application/json\r\nTransfer-Encoding: chunked\r\nConnection: close\r\n\r\n%x\r\n%s", rep.status, len(rep.body), rep.body[:rep.cut])
	case "cut open": // the length is not announced
		fmt.Fprintf(&out, "HTTP/1.1 %d X\r\nContent-Type: application/json\r\nConnection: close\r\n\r\n%s", rep.status, rep.body[:rep.cut])
	case "chunked":
		fmt.Fprintf(&out, "HTTP/1.1 %d X\r\nContent-Type: application/json\r\nTransfer-Encoding: chunked\r\nConnection: close\r\n\r\n%x\r\n%s\r\n0\r\n\r\n", rep.status, len(rep.body), rep.body)
	default:
		fmt.Fprintf(&out, "HTTP/1.1 %d X\r\nContent-Type: application/json\r\nContent-Length: %d\r\nConnection: close\r\n\r\n%s", rep.status, len(rep.body), rep.body)
	}
	c.Write(out.Bytes())
}

func (b *bankConn) connect(ctx context.Context, network, addr string) (net.Conn, error) {
	if b.dial != nil {
		if err := b.dial(); err != nil {
			return nil, err
		}
	}
	here, there := net.Pipe()
	go b.serve(there)
	return here, nil
}

// installBank makes the default transport talk to the scripted bank.
func installBank() {
	http.DefaultTransport = &http.Transport{
		DialContext:       bank.connect,
		DialTLSContext:    bank.connect,
		DisableKeepAlives: true,
	}
	os.VerifExit = func(code int) {
		if code != exitHang && atomic.LoadInt32(&catchExit) != 0 {
			panic(exited{code})
		}
	}
}

type exited struct{ code int }

var catchExit int32

// cliIn is cli with standard input and with os.Exit caught.
func (w *W) cliIn(conf, stdin string, args ...string) (out cliOut) {
	fn := w.write(".stdin", stdin)
	f, err := os.Open(fn)
	if err != nil {
		panic("harness: " + err.Error())
	}
	defer f.Close()
	saved := devnull
	devnull = f
	atomic.StoreInt32(&catchExit, 1)
	defer func() {
		atomic.StoreInt32(&catchExit, 0)
		devnull = saved
		if r := recover(); r != nil {
			e, ok := r.(exited)
			if !ok {
				panic(r)
			}
			restoreStd()
			out = cliOut{readBack(cliFiles[0]), readBack(cliFiles[1]), nil}
			if e.code != 0 {
				out.err = fmt.Errorf("exit %d", e.code)
			}
		}
	}()
	return w.cli(conf, args...)
}

// The clock moves on with the requests served; it never goes back in a process (the program limits its
// rate of requests by the clock).
var bankClock int64 // nanoseconds since 1970
var bankStep int64  // added with each reading

var runLimit = 400 // requests of one run

func startBankClock(at time.Time) {
	atomic.StoreInt64(&bankClock, at.UnixNano())
	time.VerifNow = func() (int64, int64) {
		n := atomic.AddInt64(&bankClock, bankStep)
		return n / 1e9, n % 1e9
	}
}

func bankNow() time.Time { return time.Unix(0, atomic.LoadInt64(&bankClock)).UTC() }

func tick(d time.Duration) { atomic.AddInt64(&bankClock, int64(d)) }

// ---- failures of requests

type netFault struct {
	kind string
	must bool // success may not be reported
}

var netFaults = []netFault{
	{"dial", true}, {"reset", true}, {"garbage", true},
	{"401", true}, {"403", true}, {"404", true}, {"429", true}, {"500", true}, {"204", true}, {"503 with the data", true},
	{"cut 0", true}, {"cut half", true}, {"cut last", true}, {"cut chunk", true}, {"cut open half", true}, {"cut open last", true},
	{"empty", true}, {"null", true}, {"null ", true}, {"blank", true}, {"502 with the data", true}, {"400", true}, {"{}", true}, {"[]", true}, {"string", true}, {"html", true}, {"trailing", true}, {"twice", true},
	{"202 without the data", false}, {"206 with the first element", false},
	{"extra field", false}, {"null element", true}, {"element without id", true}, {"element with number as id", true}, {"element is a string", true},
	{"chunked", false}, {"not authenticated", true},
}

// faulty turns the right reply into the faulty one; ok is false if the kind does not apply.
func faulty(kind string, r reply) (f reply, ok bool) {
	f = r
	f.cut = len(r.body)
	list := func(elem string) bool {
		// into the first list of objects
		i := strings.Index(r.body, "[{")
		if i < 0 {
			return false
		}
		f.body = r.body[:i+1] + elem + "," + r.body[i+1:]
		return true
	}
	if r.opaque {
		switch kind {
		case "null ", "blank", "{}", "[]", "string", "extra field", "null element", "element without id", "element with number as id", "element is a string":
			return f, false
		}
	}
	if r.free && strings.Contains(kind, "element") {
		return f, false
	}
	if r.status >= 300 && strings.IndexAny(kind, "0123456789") != 0 && kind != "reset" && kind != "garbage" {
		return f, false
	}
	switch kind {
	case "reset", "garbage":
		f.how = kind
	case "400", "401", "403", "404", "429", "500":
		fmt.Sscan(kind, &f.status)
		f.body = `{"error":"no"}`
	case "204":
		f.status, f.body = 204, ""
	case "202 without the data", "206 with the first element":
		fmt.Sscan(kind, &f.status)
		// out of the first list of objects
		i := strings.Index(r.body, "[{")
		if i < 0 || r.opaque {
			return f, false
		}
		var list []json.RawMessage
		d := json.NewDecoder(strings.NewReader(r.body[i:]))
		if err := d.Decode(&list); err != nil {
			panic("harness: " + err.Error())
		}
		rest := r.body[i+int(d.InputOffset()):]
		if kind[:3] == "202" {
			f.body = r.body[:i] + "[]" + rest
		} else {
			f.body = r.body[:i+1] + string(list[0]) + "]" + rest
		}
	case "503 with the data", "502 with the data":
		fmt.Sscan(kind, &f.status)
	case "cut 0":
		f.how, f.cut = "cut", 0
	case "cut half":
		f.how, f.cut = "cut", len(r.body)/2
	case "cut last":
		f.how, f.cut = "cut", len(r.body)-1
	case "cut chunk":
		f.how = "cut chunk"
	case "cut open half":
		f.how, f.cut = "cut open", len(r.body)/2
	case "cut open last":
		f.how, f.cut = "cut open", len(r.body)-1
	case "empty":
		f.body = ""
	case "null", "{}", "[]":
		f.body = kind
	case "null ":
		f.body = "\r\n\tnull\n "
	case "blank":
		f.body = "\r\n\t \n"
	case "string":
		f.body = `"sorry"`
	case "html":
		f.body = "<html><body>sorry</body></html>"
	case "trailing":
		f.body = r.body + " }"
	case "twice":
		f.body = r.body + r.body
	case "extra field":
		if !strings.HasPrefix(r.body, "{\"") || strings.Contains(r.body, "requisition") || strings.Contains(r.body, "\"link\"") {
			return f, false
		}
		f.body = `{"new_field_of_the_bank":1,` + r.body[1:]
	case "null element":
		return f, list("null")
	case "element without id":
		return f, list(`{"name":"x"}`)
	case "element with number as id":
		return f, list(`{"id":1,"accountUid":1,"feedItemUid":1,"savingsGoalUid":1,"spaceUid":1,"transactionId":1,"created":"2020-01-01T00:00:00Z","updatedAt":"2020-01-01T00:00:00Z","transactionTime":"2020-01-01T00:00:00Z","name":"x","defaultCategory":"x","createdAt":"2020-01-01T00:00:00Z"}`)
	case "element is a string":
		return f, list(`"x"`)
	case "not authenticated":
		f.body = strings.Replace(r.body, `"authenticated":true`, `"authenticated":false`, 1)
		return f, f.body != r.body
	case "chunked":
		f.how = "chunked"
	default:
		panic("harness: fault " + kind)
	}
	return f, true
}

// netRun serves one run of the program.
type netRun struct {
	right  func(r *http.Request, form url.Values) reply
	faults map[int]string
	n      int // requests
	dials  int
	log    []string
	hit    map[int]bool // faults that applied
	kinds  []string     // path of each request
	since  map[int]bool // requests with a beginning of their window
	limit  int
	over   bool
	delay  time.Duration // time a request takes
}

var errRefused = errors.New("connection refused")

func (nr *netRun) install() {
	nr.hit = map[int]bool{}
	nr.since = map[int]bool{}
	if nr.limit == 0 {
		nr.limit = runLimit
	}
	if nr.delay == 0 {
		nr.delay = time.Second
	}
	bank.mu.Lock()
	defer bank.mu.Unlock()
	bank.dial = func() error {
		bank.mu.Lock()
		defer bank.mu.Unlock()
		if nr.faults[nr.n] == "dial" {
			nr.hit[nr.n] = true
			nr.log = append(nr.log, "connection refused")
			nr.kinds = append(nr.kinds, "")
			nr.n++
			tick(nr.delay)
			return errRefused
		}
		return nil
	}
	bank.handler = func(r *http.Request, form url.Values) reply {
		i := nr.n
		nr.n++
		tick(nr.delay)
		nr.kinds = append(nr.kinds, r.URL.Path)
		nr.since[i] = r.URL.Query().Get("since") != ""
		if nr.n > nr.limit {
			nr.over = true
			return reply{status: 500, body: "too many requests in this run"}
		}
		rep := nr.right(r, form)
		l := fmt.Sprintf("%s %s", r.Method, r.URL.RequestURI())
		if k, ok := nr.faults[i]; ok {
			if f, ok := faulty(k, rep); ok {
				nr.hit[i] = true
				rep = f
				l += " (" + k + ")"
			}
		}
		if len(nr.log) < 60 {
			nr.log = append(nr.log, fmt.Sprintf("%s -> %d", l, rep.status))
		}
		return rep
	}
}

// obj is a record of the bank.
type obj map[string]interface{}

func (o obj) json() string { return canon(map[string]interface{}(o)) }

// readJSON reads a state file without the code under test.
func readJSON(fn string) (map[string]interface{}, bool) {
	b, err := os.ReadFile(fn)
	if os.IsNotExist(err) {
		return nil, false
	}
	if err != nil {
		panic("harness: " + err.Error())
	}
	if strings.HasSuffix(fn, ".gz") {
		b = gunzip(b)
	}
	var v map[string]interface{}
	if err := json.Unmarshal(b, &v); err != nil {
		panic(failure{"", fmt.Sprintf("the state file is no JSON object: %v: %s", err, clip(string(b), 200))})
	}
	return v, true
}

// strs gives the members of an object as canonical texts.
func strs(v interface{}, path ...string) map[string]string {
	out := map[string]string{}
	for _, p := range path {
		m, _ := v.(map[string]interface{})
		v = m[p]
	}
	m, _ := v.(map[string]interface{})
	for k, x := range m {
		out[k] = canon(x)
	}
	return out
}
