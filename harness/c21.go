//go:build verifmc

package main

import (
	"bytes"
	"encoding/csv"
	"encoding/json"
	"errors"
	"fmt"
	"io/ioutil"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"
)

func init() {
	register(&Prop{ID: "C21", Level: "exploration", Fresh: true,
		Rule:        "every pair (thorough: triple) of option settings, good and bad, of every command with every ledger of a list of peculiar ones and every argument of a list; every sequence up to the depth of argument texts for every command; every ledger file up to the depth over an alphabet of good and bad lines through every report; imports and scripts of every format over peculiar data and parameters; every beginning of the starter configuration, every place of it with a character replaced, and peculiar names; and the built program against the same commands in this process. Each must end, within limits of time and memory, without a panic, with well-formed output or an error message",
		Assumptions: []string{"a result as large as the one that was asked for may take as much memory", "scripts end", "the network fails at once"},
		Run:         runC21})
}

// a failing network
type noNet struct{}

func (noNet) RoundTrip(*http.Request) (*http.Response, error) {
	return nil, errors.New("no network")
}

// peculiar ledgers
func c21ledgers() [][2]string {
	huge := strings.Repeat("9", 400)
	deep := "A" + strings.Repeat(":b", 300)
	var many strings.Builder
	for i := 0; i < 40; i++ {
		fmt.Fprintf(&many, "2020/%d/%d p%d\n  A:%c  %d.%0*d X%d\n  B\n\n", 1+i%12, 1+i%28, i%7, 'A'+i%5, i, i%6+1, i, i%3)
	}
	return [][2]string{
		{"empty", ""},
		{"blank lines", "\n \n\t\n"},
		{"comment only", "; nothing"},
		{"prices only", "P 2020/1/1 X 2 USD\nP 2020/1/1 USD 0 X\n"},
		{"one posting", "2020/1/1 p\n  A\n"},
		{"one zero posting", "2020/1/1 p\n  A  0 X\n"},
		{"one transaction", "2020/1/1 p\n  A  1 X\n  B  -1 X\n"},
		{"two currencies", "2020/1/1 p\n  A:B  1.5 X\n  A  -1.5 X\n\n2020/2/29 q\n  A  7 USD\n  E:C\n\n2020/3/1 q\n  A:B  1 X\n  A:B  -7 USD\n  Income  7 USD\n  Income  -1 X\n"},
		{"zero prices", "P 2020/1/1 X 0 USD\nP 2020/1/1 USD 0 X\n2020/1/1 p\n  A  1 X\n  B  -1 X\n\n2020/1/2 p\n  A  1 USD\n  B  -1 USD\n"},
		{"price circle", "P 2020/1/1 X 2 USD\nP 2020/1/1 USD 3 EUR\nP 2020/1/1 EUR 5 X\nP 2020/1/1 X 1 X\n2020/1/1 p\n  A  1 X\n  B  -1 X\n\n2019/1/1 p\n  A  1 EUR\n  B\n"},
		{"huge amounts", "P 2020/1/1 X " + huge + " USD\n2020/1/1 p\n  A  " + huge + ".5 X\n  B  -" + huge + ".5 X\n"},
		{"tiny amounts", "P 2020/1/1 X 0." + strings.Repeat("0", 300) + "1 USD\n2020/1/1 p\n  A  0." + strings.Repeat("0", 200) + "1 X\n  B\n"},
		{"deep account", "2020/1/1 p\n  " + deep + "  1 X\n  A  -1 X\n"},
		{"empty account parts", "2020/1/1 p\n  A::B  1 X\n  :C  -1 X\n\n2020/1/2 p\n  A:  1 X\n  :  -1 X\n"},
		{"first and last day", "1000/1/1 p\n  A  1 X\n  B\n\n9999/12/31 p\n  A  1 X\n  B\n"},
		{"peculiar texts", "2020/1/1 \"p\\\"\u00e9\u3042\x1b[31m\x01\" ; n\u2028\n  A  1 \"c c\" ; <b>&\x1b[\n  B\n\n2020/1/2\n  A  1 \u00a3\n  B\n"},
		{"cancelled", "2020/1/1 p\n  A  1 X\n  B\n\n2020/1/1 p\n  B  1 X\n  A\n"},
		{"many", many.String()},
		{"includes itself", "include main.ledger\n2020/1/1 p\n  A  1 X\n  B\n"},
		{"unbalanced", "2020/1/1 p\n  A  1 X\n  B  1 X\n"},
		{"broken", "2020/13/45 p\n  A  1 X\n  B\n"},
		{"binary", "\x00\x01\xff\xfe\n\x80"},
	}
}

var c21args = []string{"", ".*", "A", "A:B", "(", "\xff", "map=/A/B/", "map=/(/x/", "move=/A/Z:$1/0.5/", "depreciate=/./D/3/", "since=last year", "asof=2020-02-29", "combine=monthly", "combine=x", "mapccy=/X/Y/", "mapccy=/^(.*)$/$1$1/", "=", "map=", "m", "loop", "missing", "asof=0000-00-00", "depreciate=/./x/99999999999999999999/", "move=/./x/" + strings.Repeat("9", 400) + "/", "map=/^$/x/", "map=/A|B|E|I/:/"}

const c21conf = "[macros]\nm = [\"map=/^A/Z/\", \"m2\"]\nm2 = [\"since=1900-01-01\"]\nloop = [\"loop2\"]\nloop2 = [\"loop\"]\n"

var c21root = []string{"--all", "--ccy=", "--ccy=X", "--ccy=USD", "--ccy=NONE", "--ccy=\xff \"", "--divider=", "--divider=A", "--divider=::", "--divider=\n", "--lang=", "--lang=de", "--lang=zz-ZZ-1-", "--lang=fr", "--colour=false", "--verbose"}

var c21opts = map[string][]string{
	"report":   {"--type=Text", "--type=Ledger", "--type=Json", "--type=HTML", "--type=Beancount", "--type=bad", "--splitby=yearly", "--splitby=monthly", "--splitby=today", "--splitby=none", "--splitby=skip", "--splitby=", "--sum", "--convert", "--credit=", "--credit=^(A|I)", "--credit=(", "--credit=.*", "--hidden=A", "--hidden=", "--hidden=(", "--htmlcss=p{}</style>", "--htmlcss=file:none", "--htmlcss=file:", "--htmlcss=file:.", "--jsonpretty"},
	"register": {"--type=Text", "--type=JSON", "--type=CSV", "--type=bad", "--type=", "--count=0", "--count=1", "--count=-1", "--count=9223372036854775807", "--count=-9223372036854775808", "--count=x", "--begin=", "--begin=2020-02-29", "--begin=last year", "--begin=0", "--begin=9999-12-31", "--asof=2020-03", "--asof=next quarter", "--asof=0001-01-01", "--asof=\xff", "--asc", "--split", "--convert", "--zero", "--combined"},
	"export":   {"--type=Ledger", "--type=Json", "--type=Beancount", "--type=CSV", "--type=bad", "--type=", "--jsonpretty"},
	"accts":    {"--json", "--json=maybe"},
	"ccy":      {},
}

// subsets of up to n of the options, none of the same name twice
func subsets(opts []string, n int, f func([]string)) {
	var rec func(i int, cur []string)
	rec = func(i int, cur []string) {
		f(cur)
		if len(cur) == n {
			return
		}
		for j := i; j < len(opts); j++ {
			dup := false
			for _, o := range cur {
				if strings.SplitN(o, "=", 2)[0] == strings.SplitN(opts[j], "=", 2)[0] {
					dup = true
				}
			}
			if !dup {
				rec(j+1, append(cur[:len(cur):len(cur)], opts[j]))
			}
		}
	}
	rec(0, nil)
}

// crashText are the words of a crash that has been turned into an error message.
var crashText = []string{"runtime error", "goroutine ", "nil pointer", "index out of range", "slice bounds", "interface conversion", "assignment to entry", "reflect:", "reflect."}

// ended checks that a command ended properly.
func (t *T) ended(r cliOut, format string) {
	if r.err != nil {
		msg := r.err.Error()
		if strings.TrimSpace(msg) == "" {
			t.Failf("an error without a message")
		}
		for _, c := range crashText {
			if strings.Contains(msg, c) || strings.Contains(msg, "loading failure") && strings.Contains(msg, "division by zero") {
				t.Failf("the program crashed: the error is %q", clip(msg, 500))
			}
		}
		t.Outcome("error")
	} else {
		t.Outcome("result")
		switch format {
		case "json":
			if r.out != "" && !json.Valid([]byte(r.out)) {
				t.Failf("the JSON is not well-formed: %q", clip(r.out, 500))
			}
		case "csv":
			rd := csv.NewReader(strings.NewReader(r.out))
			if _, err := rd.ReadAll(); err != nil {
				t.Failf("the CSV is not well-formed: %v: %q", err, clip(r.out, 500))
			}
		}
	}
	if i := strings.Index(r.out, "%!"); i >= 0 && r.err == nil {
		for _, v := range []string{"%!d(", "%!s(", "%!v(", "%!f(", "%!(EXTRA", "%!(MISSING", "%!(NOVERB", "%!q(", "%!x("} {
			if strings.Contains(r.out, v) {
				t.Failf("the output has a broken format: %q", clip(r.out[i:], 200))
			}
		}
	}
	t.State(fmt.Sprint(r.err != nil, len(r.out), hash64(r.out)))
	t.Trans(1)
}

func c21format(cmdName string, opts []string) string {
	for _, o := range opts {
		switch {
		case o == "--json" && cmdName == "accts":
			return "json"
		case strings.EqualFold(o, "--type=json") && cmdName != "register":
			return "json"
		case strings.EqualFold(o, "--type=csv") && cmdName != "register":
			return "csv"
		}
	}
	return ""
}

func quoted(args []string) string {
	var q []string
	for _, a := range args {
		q = append(q, fmt.Sprintf("%q", clip(a, 80)))
	}
	return strings.Join(q, " ")
}

func (w *W) c21options() {
	leds := c21ledgers()
	n := 2
	if w.Thorough {
		n = 3
	}
	for _, c := range []string{"report", "register", "export", "accts", "ccy"} {
		w.Section("options of " + c)
		opts := append(append([]string{}, c21opts[c]...), c21root...)
		depth := n
		if len(opts) < 30 {
			depth++
		}
		var args [][]string
		switch c {
		case "register":
			args = [][]string{{"."}, {"^A"}, {"map=/A/B/", "."}, {"mapccy=/^(.*)$/$1$1/", "B"}, {"depreciate=/A/D/3/", "since=2020-02-01", "E|A"}, nil, {""}, {"("}, {"move=/A/Z/0.5/", ""}, {"x"}, {"\xff"}}
		case "accts":
			args = [][]string{nil, {"A"}, {""}, {"("}, {"A", "B"}, {"\xff"}, {"[^A]$"}}
		case "ccy":
			args = [][]string{nil, {"X"}}
		default:
			args = [][]string{nil, {"m"}, {"map=/A/B/", "combine=monthly"}, {"mapccy=/^(.*)$/$1$1/"}, {"depreciate=/A/D/3/", "since=2020-02-01"}, {"map=/A|B|E|I/:/"}, {"loop"}, {"move=/./Z:$0/0.5/", "asof=2020-02-29"}}
		}
		for li, l := range leds {
			if w.Thorough && li >= 18 {
				continue // these are refused; the arguments section has them
			}
			l := l
			subsets(opts, depth, func(os_ []string) {
				for ai, a := range args {
					if len(os_) == depth && depth == 3 && ai > 3 && (c == "report" || c == "register") {
						continue
					}
					all := append(append([]string{c}, os_...), a...)
					w.Case(func() string { return fmt.Sprintf("ledger %q: goledger %s", l[0], quoted(all)) }, func(t *T) {
						w.write("main.ledger", l[1])
						t.ended(w.cli(c21conf, all...), c21format(c, os_))
						t.Nontrivial(l[0] + quoted(all))
					})
				}
			})
		}
		w.Done()
	}
}

var c21words = []string{"", "-", "--", "-h", "--help", "--version", "help", "report", "register", "export", "accts", "ccy", "import", "generate", "macros", "ops", "config", "format", "download", "starling", "nordigen", "shell", "docs", "completion", "bash", "__complete", "__completeNoDesc", "trans", "accounts", "completions", "odd", "--type", "--type=", "--type=yaml", "--type=zsh", "-l", "-l=", "-lnone", "--ledger=.", "-d", "-d=sub", "--all=x", "--no", "---", "-x", "-hh", "=", "(", ".", "\xff", "\x00", "m", "map=/A/B/", "--ccy", "--count=1", "--credit=(", "--format=csv", "--format=:", "--code=", "--code=1/0", "-a", "-a=A", "-c=B", "main.ledger", strings.Repeat("x", 5000)}

func (w *W) c21words() {
	w.Section("words")
	depth := 2
	if w.Thorough {
		depth = 3
	}
	old := http.DefaultTransport
	http.DefaultTransport = noNet{}
	defer func() { http.DefaultTransport = old }()
	seqs(len(c21words), depth, func(ix []int) {
		for n := 0; n < 2; n++ {
			var args []string
			for _, i := range ix {
				args = append(args, c21words[i])
			}
			if n == 1 {
				if len(ix) < depth || w.Thorough {
					continue
				}
				args = append([]string{"report", "--sum"}, args...)
			}
			interactive := false
			for _, a := range args {
				if a == "docs" || a == "starling" || a == "nordigen" {
					interactive = true
				}
			}
			w.Case(func() string { return "goledger " + quoted(args) }, func(t *T) {
				w.write("main.ledger", c21ledgers()[7][1])
				os.MkdirAll(filepath.Join(w.Scratch, "sub"), 0755)
				r := w.cli(c21conf, args...)
				if interactive {
					c21clean(w)
				}
				t.ended(r, "")
				t.Nontrivial(quoted(args))
			})
		}
	})
	w.Done()
}

// c21clean removes what the commands wrote.
func c21clean(w *W) {
	for _, d := range []string{w.Scratch, filepath.Join(w.Scratch, "sub"), filepath.Join(w.Scratch, "=sub")} {
		fs, _ := ioutil.ReadDir(d)
		for _, f := range fs {
			n := f.Name()
			if strings.HasPrefix(n, "goledger") && !f.IsDir() {
				os.Remove(filepath.Join(d, n))
			}
		}
	}
}

// states of downloads: the file in all kinds of conditions
func (w *W) c21downloads() {
	w.Section("downloads")
	old := http.DefaultTransport
	defer func() { http.DefaultTransport = old }()
	tok := `"token":{"access_token":"old","refresh_token":"ref","expiry":"2001-01-01T00:00:00Z"}`
	states := []string{"", "{", "null", "[]", "1", "{}", "{} {}", "\xff", "{\"x\":1}", `{"token":null}`,
		`{` + tok + `}`, `{` + tok + `,"transactions":null,"accounts":null}`, `{` + tok + `,"transactions":{"t":null},"accounts":{"a":null}}`, `{` + tok + `,"accounts":{"":{}}}`,
		`{"accounts":null}`, `{"accounts":{"a1":null}}`, `{"accounts":{"a1":{}}}`, `{"accounts":{"a1":{"account":null,"feeditems":null}}}`, `{"accounts":{"a1":{"account":{"accountUid":"a1","defaultCategory":"c1","createdAt":"2020-01-01T00:00:00.000Z"},"feeditems":{"c1":{"f1":null}}}}}`, `{"accounts":{"a1":{"account":{"accountUid":"a1","defaultCategory":"c1","createdAt":"x"},"feeditems":{"c1":null}}}}`, `{"accounts":{"a1":{"account":{"accountUid":"a1","defaultCategory":"c1","createdAt":"2020-01-01T00:00:00.000Z"},"feeditems":{"c1":{"f1":{}}}}}}`,
		`{"Institution":null}`, `{"Institution":{"id":"B0","name":"x"}}`, `{"Institution":{"id":"B0","name":"x"},"Requisition":null}`, `{"Institution":{"id":"B0","name":"x"},"Requisition":{"id":"r","link":"l","accounts":[]}}`, `{"Institution":{"id":"B0","name":"x"},"Requisition":{"id":"r","link":"l","accounts":["a",""]},"Accounts":{"a":null}}`}
	replies := []string{"\x00", "{}", "[]", "null", "", "{", "1", "[null]", "[{}]", `{"access":"x"}`, `{"accounts":null}`, `{"accounts":[null]}`, `{"accounts":[{}]}`, `{"accounts":[{"accountUid":"a1","defaultCategory":"c1","createdAt":"2020-01-01T00:00:00.000Z"}]}`, `{"transactions":[null]}`, `{"results":[null]}`}
	codes := []int{200, 403, 500, 401, 404, 429, 201, 301}
	for _, bank := range []string{"monzo", "starling", "nordigen"} {
		for _, s := range states {
			if bank == "monzo" && !strings.Contains(s, tok) && json.Valid([]byte(s)) && s != "{} {}" {
				continue // logs in through a browser
			}
			for _, rp := range replies {
				for _, code := range codes {
					if !w.Thorough && code != 200 && rp != "{}" && rp != "[]" || rp == "\x00" && code != 200 {
						continue
					}
					w.Case(func() string {
						return fmt.Sprintf("goledger download %s, state %q, replies %d %q", bank, s, code, rp)
					}, func(t *T) {
						http.DefaultTransport = sameReply{code, rp}
						if rp == "\x00" {
							http.DefaultTransport = noNet{}
						}
						w.write("state.json", s)
						t.ended(w.cli("[download.starling]\ntoken = \"t\"\n", "download", bank, "state.json"), "")
						t.Nontrivial(bank + s + rp + fmt.Sprint(code))
					})
				}
			}
		}
	}
	w.Done()
}

// a network that always replies the same
type sameReply struct {
	code int
	body string
}

func (s sameReply) RoundTrip(q *http.Request) (*http.Response, error) {
	return &http.Response{StatusCode: s.code, Status: fmt.Sprint(s.code), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{"Content-Type": {"application/json"}}, Body: ioutil.NopCloser(strings.NewReader(s.body)), Request: q}, nil
}

// lines of ledgers, good and bad
var c21lines = []string{"2020/1/1 p", "2020/01/01=2020/2/1 * (c) p ; n", "1/1 p", "  A  1 X", "  A  -1 X", "  B", "  A", "  A  1", "  A:B  $1.5", "  [A]  1 X", "  A  1 X @ 2 USD", "  A  ", "  ; note", "; note", "", " ", "P 2020/1/1 X 2 USD", "P 2020/1/1 X", "P", "include none", "include main.ledger", "include *", "alias A=B", "comment", "end comment", "test", "account A", "A", "Y 2020", "2020/1/1", "2020/1/1 \"", "D $1", "=", "~ monthly", "\tB\t1\tX", "!", "@", "  A  1e5 X", "  A  1,000.00 X", "  A  X 1", "\xff", "apply account A", "  A  -0 X", "  A  .5 X", "  A  5. X"}

func (w *W) c21files() {
	w.Section("ledger files")
	depth := 3
	if w.Thorough {
		depth = 4
	}
	cmds := [][]string{{"report", "--type=Text", "--sum", "--ccy=X", "--splitby=monthly"}, {"export", "--type=Beancount"}, {"register", "--combined", "--convert", "--ccy=USD", "--type=CSV", "."}, {"accts", "--json"}, {"ccy"}}
	seqs(len(c21lines), depth, func(ix []int) {
		if len(ix) == 4 {
			// the last two lines are of the first half
			if ix[2] > 22 || ix[3] > 22 {
				return
			}
		}
		for n, c := range cmds {
			if len(ix) == depth && n > 0 {
				continue
			}
			c := c
			w.Case(func() string {
				var l []string
				for _, i := range ix {
					l = append(l, c21lines[i])
				}
				return fmt.Sprintf("ledger %q: goledger %s", strings.Join(l, "\n"), quoted(c))
			}, func(t *T) {
				var sb strings.Builder
				for _, i := range ix {
					sb.WriteString(c21lines[i])
					sb.WriteByte('\n')
				}
				w.write("main.ledger", sb.String())
				f := ""
				if c[0] == "accts" {
					f = "json"
				}
				t.ended(w.cli("", c...), f)
				t.Nontrivial(sb.String())
			})
		}
	})
	w.Done()
}

func (w *W) c21imports() {
	w.Section("imports")
	formats := []string{"csv", "csv:delim=", "csv:delim=\"", "csv:delim=\n", "csv:delim=xx,skip=1", "csv:skip=-1", "csv:skip=99999999999999999999", "csv:skip=2", "csv:header=1", "json", "json:", "json:x=y", "ofx", "xml", "none", "", ":", ",", "csv:=", "csv:skip=1,skip=2", "tab", "fixed", "CSV"}
	codes := []string{"", "[]", "x", "def f(x): return x\nf", "data", "[i for i in data]", "{}", "None", "1/0", "lambda x: x", "[{}]", "[{'date':'2020-01-01'}]", "[{'date':'2020-01-01','payee':'p','amount':1,'ccy':'X'}]", "[{'date':20200101,'payee':1,'amount':'1','ccy':'X'}]", "[{'date':'2020-01-01','payee':'p','amount':float('nan'),'ccy':'X'}]", "[{'date':'2020-01-01','payee':'p','amount':float('inf'),'ccy':'X'}]", "[{'date':'2020-01-01','payee':'p','amount':1e308,'ccy':'X'}]", "[{'date':'2020-01-01','payee':'p','amount':1<<2000,'ccy':'X'}]", "def process(f, r): return r", "def process(): pass", "process = 1", "fail('x')", "load('x', 'y')", "file:none", "file:.", "file:", "[1,'x',None,(),{},set]", "a = []\na.append(a)\na", "[{'date':'2020-01-01','payee':'p','postings':[]}]", "add('x')", "print('x')"}
	datas := []string{"", "\n", "a,b\n", "\"", "2020-01-01,1,p\n", "[]", "{}", "[1,{\"a\":null}]", "[" + strings.Repeat("[", 2000), strings.Repeat("[", 2000) + strings.Repeat("]", 2000), "\xff\xfe\x00", "a\tb", "<a>", "null", "1e999", "\"a\nb\",\n"}
	params := [][]string{{"-a", "A", "-c", "B"}, {"-a", "", "-c", ""}, {"-a", "A  1 X\n", "-c", ";"}, {"-a", "A", "-c", "A"}}
	for fi, f := range formats {
		for _, c := range codes {
			for _, d := range datas {
				for pi, p := range params {
					for li, l := range []int{0, 7} {
						if !w.Thorough && (pi > 0 && fi > 1 || li == 1 && pi > 0) {
							continue
						}
						l := l
						args := append(append([]string{"import"}, p...), "--format", f, "--code", c, "data", "data")
						w.Case(func() string {
							return fmt.Sprintf("ledger %q, data %q: goledger %s", c21ledgers()[l][0], clip(d, 80), quoted(args))
						}, func(t *T) {
							w.write("main.ledger", c21ledgers()[l][1])
							w.write("data", d)
							t.ended(w.cli("", args...), "")
							t.Nontrivial(d + quoted(args))
						})
						if fi == 0 && pi == 0 {
							args := []string{"generate", "--code", c}
							conf := "[generate.g]\ncode = " + tomlStr(c) + "\n[importdefs.i]\ncode = " + tomlStr(c) + "\nconfigtype = \"json\"\naccount = \"A\"\n"
							for _, a := range [][]string{args, {"generate", "g"}, {"import", "i", "-c", "B", "data"}, {"import", "i", "data"}} {
								a := a
								w.Case(func() string {
									return fmt.Sprintf("ledger %q, data %q, configured code %q: goledger %s", c21ledgers()[l][0], clip(d, 80), c, quoted(a))
								}, func(t *T) {
									w.write("main.ledger", c21ledgers()[l][1])
									w.write("data", d)
									t.ended(w.cli(conf, a...), "")
									t.Nontrivial(d + quoted(a) + c)
								})
							}
						}
					}
				}
			}
		}
	}
	w.Done()
}

func (w *W) c21configs() {
	w.Section("configurations")
	try := func(conf string, args ...string) {
		w.Case(func() string {
			return fmt.Sprintf("configuration %q: goledger %s", clip(conf, 2000), quoted(args))
		}, func(t *T) {
			w.write("main.ledger", c21ledgers()[7][1])
			r := w.cli(conf, args...)
			c21clean(w)
			t.ended(r, "")
			t.Nontrivial(conf + quoted(args))
		})
	}
	starter := ""
	// the starter configuration is what the first run writes
	{
		fn := filepath.Join(w.Scratch, "fresh.toml")
		os.Remove(fn)
		w.env(w.Scratch, map[string]string{"GOLEDGER_CONF": fn}, "ops")
		b, err := ioutil.ReadFile(fn)
		if err != nil {
			panic("harness: no starter configuration: " + err.Error())
		}
		os.Remove(fn)
		lastConf = "\x00"
		starter = string(b)
	}
	// with and without the comment signs
	plain := strings.Replace(starter, "\n#", "\n", -1)
	for _, s := range []string{starter, plain} {
		step := 1
		for i := 0; i <= len(s); i += step {
			try(s[:i], "report")
			if w.Thorough {
				try(s[:i], "help", "import")
				for _, c := range []string{"\"", "[", "]", "=", "\n", "\x00", "9", "'", "\\"} {
					if i < len(s) {
						try(s[:i]+c+s[i+1:], "report")
					}
				}
			} else if i < len(s) && i%3 == 0 {
				try(s[:i]+"\""+s[i+1:], "report")
			}
		}
	}
	// peculiar names
	names := []string{"", " ", "a b", "-", "--", "-h", "help", "import", "generate", "\xc3\xa9", ".", "a.b", "[", "x\ty", "{{", "$", "completion"}
	for _, n := range names {
		for _, m := range names {
			conf := "[importdefs." + tomlStr(n) + "]\ncode = \"[]\"\n[importdefs." + tomlStr(m+"2") + "]\ncode = \"x\"\nconfigtype = \"csv\"\n[generate." + tomlStr(n) + "]\ncode = \"[]\"\n[generate." + tomlStr(m+"2") + "]\n[macros]\n" + tomlStr(n) + " = [" + tomlStr(m) + "]\n" + tomlStr(m+"2") + " = []\n[register]\naccounts = [" + tomlStr(n) + ", " + tomlStr(m) + "]\n"
			for _, a := range [][]string{{"help"}, {"help", "import"}, {"import", n}, {"import", n, "-a", "A", "-c", "B", "--format", "csv", "data"}, {"generate", n}, {"generate", m + "2", "--code", "[]"}, {"report", n}, {"report", m + "2"}, {"macros"}, {"help", "macros"}, {"docs", "-d", "sub"}, {"docs", "-t", "markdown", "-d", "sub"}, {"docs", "-t", "yaml", "-d", "sub"}, {"docs", "-t", "rest", "-d", "sub"}, {"shell", "--type=bash"}, {"shell", "--type=zsh"}, {"shell", "--type=powershell"}, {"completion", "fish"}, {"__complete", "register", ""}, {"__complete", "report", n}, {"__complete", "import", n, ""}, {"__complete", "generate", ""}} {
				if !w.Thorough && n != m && a[0] != "report" && a[0] != "import" && a[0] != "__complete" {
					continue
				}
				try(conf, a...)
			}
		}
	}
	w.Done()
}

// c21real compares the built program with the same commands in this process.
func (w *W) c21real() {
	w.Section("the built program")
	prog := os.Getenv("VERIF_GOLEDGER")
	if prog == "" {
		panic("harness: the program has not been built")
	}
	old := http.DefaultTransport
	http.DefaultTransport = noNet{}
	defer func() { http.DefaultTransport = old }()
	run := func(l [2]string, args ...string) {
		w.Case(func() string {
			return fmt.Sprintf("ledger %q: the program goledger %s", l[0], quoted(args))
		}, func(t *T) {
			time.Local = time.UTC
			w.write("main.ledger", l[1])
			r := w.cli(c21conf, args...)
			c := exec.Command(prog, args...)
			c.Dir = w.Scratch
			c.Env = []string{"HOME=" + w.Scratch, "GOLEDGER_CONF=" + filepath.Join(w.Scratch, "conf.toml"), "PATH=" + os.Getenv("PATH"), "TZ=UTC"}
			if lang, ok := os.LookupEnv("LANG"); ok {
				c.Env = append(c.Env, "LANG="+lang)
			}
			var out, errout bytes.Buffer
			c.Stdout, c.Stderr = &out, &errout
			err := c.Run()
			code := -1
			if c.ProcessState != nil {
				code = c.ProcessState.ExitCode()
			}
			if strings.Contains(errout.String(), "goroutine ") || strings.Contains(errout.String(), "panic") {
				t.Failf("the program crashes: %s", clip(errout.String(), 1000))
			}
			if r.err == nil && err != nil || r.err != nil && code != 1 {
				t.Failf("the program ends with status %d (%q); the command's error is %v", code, clip(errout.String(), 500), r.err)
			}
			if r.err != nil && strings.TrimSpace(errout.String()) == "" {
				t.Failf("the program says nothing about the error %v", r.err)
			}
			if r.err != nil && !strings.Contains(errout.String(), r.err.Error()) {
				t.Failf("the program does not show the error %v but %q", r.err, clip(errout.String(), 500))
			}
			if out.String() != r.out {
				t.Failf("the program prints %q, the command in the harness %q", clip(out.String(), 1000), clip(r.out, 1000))
			}
			c21clean(w)
			t.ended(r, "")
			t.Trace()
			t.Nontrivial(l[0] + quoted(args))
		})
	}
	leds := c21ledgers()
	for li, l := range leds {
		for _, c := range []string{"report", "register", "export", "accts", "ccy"} {
			if c != "register" {
				run(l, c)
			}
			for _, o := range c21opts[c] {
				if !w.Thorough && li%4 != 3 {
					continue
				}
				if c == "register" {
					run(l, c, o, ".")
				} else {
					run(l, c, o)
				}
			}
			if c == "ccy" || c == "accts" {
				continue
			}
			for i, a := range c21args {
				if w.Thorough || i%6 == li%6 {
					run(l, c, a)
				}
			}
		}
	}
	for _, a := range c21words {
		if strings.Contains(a, "\x00") {
			continue // cannot be passed to a program
		}
		run(leds[7], a)
		if w.Thorough {
			for _, b := range c21words {
				if !strings.Contains(b, "\x00") && a != "docs" && a != "download" {
					run(leds[7], a, b)
				}
			}
		}
	}
	w.Done()
}

func runC21(w *W) {
	w.c21real()
	w.c21configs()
	w.c21downloads()
	w.c21imports()
	w.c21files()
	w.c21words()
	w.c21options()
}
