//go:build verifmc

package main

import (
	"bytes"
	"fmt"
	"io/ioutil"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"

	"github.com/mescanne/goledger/cmd"
)

func init() {
	register(&Prop{ID: "C19", Level: "exploration", Fresh: true,
		Rule:        "every assignment of absent/good/bad/directory to the eight places a configuration can be in, crossed with HOME, XDG_CONFIG_HOME and GOLEDGER_CONF settings, against the documented search order; every key of the configuration with every kind of value, every misspelt key at every level; and for every command every pair (thorough: triple) of options with every combination of configured and given values, compared with the same values all given as flags to a program with an empty configuration",
		Assumptions: []string{"each key is written once (whatever its case)", "which options an option is compared with is fixed by a few contexts per command", "credentials are observed in the requests that are sent, the loop-back port in the help text"},
		Run:         runC19})
}

// env runs a command in a directory with the given environment, in this process.
func (w *W) env(dir string, env map[string]string, args ...string) cliOut {
	old := map[string]string{}
	for _, k := range []string{"HOME", "XDG_CONFIG_HOME", "GOLEDGER_CONF"} {
		old[k] = os.Getenv(k)
		if v, ok := env[k]; ok {
			os.Setenv(k, v)
		} else {
			os.Unsetenv(k)
		}
	}
	w.cliFilesReady()
	os.Chdir(dir)
	os.Args = append([]string{"goledger"}, args...)
	os.Stdout, os.Stderr = cliFiles[0], cliFiles[1]
	os.Stdin = devnull
	defer func() {
		restoreStd()
		os.Chdir(w.Scratch)
		for k, v := range old {
			os.Setenv(k, v)
		}
	}()
	err := cmd.Execute()
	return cliOut{readBack(cliFiles[0]), readBack(cliFiles[1]), err}
}

// tree is every file below a directory with its content (directories end in a slash).
func tree(dir string) map[string]string {
	out := map[string]string{}
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil || p == dir {
			return nil
		}
		rel, _ := filepath.Rel(dir, p)
		if fi.IsDir() {
			out[rel+"/"] = ""
			return nil
		}
		b, _ := ioutil.ReadFile(p)
		out[rel] = string(b)
		return nil
	})
	return out
}

func treeDiff(a, b map[string]string) (changed []string) {
	for k, v := range a {
		if x, ok := b[k]; !ok || x != v {
			changed = append(changed, k)
		}
	}
	for k := range b {
		if _, ok := a[k]; !ok {
			changed = append(changed, k)
		}
	}
	sort.Strings(changed)
	return
}

const c19led = "2020/1/1 p\n  %s:A  1 X\n  Zero  -1 X\n\n2020/1/2 p\n  %s:B  -1 X\n  Zero  1 X\n\n"

var c19places = []string{"x/goledger/goledger.toml", "x/goledger/goledger.cfg", "h/goledger.toml", "h/goledger.cfg", "h/.goledger.toml", "h/.goledger.cfg", "c/goledger.toml", "c/goledger.cfg"}

// what the accounts listing must be with the configuration of place i (-1: built in)
func c19accts(i int) string {
	name := "Main"
	colour, all := true, false
	if i >= 0 {
		name = fmt.Sprint("F", i)
		colour, all = i%2 == 0, i%3 == 0
	}
	rows := []string{"Account", name + ":A", name + ":B"}
	if all {
		rows = append(rows, "Zero")
	}
	n := 0
	for _, r := range rows {
		if len(r) > n {
			n = len(r)
		}
	}
	out := ""
	for k, r := range rows {
		pad := blanks(n - len(r))
		if k == 0 && colour {
			r = "\x1b[4;34m" + r + "\x1b[0m"
		}
		out += r + pad + "\n"
	}
	return out
}

func c19conf(i int, led string) string {
	s := "ledger = " + tomlStr(led) + "\n"
	if i%2 != 0 {
		s += "colour = false\n"
	}
	if i%3 == 0 {
		s += "all = true\n"
	}
	return s
}

func (w *W) search() {
	w.Section("search")
	base := filepath.Join(w.Scratch, "s")
	for i := -1; i < 10; i++ {
		n := "Main"
		if i >= 0 {
			n = fmt.Sprint("F", i)
		}
		w.write(fmt.Sprintf("led%d", i), fmt.Sprintf(c19led, n, n))
	}
	ledOf := func(i int) string { return filepath.Join(w.Scratch, fmt.Sprintf("led%d", i)) }
	main, _ := ioutil.ReadFile(ledOf(-1))
	// kinds of a place: nothing, a configuration, a directory, a file with an unknown key, an empty file
	one := func(kinds []int, home, xdg, conf string) {
		w.Case(func() string {
			return fmt.Sprintf("places %v (0 none, 1 file, 2 directory, 3 unknown key), HOME %s, XDG_CONFIG_HOME %s, GOLEDGER_CONF %s", kinds, home, xdg, conf)
		}, func(t *T) {
			os.RemoveAll(base)
			for _, d := range []string{"x", "h", "c"} {
				os.MkdirAll(filepath.Join(base, d), 0755)
			}
			ioutil.WriteFile(filepath.Join(base, "c/main.ledger"), main, 0644)
			places := append([]string{}, c19places...)
			if xdg == "unset" {
				places[0], places[1] = "h/.config/goledger/goledger.toml", "h/.config/goledger/goledger.cfg"
			}
			put := func(kind, i int, rel string) {
				fn := filepath.Join(base, rel)
				os.MkdirAll(filepath.Dir(fn), 0755)
				switch kind {
				case 1:
					ioutil.WriteFile(fn, []byte(c19conf(i, ledOf(i))), 0644)
				case 2:
					os.MkdirAll(fn, 0755)
				case 3:
					ioutil.WriteFile(fn, []byte(c19conf(i, ledOf(i))+"colr = true\n"), 0644)
				}
			}
			for i, k := range kinds {
				if k != 0 {
					put(k, i, places[i])
				}
			}
			env := map[string]string{}
			switch home {
			case "set":
				env["HOME"] = filepath.Join(base, "h")
			case "empty":
				env["HOME"] = ""
			}
			switch xdg {
			case "set":
				env["XDG_CONFIG_HOME"] = filepath.Join(base, "x")
			case "relative":
				env["XDG_CONFIG_HOME"] = "x"
			}
			// the places that count, in order
			type cand struct {
				rel  string
				kind int
				i    int
			}
			var cs []cand
			starter := ""
			switch conf {
			case "unset", "empty":
				if conf == "empty" {
					env["GOLEDGER_CONF"] = ""
				}
				haveDir := xdg == "set" || xdg == "unset" && home == "set"
				if haveDir {
					starter = places[0]
				}
				for i := range places {
					if i < 2 && !haveDir || i >= 2 && i < 6 && home != "set" {
						continue
					}
					cs = append(cs, cand{places[i], kinds[i], i})
				}
			default:
				rel := map[string]string{"file": "n/conf", "missing": "c/none.toml", "missing dir": "n/m/none.toml", "directory": "n/conf", "bad": "n/conf", "same": "h/.goledger.cfg"}[conf]
				env["GOLEDGER_CONF"] = filepath.Join(base, rel)
				k, i := map[string]int{"file": 1, "directory": 2, "bad": 3}[conf], 8
				if conf == "same" {
					k, i = kinds[5], 5
				} else if k != 0 {
					put(k, 8, rel)
				}
				cs = append(cs, cand{rel, k, i})
				starter = rel
			}
			before := tree(base)
			want := -1
			refused, created := false, starter != ""
			for _, c := range cs {
				if c.kind == 0 {
					continue
				}
				created = false
				if c.kind == 1 {
					want = c.i
				} else {
					refused = true
				}
				break
			}
			cwd := filepath.Join(base, "c")
			r := w.env(cwd, env, "accts")
			after := tree(base)
			diff := treeDiff(before, after)
			if refused {
				if r.err == nil {
					t.Failf("a bad configuration is not refused: %v", r)
				}
				if len(diff) > 0 {
					t.Failf("a bad configuration makes changes: %v", diff)
				}
				t.Outcome("refused")
				return
			}
			if r.err != nil {
				t.Failf("the command fails: %v", r.err)
			}
			out := r.out
			if created {
				if i := strings.IndexByte(out, '\n'); i >= 0 && strings.Contains(out[:i], "onfig") {
					out = out[i+1:] // the message about it
				}
				if after[starter] == "" {
					t.Failf("there is no configuration, but no starter file is written to %s", starter)
				}
				for _, d := range diff {
					if d != starter && !strings.HasPrefix(starter, d) {
						t.Failf("writing the starter file %s also changes %v", starter, diff)
					}
				}
				t.Outcome("starter")
			} else if len(diff) > 0 {
				t.Failf("files are changed: %v", diff)
			}
			if out != c19accts(want) {
				t.Failf("the configuration in force is not that of place %d: the command prints %q, should print %q", want, out, c19accts(want))
			}
			// again
			r2 := w.env(cwd, env, "accts")
			if r2.err != nil || r2.out != c19accts(want) {
				t.Failf("the second run gives %v instead of %q", r2, c19accts(want))
			}
			if d := treeDiff(after, tree(base)); len(d) > 0 {
				t.Failf("the second run changes files: %v", d)
			}
			t.Trans(2)
			t.State(fmt.Sprint(want, created, out))
			t.Nontrivial(fmt.Sprint(kinds, home, xdg, conf))
		})
	}
	k := make([]int, 8)
	most := 2
	if w.Thorough {
		most = 8
	}
	for {
		n, bad := 0, 0
		for _, x := range k {
			if x != 0 {
				n++
			}
			if x > 1 {
				bad++
			}
		}
		if n <= most && (w.Thorough && bad <= 2 || bad <= 1) || bad == 0 {
			for _, home := range []string{"set", "unset", "empty"} {
				for _, xdg := range []string{"set", "unset", "relative"} {
					if bad > 1 && (home != "set" || xdg == "relative") {
						continue
					}
					one(k, home, xdg, "unset")
					if bad == 0 && n <= 2 && home != "empty" {
						for _, c := range []string{"empty", "file", "missing", "missing dir", "directory", "bad", "same"} {
							one(k, home, xdg, c)
						}
					}
				}
			}
		}
		i := 0
		for i < 8 {
			k[i]++
			if k[i] < 4 {
				break
			}
			k[i] = 0
			i++
		}
		if i == 8 {
			break
		}
	}
	w.Done()

	w.Section("starter")
	led := "2020/1/1 p\n  Asset:A  1 X\n  Income  -1 X\n\n"
	csv := "2020/1/2,q,3\n"
	for _, args := range [][]string{
		{"report"}, {"report", "--ccy", "X"}, {"report", "--ccy", "X", "--convert=false", "--sum=false"}, {"report", "macroA"}, {"register", "Asset"}, {"register", "--combined", "."}, {"export"}, {"export", "--type", "Json"},
		{"accts"}, {"ccy"}, {"macros"}, {"help", "config"}, {"help", "macros"}, {"import", "bankformat", "--code", "[add(date=r[0],desc=r[1],amt=r[2]) for r in data]", "in.csv"}, {"generate", "--code", "add(date='2020-01-01',desc='x',amt=1,ccy='X',account='A',caccount='B')"},
		{"download"}, {"shell", "--type", "bash"}, {"report", "--help"}, {"register", "--help"}, {"import", "bankformat", "--help"}, {"nosuch"}, {"__complete", "register", ""}, {"__complete", "report", ""},
	} {
		for _, xdg := range []bool{true, false} {
			args, xdg := args, xdg
			w.Case(func() string { return fmt.Sprintf("first and second run of %q, XDG_CONFIG_HOME set %v", args, xdg) }, func(t *T) {
				os.RemoveAll(base)
				os.MkdirAll(filepath.Join(base, "c"), 0755)
				os.MkdirAll(filepath.Join(base, "h"), 0755)
				ioutil.WriteFile(filepath.Join(base, "c/main.ledger"), []byte(led), 0644)
				ioutil.WriteFile(filepath.Join(base, "c/in.csv"), []byte(csv), 0644)
				env := map[string]string{"HOME": filepath.Join(base, "h")}
				if xdg {
					env["XDG_CONFIG_HOME"] = filepath.Join(base, "h/xx")
				}
				cwd := filepath.Join(base, "c")
				r1 := w.env(cwd, env, args...)
				r2 := w.env(cwd, env, args...)
				r3 := w.env(cwd, env, args...)
				o := r1.out
				if i := strings.IndexByte(o, '\n'); i >= 0 && strings.Contains(o[:i], "onfig") && strings.Contains(o[:i], filepath.Join(base, "h")) {
					o = o[i+1:]
				}
				if o != r2.out || fmt.Sprint(r1.err) != fmt.Sprint(r2.err) || r1.errout != r2.errout {
					t.Failf("with the starter file the second run gives %v, the first gave %v", r2, r1)
				}
				if r2.out != r3.out || fmt.Sprint(r2.err) != fmt.Sprint(r3.err) {
					t.Failf("the third run gives %v, the second gave %v", r3, r2)
				}
				t.Trans(3)
				t.State(r2.String())
				t.Nontrivial(fmt.Sprint(args, xdg))
			})
		}
	}
	w.Done()
	os.RemoveAll(base)
}

// ---- contents -----------------------------------------------------------------------------------

type confKey struct{ path, kind string }

// every key there is
var confKeys = []confKey{
	{"ledger", "s"}, {"baseccy", "s"}, {"verbose", "b"}, {"divider", "s"}, {"colour", "b"}, {"all", "b"}, {"lang", "s"}, {"macros.M", "l"},
	{"report.credit", "s"}, {"report.hidden", "s"}, {"report.convert", "b"}, {"report.jsonpretty", "b"}, {"report.htmlcss", "s"}, {"report.sum", "b"}, {"report.type", "s"}, {"report.combineby", "s"},
	{"register.begindate", "s"}, {"register.enddate", "s"}, {"register.count", "i"}, {"register.asc", "b"}, {"register.type", "s"}, {"register.combined", "b"}, {"register.zerostart", "b"}, {"register.convert", "b"}, {"register.accounts", "l"}, {"register.split", "b"},
	{"importdefs.D.description", "s"}, {"importdefs.D.configtype", "s"}, {"importdefs.D.code", "s"}, {"importdefs.D.account", "s"}, {"importdefs.D.counteraccount", "s"}, {"importdefs.D.ccy", "s"}, {"importdefs.D.dedup", "b"}, {"importdefs.D.reclassify", "b"}, {"importdefs.D.params.header", "s"},
	{"generate.G.description", "s"}, {"generate.G.code", "s"}, {"generate.G.dedup", "b"},
	{"export.type", "s"}, {"export.jsonpretty", "b"},
	{"download.monzo.clientid", "s"}, {"download.monzo.clientsecret", "s"}, {"download.monzo.port", "i"}, {"download.starling.personalaccesstoken", "s"}, {"download.starling.alldata", "b"}, {"download.nordigen.clientid", "s"}, {"download.nordigen.clientsecret", "s"},
}

// tomlDoc writes keys with their values, grouped by table.
func tomlDoc(kv [][2]string) string {
	tables := map[string]string{}
	var order []string
	for _, x := range kv {
		i := strings.LastIndexByte(x[0], '.')
		tab, key := "", x[0]
		if i >= 0 {
			tab, key = x[0][:i], x[0][i+1:]
		}
		if _, ok := tables[tab]; !ok {
			order = append(order, tab)
		}
		tables[tab] += key + " = " + x[1] + "\n"
	}
	sort.Strings(order) // the top first
	s := ""
	for _, t := range order {
		if t != "" {
			s += "[" + t + "]\n"
		}
		s += tables[t]
	}
	return s
}

func (w *W) contents() {
	w.Section("contents")
	values := map[string][]string{
		"s": {`""`, `"Text"`, `'x'`, `"a # b"`}, "b": {"true", "false"}, "i": {"1", "-7", "0"}, "l": {`[]`, `["a", "b"]`},
	}
	odd := []string{`[1]`, `{}`, `{a = 1}`, "1979-05-27", "1.5", `[["a"]]`}
	w.write("e.ledger", "2020/1/1 p\n  Asset:A  1 X\n  Income  -1 X\n\n")
	try := func(desc, conf string, good bool, cmds ...[]string) {
		w.Case(func() string { return desc + ": " + fmt.Sprintf("%q", conf) }, func(t *T) {
			if cmds == nil {
				cmds = [][]string{{"-l", "e.ledger", "ccy"}}
			}
			for _, c := range cmds {
				r := w.cli(conf, c...)
				if good && r.err != nil {
					t.Failf("%v: a valid configuration is refused: %v", c, r.err)
				}
				if !good && r.err == nil {
					t.Failf("%v: the configuration is not refused: %v", c, r)
				}
				if b, _ := ioutil.ReadFile(filepath.Join(w.Scratch, "conf.toml")); string(b) != conf {
					t.Failf("%v: the configuration file is changed to %q", c, b)
				}
				t.Trans(1)
			}
			if good {
				t.Outcome("accepted")
			} else {
				t.Outcome("refused")
			}
			t.Nontrivial(conf)
		})
	}
	all := [][]string{{"-l", "e.ledger", "report", "--type", "Text", "--splitby", "today"}, {"-l", "e.ledger", "accts"}, {"-l", "e.ledger", "export"}, {"help"}, {"macros"}}
	for _, k := range confKeys {
		for _, kind := range []string{"s", "b", "i", "l"} {
			for _, v := range values[kind] {
				try("key", tomlDoc([][2]string{{k.path, v}}), kind == k.kind)
			}
		}
		for _, v := range odd {
			try("key", tomlDoc([][2]string{{k.path, v}}), false)
		}
		v := values[k.kind][1]
		i := strings.LastIndexByte(k.path, '.')
		tab, key := k.path[:i+1], k.path[i+1:]
		// any case of a key is the same key
		if tab != "macros." && !strings.Contains(tab, "params") {
			try("upper case", tomlDoc([][2]string{{tab + strings.ToUpper(key), v}}), true)
			for _, bad := range []string{key + "s", key[1:], "x" + key, key[:len(key)-1], key + "_", "no" + key} {
				good := false
				for _, o := range confKeys {
					if o.path == tab+bad && o.kind == k.kind {
						good = true
					}
				}
				try("misspelt", tomlDoc([][2]string{{tab + bad, v}}), good)
				if !good {
					try("misspelt", tomlDoc([][2]string{{k.path, v}, {tab + bad, v}}), false, all...)
				}
			}
			// at the wrong level
			for _, o := range confKeys {
				j := strings.LastIndexByte(o.path, '.')
				otab := o.path[:j+1]
				if otab == tab || otab == "macros." || strings.Contains(otab, "params") {
					continue
				}
				good := false
				for _, p := range confKeys {
					if p.path == otab+key && p.kind == k.kind {
						good = true
					}
				}
				if otab == "register." && (key == "macros") || key == "name" || key == "short" || key == "long" {
					continue
				}
				try("other table", tomlDoc([][2]string{{otab + key, v}}), good)
			}
		}
		// two valid keys together
		for _, o := range confKeys {
			if o.path != k.path {
				try("two keys", tomlDoc([][2]string{{k.path, v}, {o.path, values[o.kind][1]}}), true)
			}
		}
	}
	for _, s := range []string{"[reports]\n", "[report]\n[report.x]\n", "[import]\n", "[web]\nport = 1\n", "[app]\nledger = \"x\"\n", "[download.bank]\n", "ledger\n", "ledger = \n", "ledger = \"x\n", "[report\n", "= 1\n", "ledger = \"a\"\nledger = \"b\"\n", "\x00", "ledger = \"\xff\"\n", "[report]\n[report]\n", "ledger = x\n", "colour = True\n", "ledger: \"x\"\n", "[macros]\nM = \"a\"\n", "[macros]\nM = [1]\n", "[importdefs]\nD = 1\n", "[generate]\nG = \"x\"\n"} {
		try("text", s, false)
	}
	for _, s := range []string{"", "\n", "# x\n", "[report]\n", "[importdefs]\n", "[macros]\n", "[generate]\n", "[generate.G]\n", "[importdefs.D]\n", "[download]\n", "[download.monzo]\n", "\r\n", "# \u00e9\nledger = 'e'\r\n"} {
		try("text", s, true)
	}
	// values that only the command concerned refuses
	for _, x := range [][3]string{{"report.type", "Texts", "report"}, {"report.combineby", "weekday", "report"}, {"report.type", "CSV", "report"}, {"register.type", "HTML", "register A"}, {"export.type", "Text", "export"}, {"register.begindate", "soon", "register A"}, {"register.enddate", "2020-13-01", "register A"}, {"report.credit", "(", "report --sum --ccy X"}, {"importdefs.D.configtype", "xml", "import D --code 1 -a A -c B e.ledger"}} {
		conf := tomlDoc([][2]string{{x[0], tomlStr(x[1])}})
		try("value", conf, false, append([]string{"-l", "e.ledger"}, strings.Fields(x[2])...))
		try("value elsewhere", conf, true, []string{"-l", "e.ledger", "ccy"}, []string{"-l", "e.ledger", "accts"})
	}
	w.Done()
}

// ---- precedence ---------------------------------------------------------------------------------

// copt is one option: where it is configured, its flag, its built-in value and two others. Booleans
// have true and false.
type copt struct {
	path, flag string
	builtin    string
	vals       [2]string
	raw        bool // numbers and booleans are written as they are
}

func copts(path, flag, builtin, a, b string) copt {
	return copt{path, flag, builtin, [2]string{a, b}, false}
}
func coptb(path, flag, builtin string) copt {
	return copt{path, flag, builtin, [2]string{"true", "false"}, true}
}

type ccmd struct {
	name  string
	args  []string // after the flags
	pre   []string // the command, before its flags
	opts  []copt
	conf  [][2]string // configuration that is there anyway
	ctx   []map[string]string
	exec  func(w *W, conf string, args []string) string
	nodef map[string]bool // options whose built-in value cannot be given
}

func (w *W) precedence() {
	w.Section("precedence")
	w.write("main.ledger", `2019/05/01 Start ; tn
  Asset:Bank  100.50 X ; note
  Equity  -100.50 X

2019/06/01 Shop
  Expense:Food  10 X
  Expense:Home  2 USD
  Asset:Bank  -10 X
  Asset:Other  -2 USD

2020/02/01 Work
  Asset:Bank  12345.25 X
  Income:Job  -12345.25 X

2020/03/01 Work
  Asset:Empty  1 X
  Asset:Bank  -1 X

2020/03/02 Work
  Asset:Empty  -1 X
  Asset:Bank  1 X

2020/03/03 Shop
  Asset:Bank  -5 X
  Expense:Food  5 X

2020/03/04 Market
  Asset:Bank  -12 X
  Expense:Food  4 X
  Expense:Home  8 X

2020/03/05 Odd
  XaOne  -1 X
  XaTwo  -2 X
  YBOne  1 X
  YBTwo  2 X

P 2019/01/01 0:0:0 USD X 2
P 2019/01/01 0:0:0 EUR X 4
`)
	w.write("l1.ledger", "2020/1/1 p\n  One:A  1 X\n  One:B  -1 X\n\n2020/1/2 p\n  One:A  1 X\n  One:Bis:C  -1 USD\n\nP 2019/01/01 0:0:0 USD X 3\nP 2019/01/01 0:0:0 EUR X 4\n")
	w.write("l2.ledger", "2020/1/1 q\n  Two:A  2 X\n  Two:Ax:B  -2 X\n\nP 2019/01/01 0:0:0 USD X 3\nP 2019/01/01 0:0:0 EUR X 4\n")
	w.write("in.csv", "2020/02/01,Work,7\n2020/03/05,Shop,8\n")
	w.write("css1", "body{}")
	global := []copt{
		copts("ledger", "ledger", "main.ledger", "l1.ledger", "l2.ledger"),
		copts("baseccy", "ccy", "", "X", "EUR"),
		copts("divider", "divider", ":", "a", "B"),
		copts("lang", "lang", "en", "de", "fr"),
		coptb("colour", "colour", "true"),
		coptb("all", "all", "false"),
		coptb("verbose", "verbose", "false"),
	}
	cli := func(w *W, conf string, args []string) string { return w.cli(conf, args...).String() }
	imp := [][2]string{{"importdefs.D.configtype", `"csv"`}, {"importdefs.D.code", `"[add(date=r[0],desc=r[1],amt=r[2]) for r in data]"`}}
	gen := [][2]string{{"generate.G.code", `"add(date='2020/02/01',desc='Work',amt=5,ccy='X',account='A:B',caccount='C')\nadd(date='2020/02/02',desc='New',amt=5,ccy='X',account='A:B',caccount='C')"`}}
	cmds := []ccmd{
		{name: "report", pre: []string{"report"}, exec: cli,
			opts: append([]copt{copts("report.combineby", "splitby", "", "yearly", "skip"), copts("report.type", "type", "", "Text", "Json"), coptb("report.sum", "sum", "false"), coptb("report.convert", "convert", "false"), coptb("report.jsonpretty", "jsonpretty", "false"),
				copts("report.credit", "credit", "", "Income", "Expense"), copts("report.hidden", "hidden", "", "Equity", "Asset:Bank"), copts("report.htmlcss", "htmlcss", "", "p{}", "file:css1")}, global...),
			nodef: map[string]bool{"report.combineby": true, "report.type": true},
			ctx:   []map[string]string{{"type": "Text", "sum": "true", "ccy": "X", "splitby": "yearly"}, {"type": "Json", "splitby": "skip"}, {"type": "HTML", "sum": "true", "ccy": "X"}, {}}},
		{name: "register", pre: []string{"register"}, args: []string{"Asset|One|Two"}, exec: cli,
			opts: append([]copt{copts("register.type", "type", "", "CSV", "JSON"), coptb("register.combined", "combined", "false"), copts("register.begindate", "begin", "", "2019-05-15", "2020/01/01"), copts("register.enddate", "asof", "", "2019/12/31", "2020-02-15"), {"register.count", "count", "0", [2]string{"1", "-2"}, true},
				coptb("register.asc", "asc", "false"), coptb("register.zerostart", "zero", "false"), coptb("register.split", "split", "false"), coptb("register.convert", "convert", "false")}, global...),
			nodef: map[string]bool{"register.type": true},
			ctx:   []map[string]string{{"ccy": "X"}, {"combined": "true", "type": "JSON"}, {}}},
		{name: "export", pre: []string{"export"}, exec: cli,
			opts:  append([]copt{copts("export.type", "type", "", "Json", "CSV"), coptb("export.jsonpretty", "jsonpretty", "false")}, global...),
			nodef: map[string]bool{"export.type": true}, ctx: []map[string]string{{"type": "Json"}, {"type": "Beancount", "ccy": "X"}, {}}},
		{name: "accts", pre: []string{"accts"}, exec: cli, opts: global, ctx: []map[string]string{{}}},
		{name: "ccy", pre: []string{"ccy"}, exec: cli, opts: global, ctx: []map[string]string{{}}},
		{name: "import D", pre: []string{"import", "D"}, args: []string{"in.csv"}, exec: cli, conf: imp,
			opts: append([]copt{copts("importdefs.D.account", "acct", "", "Asset:Bank", "Asset:New"), copts("importdefs.D.counteraccount", "cacct", "", "Misc", "Unknown:X"), coptb("importdefs.D.dedup", "dedup", "false"), coptb("importdefs.D.reclassify", "reclassify", "false")}, global...),
			ctx:  []map[string]string{{"acct": "Asset:Bank", "cacct": "Misc", "ccy": "X"}}, nodef: map[string]bool{"importdefs.D.account": true, "importdefs.D.counteraccount": true}},
		{name: "import", pre: []string{"import"}, args: []string{"in.csv"}, exec: cli,
			opts: append([]copt{{"", "dedup", "true", [2]string{"true", "false"}, true}, {"", "reclassify", "true", [2]string{"true", "false"}, true}}, global...),
			ctx:  []map[string]string{{"acct": "Asset:Bank", "cacct": "Misc", "ccy": "X", "format": "csv", "code": "[add(date=r[0],desc=r[1],amt=r[2]) for r in data]"}}},
		{name: "generate G", pre: []string{"generate", "G"}, exec: cli, conf: gen,
			opts: append([]copt{coptb("generate.G.dedup", "dedup", "false")}, global...), ctx: []map[string]string{{}}},
		{name: "download monzo", pre: []string{"download", "monzo"}, args: []string{"state.json"}, exec: wire,
			opts: []copt{copts("download.monzo.clientid", "clientid", "", "id1", "id2"), copts("download.monzo.clientsecret", "clientsecret", "", "s1", "s2"), {"download.monzo.port", "port", "12345", [2]string{"2000", "3000"}, true}}, ctx: []map[string]string{{}}},
		{name: "download starling", pre: []string{"download", "starling"}, args: []string{"state.json"}, exec: wire,
			opts: []copt{copts("download.starling.personalaccesstoken", "personalAccessToken", "", "tok1", "tok2"), coptb("download.starling.alldata", "alldata", "false")}, ctx: []map[string]string{{"personalAccessToken": "t"}}},
		{name: "download nordigen", pre: []string{"download", "nordigen"}, args: []string{"state.json"}, exec: wire,
			opts: []copt{copts("download.nordigen.clientid", "Client ID", "", "id1", "id2"), copts("download.nordigen.clientsecret", "Client Secret", "", "s1", "s2")}, ctx: []map[string]string{{}}},
	}
	noEffect := map[string]string{} // command and flag that need not make a difference
	for _, x := range []string{"register zero", "import D all", "import D colour", "import D lang", "import D divider", "import all", "import colour", "import lang", "import divider", "generate G all", "generate G colour", "generate G lang", "generate G divider", "generate G ccy",
		"ccy all", "ccy ccy", "ccy colour", "ccy lang", "ccy divider", "accts ccy", "accts lang", "accts divider", "export all", "export divider", "export colour", "export lang", "register divider", "report all", "download monzo port"} {
		noEffect[x] = "x"
	}
	for _, c := range cmds {
		c := c
		cache := map[string]string{}
		for ci, ctx := range c.ctx {
			ctx := ctx
			run := func(conf [][2]string, flags map[string]string, help bool) string {
				var fl []string
				for _, k := range sortedStr(flags) {
					fl = append(fl, "--"+k+"="+flags[k])
				}
				doc := tomlDoc(append(append([][2]string{}, c.conf...), conf...))
				args := append(append(append([]string{}, c.pre...), fl...), c.args...)
				return c.exec(w, doc, args)
			}
			// every option makes a difference
			for _, o := range c.opts {
				o := o
				if ci > 0 || noEffect[c.name+" "+o.flag] != "" || o.flag == "verbose" {
					continue
				}
				w.Case(func() string { return fmt.Sprintf("%s: does --%s make a difference?", c.name, o.flag) }, func(t *T) {
					for _, cx := range c.ctx {
						a, b := map[string]string{}, map[string]string{}
						for k, v := range cx {
							a[k], b[k] = v, v
						}
						a[o.flag], b[o.flag] = o.vals[0], o.vals[1]
						if run(nil, a, false) != run(nil, b, false) {
							return
						}
					}
					t.Failf("it does not matter whether --%s is %s or %s: %s", o.flag, o.vals[0], o.vals[1], run(nil, c.ctx[0], false))
				})
			}
			check := func(idx []int) {
				// the state of each option: configured (0 no, 1, 2) and given (0 no, 1, 2)
				n := 1
				for range idx {
					n *= 9
				}
				for s := 0; s < n; s++ {
					s := s
					skip := false
					x := s
					for _, i := range idx {
						if x%9/3 > 0 && c.opts[i].path == "" {
							skip = true // cannot be configured
						}
						x /= 9
					}
					if skip {
						continue
					}
					build := func() (conf [][2]string, flags, flat map[string]string) {
						flags, flat = map[string]string{}, map[string]string{}
						for k, v := range ctx {
							flags[k], flat[k] = v, v
						}
						x := s
						for _, i := range idx {
							o := c.opts[i]
							cf, gv := x%9/3, x%3
							x /= 9
							v, given := o.builtin, ctx[o.flag]
							delete(flags, o.flag)
							delete(flat, o.flag)
							if cf > 0 {
								v = o.vals[cf-1]
								if o.raw {
									conf = append(conf, [2]string{o.path, v})
								} else {
									conf = append(conf, [2]string{o.path, tomlStr(v)})
								}
							} else if gv == 0 && c.nodef[o.path] {
								// nothing at all: the built-in value cannot be given
								if given != "" {
									flags[o.flag], flat[o.flag] = given, given
								}
								continue
							}
							if gv > 0 {
								v = o.vals[gv-1]
								flags[o.flag] = v
							}
							flat[o.flag] = v
						}
						return
					}
					w.Case(func() string {
						conf, flags, flat := build()
						return fmt.Sprintf("%s: configured %v, given %v; the same as all given: %v", c.name, conf, flags, flat)
					}, func(t *T) {
						conf, flags, flat := build()
						got := run(conf, flags, false)
						key := fmt.Sprint(flat)
						want, ok := cache[key]
						if !ok {
							want = run(nil, flat, false)
							cache[key] = want
						}
						if got != want {
							t.Failf("it gives %q, but with everything given as flags it gives %q", got, want)
						}
						t.Trans(2)
						t.State(got)
						t.Nontrivial(fmt.Sprint(c.name, ci, idx, s))
					})
				}
			}
			for i := range c.opts {
				check([]int{i})
				for j := i + 1; j < len(c.opts); j++ {
					check([]int{i, j})
					if w.Thorough && ci == 0 {
						for k := j + 1; k < len(c.opts); k++ {
							check([]int{i, j, k})
						}
					}
				}
			}
		}
		// the help text shows what is configured
		for _, o := range c.opts {
			o := o
			if o.path == "" {
				continue
			}
			for _, v := range o.vals {
				v := v
				w.Case(func() string { return fmt.Sprintf("%s --help with %s = %s", c.name, o.path, v) }, func(t *T) {
					tv := v
					if !o.raw {
						tv = tomlStr(v)
					}
					r := w.cli(tomlDoc(append(append([][2]string{}, c.conf...), [2]string{o.path, tv})), append(append([]string{}, c.pre...), "--help")...)
					if r.err != nil {
						t.Failf("the help fails: %v", r.err)
					}
					for _, l := range strings.Split(r.out, "\n") {
						if strings.Contains(l, "--"+o.flag+" ") {
							shown := strings.Contains(l, "(default "+v+")") || strings.Contains(l, "(default \""+v+"\")")
							if !shown && v != "false" {
								t.Failf("the help says %q", l)
							}
							if v == "false" && strings.Contains(l, "(default true)") {
								t.Failf("the help says %q", l)
							}
							t.Nontrivial(l)
							return
						}
					}
					t.Failf("the help does not mention --%s: %q", o.flag, r.out)
				})
			}
		}
	}
	// macros, accounts and new commands
	for _, x := range []struct {
		conf string
		args []string
		want []string
	}{
		{"[macros]\nM = [\"remove \\\\.*\"]\nN = [\"M\"]\n", []string{"__complete", "report", ""}, []string{"M", "N"}},
		{"[macros]\nM = [\"remove \\\\.*\"]\nN = [\"M\"]\n", []string{"__complete", "export", ""}, []string{"M", "N"}},
		{"[register]\naccounts = [\"Asset:Q\", \"Z\"]\n", []string{"__complete", "register", ""}, []string{"Asset:Q", "Z"}},
		{"[importdefs.D]\ndescription = \"dd\"\n[importdefs.E]\n", []string{"__complete", "import", ""}, []string{"D\tdd", "E"}},
		{"[generate.G]\ndescription = \"gg\"\n", []string{"__complete", "generate", ""}, []string{"G\tgg"}},
		{"[macros]\nM = [\"op one\", \"op two\"]\n", []string{"help", "macros"}, []string{"Macro M", "op one", "op two"}},
	} {
		x := x
		w.Case(func() string { return fmt.Sprintf("%q with %q", x.args, x.conf) }, func(t *T) {
			r := w.cli(x.conf, x.args...)
			for _, s := range x.want {
				if !strings.Contains("\n"+r.out, s+"\n") {
					t.Failf("%q is missing in %q", s, r.out)
				}
			}
			t.Nontrivial(r.out)
		})
	}
	w.Done()

	w.Section("spellings")
	for _, o := range []struct {
		cmd, flag, conf string
		values, args    []string
	}{
		{"export", "type", "export.type", []string{"Ledger", "Json", "Beancount", "CSV"}, []string{"--ccy", "X"}},
		{"register", "type", "register.type", []string{"Text", "JSON", "CSV"}, []string{"Asset"}},
		{"report", "type", "report.type", []string{"Text", "Ledger", "Json", "HTML", "Beancount"}, []string{"--sum", "--ccy", "X", "--convert"}},
		{"report", "splitby", "report.combineby", []string{"none", "monthly", "quarterly", "yearly", "today", "skip"}, []string{"--sum", "--ccy", "X", "--convert"}},
		{"shell", "type", "", []string{"bash", "zsh", "powershell"}, nil},
	} {
		known := map[string]bool{}
		for _, v := range o.values {
			known[strings.ToLower(v)] = true
		}
		seen := map[string]bool{}
		for _, v := range o.values {
			o, v := o, v
			for _, sp := range spellings(v, w.Thorough) {
				sp := sp
				if seen[sp] {
					continue
				}
				seen[sp] = true
				for _, how := range []string{"given", "configured", "configured, overridden"} {
					how := how
					if o.conf == "" && how != "given" {
						continue
					}
					w.Case(func() string { return fmt.Sprintf("%s: %s %s as %q", o.cmd, o.flag, how, sp) }, func(t *T) {
						args := append(append([]string{"-l", "main.ledger", o.cmd}, o.args...), "--"+o.flag+"="+sp)
						conf := ""
						if how != "given" {
							args = append([]string{"-l", "main.ledger", o.cmd}, o.args...)
							conf = tomlDoc([][2]string{{o.conf, fmt.Sprintf("%q", sp)}})
						}
						if how == "configured, overridden" {
							args = append(args, "--"+o.flag+"="+strings.ToUpper(o.values[0]))
						}
						r := w.cli(conf, args...)
						canon := ""
						for _, x := range o.values {
							if strings.EqualFold(x, sp) {
								canon = x
							}
						}
						if how == "configured, overridden" {
							canon = o.values[0]
						}
						if canon == "" {
							if r.err == nil {
								t.Failf("it is accepted: %q", clip(r.out, 300))
							}
							t.Outcome("refused")
						} else {
							ref := w.cli("", append(append([]string{"-l", "main.ledger", o.cmd}, o.args...), "--"+o.flag+"="+canon)...)
							if ref.err != nil {
								t.Failf("%s is refused: %v", canon, ref.err)
							}
							if r.err != nil || r.out != ref.out {
								t.Failf("it is not the same as %s: %v\n%q\ninstead of\n%q", canon, r.err, clip(r.out, 300), clip(ref.out, 300))
							}
							t.Outcome("same as " + canon)
						}
						t.Trans(2)
						t.Nontrivial(o.cmd + o.flag + how + sp)
					})
				}
			}
		}
	}
	w.Done()

	w.Section("language")
	for _, lang := range []string{"", "en_GB.UTF-8", "de_DE.UTF-8", "fr_FR", "nl", "nl_NL@euro", "C", "POSIX", "xx_YY", "unset"} {
		for _, cf := range []string{"", "de", "fr"} {
			for _, fl := range []string{"", "en", "nl", "fr"} {
				lang, cf, fl := lang, cf, fl
				w.Case(func() string { return fmt.Sprintf("LANG %q, configured %q, given %q", lang, cf, fl) }, func(t *T) {
					conf := ""
					if cf != "" {
						conf = "lang = \"" + cf + "\"\n"
					}
					w.write("lang.toml", conf)
					w.write("lang.ledger", "2020/1/1 p\n  A  1234.5 X\n  B  -1234.5 X\n\n")
					args := []string{"-l", "lang.ledger", "--colour=false", "register", "--type", "Text", "A"}
					if fl != "" {
						args = append([]string{"--lang", fl}, args...)
					}
					c := exec.Command("/proc/self/exe", args...)
					c.Args[0] = "goledger"
					c.Dir = w.Scratch
					c.Env = []string{"VERIF_AS_GOLEDGER=cli", "GOLEDGER_CONF=" + filepath.Join(w.Scratch, "lang.toml"), "HOME=" + w.Scratch}
					if lang != "unset" {
						c.Env = append(c.Env, "LANG="+lang)
					}
					var out, errout bytes.Buffer
					c.Stdout, c.Stderr = &out, &errout
					if err := c.Run(); err != nil {
						t.Failf("it fails: %v %s", err, errout.String())
					}
					eff := fl
					if eff == "" {
						eff = cf
					}
					if eff == "" && lang != "unset" {
						eff = lang
					}
					want := refGroup("1234.5", eff)
					if !strings.Contains(out.String(), " "+want+" ") {
						t.Failf("the number is not shown as %q: %q", want, out.String())
					}
					t.Trans(1)
					t.Nontrivial(fmt.Sprint(lang, cf, fl))
				})
			}
		}
	}
	w.Done()
}

func sortedStr(m map[string]string) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

type recorder struct{ log []string }

func (r *recorder) RoundTrip(q *http.Request) (*http.Response, error) {
	body := ""
	if q.Body != nil {
		b, _ := ioutil.ReadAll(q.Body)
		body = string(b)
	}
	r.log = append(r.log, fmt.Sprintf("%s %s auth %q body %q", q.Method, q.URL, q.Header.Get("Authorization"), body))
	code, reply := 500, "{}"
	if q.URL.Host == "api.starlingbank.com" {
		switch p := q.URL.Path; {
		case strings.HasSuffix(p, "/accounts"):
			code, reply = 200, `{"accounts":[{"accountUid":"a1","defaultCategory":"c1","createdAt":"2020-01-01T00:00:00.000Z"}]}`
		case strings.HasSuffix(p, "/spaces"):
			code, reply = 200, `{"savingsGoals":[],"spendingSpaces":[]}`
		case strings.HasSuffix(p, "/identifiers"):
			code, reply = 200, `{}`
		case strings.Contains(p, "/feed/"):
			code, reply = 200, `{"feedItems":[]}`
		}
	}
	return &http.Response{StatusCode: code, Status: fmt.Sprint(code), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{"Content-Type": {"application/json"}}, Body: ioutil.NopCloser(strings.NewReader(reply)), Request: q}, nil
}

// wire runs a download command and shows what it sends.
func wire(w *W, conf string, args []string) string {
	state := `{}`
	switch args[1] {
	case "monzo":
		state = `{"token":{"access_token":"old","refresh_token":"ref","expiry":"2001-01-01T00:00:00Z"}}`
	case "nordigen":
		state = `{"Institution":{"id":"B0","name":"x"},"Requisition":{"id":"r","link":"l","accounts":[]}}`
	case "starling":
		state = `{"accounts":{"a1":{"account":{"accountUid":"a1","defaultCategory":"c1","createdAt":"2020-01-01T00:00:00.000Z"},"feeditems":{"c1":{"f1":{"feedItemUid":"f1","updatedAt":"2021-05-05T00:00:00.000Z","transactionTime":"2021-05-05T00:00:00.000Z"}}}}}}`
	}
	w.write("state.json", state)
	rec := &recorder{}
	old := http.DefaultTransport
	http.DefaultTransport = rec
	defer func() { http.DefaultTransport = old }()
	r := w.cli(conf, args...)
	return strings.Join(rec.log, "\n") + "\n" + r.String()
}

func runC19(w *W) {
	w.search()
	w.contents()
	w.precedence()
}

// spellings are the ways to write a value in other cases, and texts that are nearly the value.
func spellings(v string, all bool) (o []string) {
	cased := func(mask int) string {
		b := []byte(strings.ToLower(v))
		for i := range b {
			if mask>>uint(i%30)&1 == 1 {
				b[i] = strings.ToUpper(string(b[i]))[0]
			}
		}
		return string(b)
	}
	o = append(o, v, strings.ToLower(v), strings.ToUpper(v), cased(1), cased(0x15555555), cased(0x2aaaaaaa), cased(^1&(1<<uint(len(v))-1)), cased(1<<uint(len(v)-1)))
	if all || len(v) <= 4 {
		for m := 0; m < 1<<uint(len(v)); m++ {
			o = append(o, cased(m))
		}
	}
	for i := range v {
		o = append(o, v[:i]+v[i+1:], v[:i]+string(v[i])+v[i:], v[:i]+" "+v[i:], v[:i]+"x"+v[i+1:])
	}
	return append(o, v+" ", "\""+v+"\"", v+v, v+","+v, " ", v[:1], v+".")
}
