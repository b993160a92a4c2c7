//go:build verifmc

package main

import (
	"fmt"
	"regexp"
	"strconv"
	"strings"

	"github.com/mescanne/goledger/cmd/app"
)

func init() {
	register(&Prop{ID: "C05", Level: "model_checking", Fresh: true,
		Rule:        "every operation string built from the fragment alphabet up to the length bound, every macro table over three macros with bodies up to the length bound, and a product of operation strings with the three commands that take them; each is run on the real code and on the reference interpreter (verdict, resulting book, error text); states are distinct resulting books or refusals, transitions are operation strings executed",
		Assumptions: []string{"the text of an error is only required to contain the offending operation", "regular expressions are those of the Go library"},
		Run:         runC05})
}

// refOp reads an operation string. nil, "" with ok=false means it must be refused.
func refOp(s string) (Op, bool) {
	i := strings.Index(s, "=")
	if i < 0 {
		return Op{}, false
	}
	name, arg := s[:i], s[i+1:]
	parts := func(n int) []string {
		if len(arg) < 2 || arg[0] != '/' || arg[len(arg)-1] != '/' {
			return nil
		}
		p := strings.Split(arg[1:len(arg)-1], "/")
		if len(p) != n {
			return nil
		}
		for _, x := range p {
			if x == "" {
				return nil
			}
		}
		if _, err := regexp.Compile(p[0]); err != nil {
			return nil
		}
		return p
	}
	switch name {
	case "map":
		if p := parts(2); p != nil {
			return opMap(p[0], p[1], ""), true
		}
		if p := parts(3); p != nil {
			return opMap(p[0], p[1], p[2]), true
		}
	case "mapccy":
		if p := parts(2); p != nil {
			return opMapCCY(p[0], p[1]), true
		}
	case "move":
		if p := parts(3); p != nil && plainNumber(p[2]) {
			return opMove(p[0], p[1], strings.TrimSuffix(p[2], ".")), true
		}
	case "depreciate":
		if p := parts(3); p != nil {
			n, err := strconv.ParseInt(p[2], 10, 64)
			if err == nil && n >= 1 && n <= 12000 && allDigits(p[2]) {
				return opDeprec(p[0], p[1], n), true
			}
		}
	case "since":
		if d := refDate(arg); d != 0 {
			return opSince(arg, d), true
		}
	case "asof":
		if d := refDate(arg); d != 0 {
			return opAsof(arg, d), true
		}
	case "combine":
		switch strings.ToLower(arg) {
		case "yearly", "quarterly", "monthly", "none":
			return opCombine(arg), true
		}
	}
	return Op{}, false
}

func allDigits(s string) bool {
	for _, c := range s {
		if c < '0' || c > '9' {
			return false
		}
	}
	return s != ""
}

// plainNumber: digits with at most one point.
func plainNumber(s string) bool {
	return strings.Count(s, ".") <= 1 && allDigits(strings.Replace(s, ".", "", 1))
}

var c05Date = regexp.MustCompile(`^(\d{4})-(\d\d)-(\d\d)$`)

// refDate reads the dates used in this check (C09 covers the spellings).
func refDate(s string) int {
	if m := c05Date.FindStringSubmatch(s); m != nil {
		y, _ := strconv.Atoi(m[1])
		mo, _ := strconv.Atoi(m[2])
		d, _ := strconv.Atoi(m[3])
		if validYMD(y, mo, d) {
			return y*10000 + mo*100 + d
		}
	}
	return 0
}

// refRun applies ops with macros to the model; the offending operation or "".
func refRun(m *MBook, macros map[string][]string, ops []string, stack []string) string {
	for _, s := range ops {
		if body, ok := macros[s]; ok {
			if member(s, stack) {
				return s
			}
			if bad := refRun(m, macros, body, append(stack[:len(stack):len(stack)], s)); bad != "" {
				return bad
			}
			continue
		}
		o, ok := refOp(s)
		if !ok {
			if s == "" {
				return "\x00"
			}
			return s
		}
		o.Model(m)
	}
	return ""
}

// namesMacro: the error names a macro the user wrote.
func namesMacro(err error, macros map[string][]string, ops []string) bool {
	for _, o := range ops {
		if _, ok := macros[o]; ok && strings.Contains(err.Error(), o) {
			return true
		}
	}
	return false
}

func opsCase(w *W, s start, macros map[string][]string, ops []string) {
	w.Case(func() string { return fmt.Sprintf("macros %q ops %q", macros, ops) }, func(t *T) {
		m := mbookOf(s.ts, s.prices)
		bad := refRun(m, macros, ops, nil)
		b := buildBook(s.ts, s.prices)
		a := app.App{Macros: macros}
		err := a.BookOps(b, ops...)
		t.Trans(int64(len(ops)))
		if bad != "" {
			t.State("refused")
			t.Outcome("refused")
			if err == nil {
				t.Failf("%q is accepted", bad)
			}
			if bad != "\x00" && !strings.Contains(err.Error(), bad) && !namesMacro(err, macros, ops) {
				t.Failf("the error does not name %q: %v", bad, err)
			}
			t.Nontrivial(fmt.Sprint(macros, ops))
			return
		}
		if err != nil {
			t.Failf("refused: %v", err)
		}
		if d := diffBook(b, m); d != "" {
			t.Failf("%s", d)
		}
		t.Outcome("applied")
		t.Nontrivial(fmt.Sprint(macros, ops))
		t.State(m.canonAll())
		t.Trace()
	})
}

var (
	docOp    = regexp.MustCompile("^[a-z]+=[^ ]")
	docTypes = regexp.MustCompile(`combine=type\s+Type can be ([a-z, ]+)\.`)
	docWord  = regexp.MustCompile("[a-z]+")
)

func runC05(w *W) {
	s := start{"c05", []MTxn{
		tx(20200131, "p", ln("A", "10", "USD"), ln("B:C", "-10", "USD")),
		tx(20200229, "q", ln("A", "3", "X"), ln("B", "-3", "X")),
		tx(20210101, "p", ln("B:C", "1.5", "USD"), ln("B", "-1.5", "USD")),
	}, []mprice{pr(20200101, "X", "USD", "2")}}

	w.Section("operation strings")
	names := []string{"map=", "mapccy=", "move=", "depreciate=", "since=", "asof=", "combine=", "", "Map=", "mapx=", "report=", "=", "map", "map ="}
	frags := []string{"/", "A", "(", "$1", "2", "0", ".", "2020-02-29", "2021-02-29", "yearly", "(B)", "-", " ", "*"}
	depth := 5
	if w.Thorough {
		depth = 6
	}
	for _, n := range names {
		d := depth
		if !member(n, []string{"map=", "mapccy=", "move=", "depreciate="}) {
			d = 3
		}
		opsCase(w, s, nil, []string{n})
		seqs(len(frags), d, func(ix []int) {
			if w.Done() {
				return
			}
			op := n
			for _, i := range ix {
				op += frags[i]
			}
			opsCase(w, s, nil, []string{op})
		})
		// longer strings that have the shape of an operation
		if d == depth {
			args := []string{"A", "B", "B:.*", "(", "[", "(.*)", "^(B):?(.*)$", "", "*", "a{2,1}", "\\", "$", "$1", "$2x$1", "${", "a/b", " ", ".", "\n", "é", "(?P<n>B)", "$n"}
			nums := []string{"1", "0", "2", "0.5", ".5", "5.", ".", "..", "1.1.1", "", "-1", "+1", "1e3", "1,5", "0x1", " 1", "007", "999999999999999", "1000", "0.0", "00"}
			for _, a := range args {
				for _, b := range args {
					for _, f := range []string{"/%s/%s/", "/%s/%s", "%s/%s/", "/%s/%s//", "//%s/%s/", "/%s/%s/ ", " /%s/%s/"} {
						opsCase(w, s, nil, []string{n + fmt.Sprintf(f, a, b)})
					}
					for _, c := range append(nums, args...) {
						opsCase(w, s, nil, []string{n + fmt.Sprintf("/%s/%s/%s/", a, b, c)})
					}
					if n == "map=" {
						opsCase(w, s, nil, []string{n + fmt.Sprintf("/%s/%s/A/A/", a, b)})
					}
				}
			}
		}
	}
	for _, op := range []string{"combine=Yearly", "combine=MONTHLY", "combine=skip", "combine=all", "combine=weekly", "combine=", "combine= yearly", "combine=yearly ", "combine=quarterly", "combine=none",
		"since=", "since=yesterday", "since=2020-13-01", "since=2020-00-10", "since=2020-10-00", "since=0", "since=-1", "since=+20200101", "since=99999999", "since=2020-01-01-01", "asof=31-02-2020", "asof=99", "asof=20200230", "asof=next week", "since=this decade",
		"depreciate=/A/B/12001/", "depreciate=/A/B/1200/", "depreciate=/A/B/1201/", "depreciate=/A/B/12000/", "depreciate=/A/B/012000/", "depreciate=/A/B/0/", "depreciate=/A/B/-1/", "depreciate=/A/B/1.5/", "depreciate=/A/B/1./"} {
		opsCase(w, s, nil, []string{op})
		opsCase(w, s, nil, []string{"map=/A/Z/", op, "map=/B/Y/"})
		opsCase(w, s, map[string][]string{"m": {"map=/A/Z/", op}}, []string{"m"})
		opsCase(w, s, map[string][]string{op: {"map=/A/Z/"}}, []string{op})
	}

	w.Section("sizes")
	for _, n := range []int{5, 50, 100, 128, 190, 200, 201, 256, 257, 500, 1025, 5000} {
		long := strings.Repeat("Q", n)
		many := strings.Repeat("A|", n) + "B"
		var chain, list []string
		macros := map[string][]string{}
		for i := 0; i < n; i++ {
			chain = append(chain, "map=/B/B/")
			list = append(list, fmt.Sprintf("map=/^A%s$/A%s/", strings.Repeat("a", i%50), strings.Repeat("a", i%50+1)))
			if i < 100 {
				macros[fmt.Sprint("m", i)] = []string{fmt.Sprintf("map=/^(A.*)$/${1}%d/", i%10), fmt.Sprint("m", i+1)}
			}
		}
		macros[fmt.Sprint("m", len(macros))] = []string{"map=/B/Z/"}
		opsCase(w, s, nil, []string{"map=/A/" + long + "/"})
		opsCase(w, s, nil, []string{"map=/" + many + "/X/"})
		opsCase(w, s, nil, []string{"map=/" + many + "/X/" + long + "/"})
		opsCase(w, s, nil, []string{"move=/^A$/" + long + "/0.5/"})
		opsCase(w, s, nil, []string{"mapccy=/USD/" + long + "/"})
		opsCase(w, s, nil, []string{"depreciate=/^A$/" + long + "/3/"})
		opsCase(w, s, nil, append(chain, "map=/A/Z/"))
		opsCase(w, s, nil, list)
		opsCase(w, s, macros, []string{"m0"})
		opsCase(w, s, map[string][]string{long: {"map=/A/Z/"}}, []string{long})
		opsCase(w, s, map[string][]string{"m": append(chain, "map=/A/Z/")}, []string{"m", "map=/Z/Y/"})
		opsCase(w, s, nil, []string{"map=/A/" + long})
		opsCase(w, s, nil, []string{long})
	}

	w.Section("documented operations")
	w.Case(func() string { return "the examples and the combine types of the help on operations" }, func(t *T) {
		r := w.cli("", "ops")
		if r.err != nil || !strings.Contains(r.out, "map=") {
			t.Failf("goledger ops: %v", r)
		}
		try := func(op string) {
			if err := (&app.App{}).BookOps(buildBook(s.ts, s.prices), op); err != nil {
				t.Failf("the help on operations has %q, which is refused: %v", op, err)
			}
			t.Trans(1)
			t.Nontrivial(op)
		}
		example := false
		for _, l := range strings.Split(r.out, "\n") {
			l = strings.TrimSpace(l)
			if l == "" || l == "Example:" {
				example = l != ""
				continue
			}
			if example && docOp.MatchString(l) {
				try(strings.ReplaceAll(l, "\"", ""))
			}
		}
		if m := docTypes.FindStringSubmatch(r.out); m != nil {
			for _, ty := range docWord.FindAllString(m[1], -1) {
				if ty != "or" && ty != "and" {
					try("combine=" + ty)
				}
			}
		}
	})

	w.Section("macro tables")
	syms := []string{"map=/^A$/B/", "combine=yearly", "m1", "m2", "m3", "unknown"}
	var bodies [][]string
	bodies = append(bodies, []string{})
	n := 2
	seqs(len(syms), n, func(ix []int) {
		var b []string
		for _, i := range ix {
			b = append(b, syms[i])
		}
		bodies = append(bodies, b)
	})
	tops := [][]string{{"m1"}, {"m1", "m2"}, {"map=/B/A/", "m3", "m1"}, {"m2", "m2"}, {}}
	for i, b1 := range bodies {
		for j, b2 := range bodies {
			for k, b3 := range bodies {
				if w.Done() {
					return
				}
				if !w.Thorough && (i+j*3+k*7)%4 != 0 && (k >= 7) {
					// quick: the third macro at full length in a fixed quarter of the tables
					continue
				}
				mm := map[string][]string{"m1": b1, "m2": b2, "m3": b3}
				for ti, top := range tops {
					if !w.Thorough && ti > 1 && (i+j+k)%3 != 0 {
						continue
					}
					opsCase(w, s, mm, top)
				}
			}
		}
	}
	// undefined parts of the table, names that look like operations, deep nesting
	opsCase(w, s, map[string][]string{"combine=yearly": {"combine=none"}}, []string{"combine=yearly"})
	opsCase(w, s, map[string][]string{"combine=yearly": {"combine=yearly"}}, []string{"combine=yearly"})
	opsCase(w, s, map[string][]string{"": {"combine=yearly"}}, []string{""})
	opsCase(w, s, map[string][]string{"a b": {"combine=yearly"}}, []string{"a b", " a b"})
	for _, n := range []int{3, 10, 40} {
		mm := map[string][]string{}
		for i := 0; i < n; i++ {
			mm[fmt.Sprintf("k%d", i)] = []string{fmt.Sprintf("k%d", i+1)}
		}
		mm[fmt.Sprintf("k%d", n)] = []string{"map=/A/Z/"}
		opsCase(w, s, mm, []string{"k0"})
		m2 := map[string][]string{}
		for k, v := range mm {
			m2[k] = v
		}
		m2[fmt.Sprintf("k%d", n)] = []string{"k0"}
		opsCase(w, s, m2, []string{"k0"})
		opsCase(w, s, mm, []string{fmt.Sprintf("k%d", n+1)})
	}

	w.Section("commands")
	text := ledgerText(s.ts, []string{s.prices[0].String()})
	valid := []string{"map=/^A$/Z/", "move=/A/Z/0.5/", "combine=yearly", "asof=2020-12-31", "since=2020-02-01", "mapccy=/X/USD/", "depreciate=/A/D/2/"}
	invalid := []string{"map=/(/Z/", "x", "combine=daily", "asof=2021-02-29", "move=/A/Z/x/", "depreciate=/A/D/0/", ""}
	macros := map[string][]string{"good": {valid[0], valid[2]}, "deep": {"good", valid[4]}, "bad": {valid[0], "x"}, "loop": {"good", "loop"}}
	mnames := []string{"bad", "deep", "good", "loop"}
	all := append(append(append([]string{}, valid...), invalid...), mnames...)
	expand := func(ops []string) []string {
		var out []string
		for _, o := range ops {
			switch o {
			case "good":
				out = append(out, valid[0], valid[2])
			case "deep":
				out = append(out, valid[0], valid[2], valid[4])
			default:
				out = append(out, o)
			}
		}
		return out
	}
	conf := tomlMacros(macros, mnames)
	cmds := [][]string{{"export", "--type=Ledger"}, {"export", "--type=Json"}, {"report", "--type=Json", "--splitby=none"}, {"report", "--type=Text", "--sum", "--ccy=USD"}, {"register", "--type=CSV", "--combined"}}
	seqs(len(all), 2, func(ix []int) {
		var ops []string
		for _, i := range ix {
			ops = append(ops, all[i])
		}
		for _, c := range cmds {
			c := c
			w.Case(func() string { return fmt.Sprintf("%s %q", strings.Join(c, " "), ops) }, func(t *T) {
				l := w.write("m.ledger", text)
				args := append(append([]string{"-l", l}, c...), ops...)
				flat := append(append([]string{"-l", l}, c...), expand(ops)...)
				if c[0] == "register" {
					args, flat = append(args, ".*"), append(flat, ".*")
				}
				m := mbookOf(s.ts, s.prices)
				bad := refRun(m, macros, ops, nil)
				r := w.cli(conf, args...)
				t.Trans(1)
				t.Nontrivial(fmt.Sprint(c, ops))
				if bad != "" {
					if r.err == nil {
						t.Failf("%q is accepted by the command: %v", bad, r)
					}
					if bad != "\x00" && !strings.Contains(r.err.Error(), bad) && !namesMacro(r.err, macros, ops) {
						t.Failf("the error does not name %q: %v", bad, r.err)
					}
					if strings.Contains(r.out, "USD") {
						t.Failf("a refused command printed %q", r.out)
					}
					return
				}
				if r.err != nil {
					t.Failf("refused: %v", r.err)
				}
				if len(flat) != len(args) {
					f := w.cli("", flat...)
					if f.err != nil || f.out != r.out {
						t.Failf("macros and the same operations in their place differ: %v and %v", r, f)
					}
				}
				if c[0] == "export" && c[1] == "--type=Ledger" {
					// the operations reached the book
					if got, err := w.loadText(r.out); err != nil {
						t.Failf("the export cannot be loaded: %v", err)
					} else if d := diffBook(got, m); d != "" && !strings.Contains(fmt.Sprint(ops), "depreciate") {
						t.Failf("the exported book: %s", d)
					}
				}
				t.State(r.out)
				t.Trace()
			})
		}
	})
}
