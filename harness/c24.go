//go:build verifmc

package main

import (
	"fmt"
	"math/big"
	"strconv"
	"strings"
)

func init() {
	register(&Prop{ID: "C24", Level: "model_checking",
		Rule:        "generate scripts of the real program over the starting ledgers: every sequence of the script operations of the alphabet up to the depth bound with the whole book read (by iteration and by index) before and after each step and every earlier reading read again at the end, generated transactions for every known and unknown date and payee after every such sequence, every value of the text, amount and date alphabets, and every failing statement at every place; compared with a reference model; states are distinct contents seen, transitions are scripts run",
		Assumptions: []string{"the texts of the ledger are those of C01"},
		Run:         runC24})
}

const scriptDump = `
def enc(s):
  return ".".join([str(o) for o in s.codepoint_ords()])
def post(p):
  if type(p.amount) != "float" or type(p.balance) != "float":
    error("amounts are %s and %s" % (type(p.amount), type(p.balance)))
  return "|".join([p.date, enc(p.payee), enc(p.transaction_note), enc(p.account), enc(p.ccy), enc(p.posting_note), str(p.amount), str(p.balance)])
def dump(tag, ts):
  print("%s|B|%d" % (tag, len(ts)))
  for t in ts:
    print("%s|T|%s|%s|%s|%d" % (tag, t.date, enc(t.payee), enc(t.transaction_note), len(t)))
    for p in t:
      print(tag + "|P|" + post(p))
def dumpi(tag, ts):
  print("%s|B|%d" % (tag, len(ts)))
  for i in range(len(ts)):
    t = ts[i-len(ts)]
    print("%s|T|%s|%s|%s|%d" % (tag, t.date, enc(t.payee), enc(t.transaction_note), len(ts[i])))
    for j in range(len(t)):
      print(tag + "|P|" + post(ts[i][j]))
      if post(ts[i][j]) != post(t[j-len(t)]) or type(t) != "transaction" or type(t[j]) != "posting":
        error("differs")
`

// seen is what a script printed of a book: lines of one reading.
func seenLines(out, tag string) (lines [][]string) {
	for _, l := range strings.Split(out, "\n") {
		if strings.HasPrefix(l, "; "+tag+"|") {
			lines = append(lines, strings.Split(l, "|")[1:])
		}
	}
	return
}

func unord(s string) string {
	if s == "" {
		return ""
	}
	var sb strings.Builder
	for _, f := range strings.Split(s, ".") {
		n, err := strconv.Atoi(f)
		if err != nil {
			return "?" + s
		}
		sb.WriteRune(rune(n))
	}
	return sb.String()
}

func dateDigits(s string) int {
	n, err := strconv.Atoi(strings.NewReplacer("/", "", "-", "").Replace(s))
	if err != nil || len(s) < 8 {
		return -1
	}
	return n
}

// nearest is the floating-point number next to v.
func nearest(v *big.Rat) float64 {
	f, err := strconv.ParseFloat(v.FloatString(60), 64)
	if err != nil {
		panic("harness: " + err.Error())
	}
	return f
}

// checkSeen compares a reading with the model.
func (t *T) checkSeen(out, tag string, m *MBook) {
	lines := seenLines(out, tag)
	fail := func(f string, a ...interface{}) {
		t.Failf("reading %s: %s\nmodel:\n%s\noutput:\n%s", tag, fmt.Sprintf(f, a...), m.canon(), clip(out, 3000))
	}
	next := func(kind string, n int) []string {
		if len(lines) == 0 {
			fail("ends early")
		}
		l := lines[0]
		lines = lines[1:]
		if l[0] != kind || len(l) != n {
			fail("line %q where %s is expected", l, kind)
		}
		return l[1:]
	}
	trs := m.trans()
	if l := next("B", 2); l[0] != fmt.Sprint(len(trs)) {
		fail("%s transactions, expected %d", l[0], len(trs))
	}
	bal := map[[2]string]*big.Rat{}
	for _, tr := range trs {
		l := next("T", 5)
		if dateDigits(l[0]) != tr[0].Date || unord(l[1]) != tr[0].Payee || !member(unord(l[2]), tr[0].TNotes) || l[3] != fmt.Sprint(len(tr)) {
			fail("transaction %q %q %q of %s, expected %s of %d", l[0], unord(l[1]), unord(l[2]), l[3], mpost(tr[0]), len(tr))
		}
		tn := unord(l[2])
		for _, p := range tr {
			l := next("P", 9)
			k := [2]string{p.Acct, p.CCY}
			if bal[k] == nil {
				bal[k] = new(big.Rat)
			}
			bal[k].Add(bal[k], p.Val)
			amt, e1 := strconv.ParseFloat(l[6], 64)
			bl, e2 := strconv.ParseFloat(l[7], 64)
			if dateDigits(l[0]) != p.Date || unord(l[1]) != p.Payee || unord(l[2]) != tn || unord(l[3]) != p.Acct || unord(l[4]) != p.CCY || !member(unord(l[5]), p.Notes) {
				fail("posting %q, expected %s", l, mpost(p))
			}
			if e1 != nil || e2 != nil || amt != nearest(p.Val) || bl != nearest(bal[k]) {
				fail("posting %s has amount %s and balance %s, expected %v and %v", mpost(p), l[6], l[7], nearest(p.Val), nearest(bal[k]))
			}
		}
	}
	if len(lines) > 0 {
		fail("more lines: %q", lines[0])
	}
	t.State(m.canon())
}

type scriptOp struct {
	code string
	op   Op
}

func runC24(w *W) {
	mop := func(s, r, a string) scriptOp {
		c := fmt.Sprintf(".map(%s, %s)", strq(s), strq(r))
		if a != "" {
			c = fmt.Sprintf(".map(to=%s, alt=%s, **{\"from\": %s})", strq(r), strq(a), strq(s))
		}
		return scriptOp{c, opMap(s, r, a)}
	}
	ops := []scriptOp{
		mop("^A", "B", ""), mop("^([^:]*):(.*)$", "$2:$1", ""), mop(".*", "All", ""), mop("B", "b", "Other"), mop(":[^:]*$", ":Z", ""), mop("^E", "E", "A"),
		{`.since("2020-01-15")`, opSince("", 20200115)},
		{`.since(date="2020/03")`, opSince("", 20200301)},
		{`.since("2021")`, opSince("", 20210101)},
		{`.asof("2020-01-16")`, opAsof("", 20200116)},
		{`.asof(date="2021")`, opAsof("", 20210101)},
		{`.asof("2020-03-01")`, opAsof("", 20200301)},
	}
	run := func(t *T, l, code string, more ...string) cliOut {
		t.Trans(1)
		return w.cli("", append([]string{"-l", l, "generate", "--code", code}, more...)...)
	}
	starts := startBooks()
	depth := 3
	if w.Thorough {
		depth = 4
	}

	w.Section("operations and readings")
	for si := range starts {
		st := starts[si]
		var pl []string
		for _, p := range st.prices {
			pl = append(pl, p.String())
		}
		text := ledgerText(st.ts, pl)
		for d := 0; d <= depth; d++ {
			seqs(len(ops), d, func(s []int) {
				if w.Done() {
					return
				}
				seq := append([]int{}, s...)
				desc := func() string {
					var o []string
					for _, k := range seq {
						o = append(o, "data"+ops[k].code)
					}
					return st.name + ": " + strings.Join(o, "; ")
				}
				w.Case(desc, func(t *T) {
					l := w.write("s.ledger", text)
					code := scriptDump
					models := []*MBook{mbookOf(st.ts, st.prices)}
					read := func(i int) {
						code += fmt.Sprintf("dump(\"a%d\", data.transactions)\ndumpi(\"b%d\", data.transactions)\ns%d = data.transactions\n", i, i, i)
					}
					read(0)
					for i, k := range seq {
						code += fmt.Sprintf("r%d = data%s\n", i, ops[k].code)
						read(i + 1)
						m := models[i].clone()
						ops[k].op.Model(m)
						models = append(models, m)
					}
					for i := range models {
						code += fmt.Sprintf("dump(\"z%d\", s%d)\n", i, i)
					}
					if len(seq) > 0 {
						code += fmt.Sprintf("dump(\"r\", r%d.transactions)\n", len(seq)-1)
					}
					c := run(t, l, code)
					if c.err != nil {
						t.Failf("the script fails: %v %s", c.err, c.errout)
					}
					for i, m := range models {
						for _, k := range []string{"a", "b", "z"} {
							t.checkSeen(c.out, fmt.Sprint(k, i), m)
						}
					}
					if len(seq) > 0 {
						t.checkSeen(c.out, "r", models[len(models)-1])
					}
					for _, x := range strings.Split(c.out, "\n") {
						if x != "" && x[0] != ';' {
							t.Failf("a transaction is printed: %s", c)
						}
					}
					t.Nontrivial(desc())
					t.Trace()
				})
			})
		}
	}

	w.Section("generated transactions and the ledger")
	for si := range starts {
		st := starts[si]
		text := ledgerText(st.ts, nil)
		for d := 0; d <= 3; d++ {
			if d == 3 && !w.Thorough {
				continue
			}
			seqs(len(ops), d, func(s []int) {
				for order := 0; order < 2; order++ {
					if w.Done() {
						return
					}
					seq, order := append([]int{}, s...), order
					w.Case(func() string {
						o := ""
						for _, k := range seq {
							o += "data" + ops[k].code + "; "
						}
						return fmt.Sprintf("%s: %sgenerating (%d)", st.name, o, order)
					}, func(t *T) {
						l := w.write("s.ledger", text)
						orig := mbookOf(st.ts, nil)
						var code string
						for _, k := range seq {
							code += "data" + ops[k].code + "\n"
						}
						var known, fresh []MTxn
						n := 0
						add := func(date int, payee string) MTxn {
							n++
							return tx(date, payee, ln("GenA", fmt.Sprint(n), "G"), ln("GenB", fmt.Sprint(-n), "G"))
						}
						for _, tr := range orig.trans() {
							known = append(known, add(tr[0].Date, tr[0].Payee))
						}
						for _, tr := range orig.trans() {
							fresh = append(fresh, add(tr[0].Date, "new"+tr[0].Payee), add(tr[0].Date+40000, "other"+tr[0].Payee))
						}
						fresh = append(fresh, add(19000101, "x"), add(21000101, "x"))
						src := func(ts []MTxn) (o string) {
							for _, x := range ts {
								o += fmt.Sprintf("add(date=\"%04d-%02d-%02d\", desc=%s, amt=%s, ccy=\"G\", account=\"GenA\", caccount=\"GenB\")\n", x.Date/10000, x.Date/100%100, x.Date%100, strq(x.Payee), x.Posts[0].Amt.RatString())
							}
							return
						}
						if order == 0 {
							code += src(known) + src(fresh)
						} else {
							code = src(known) + code + src(fresh)
						}
						c := run(t, l, code)
						if c.err != nil {
							t.Failf("the script fails: %v", c.err)
						}
						t.readAs(c.out, mbookOf(fresh, nil), "generated")
						c = run(t, l, code, "--dedup=false")
						if c.err != nil {
							t.Failf("the script fails: %v", c.err)
						}
						t.readAs(c.out, mbookOf(append(append([]MTxn{}, known...), fresh...), nil), "generated without duplicate removal")
						t.Nontrivial(fmt.Sprint(si, seq, order))
						t.Trace()
					})
				}
			})
		}
	}

	w.Section("values")
	amounts := []string{"1", "-1", "0.1", "0.2", "0.3", "123456789.123456789", "100000000000000000000", "99999999999999999999.99", "0.000001", "1234567890123456789012345678901234567890", "9007199254740993", "0.30000000000000004", "5e0", "4.35", "1.005", "-2.675", "0.000000000000000000000000000001"}
	for _, a := range amounts {
		if strings.Contains(a, "e") {
			continue
		}
		for _, b := range amounts {
			if strings.Contains(b, "e") {
				continue
			}
			a, b := a, b
			w.Case(func() string { return "amounts " + a + " and " + b }, func(t *T) {
				neg := func(s string) string { return exactDec(new(big.Rat).Neg(ratS(s))) }
				ts := []MTxn{tx(20200101, "p", ln("A", a, "X"), ln("B", neg(a), "X")), tx(20200102, "p", ln("A", b, "X"), ln("C", neg(b), "X")), tx(20200103, "p", ln("A", a, "Y"), ln("B", neg(a), "Y"))}
				c := run(t, w.write("s.ledger", ledgerText(ts, nil)), scriptDump+"dump(\"a\", data.transactions)\ndumpi(\"b\", data.transactions)")
				if c.err != nil {
					t.Failf("the script fails: %v", c.err)
				}
				t.checkSeen(c.out, "a", mbookOf(ts, nil))
				t.checkSeen(c.out, "b", mbookOf(ts, nil))
				t.Nontrivial(a + b)
			})
		}
	}
	texts := []string{"p", "", "é à", "a  b", "\U0001F600", "q \"x\"", "p (2)", "a,b|c", "%d", "\\n"}
	notes := []string{"", "n", "; x", "é", "\"", "a = b", "%s"}
	ccys := []string{"X", "$", "€", "\"A B\"", "\"1\"", "-"}
	for _, p := range texts {
		for _, n := range notes {
			for _, pn := range notes {
				for _, cc := range ccys {
					if cc == "-" || strings.HasPrefix(n, "; ") && !w.Thorough && pn != "" {
						continue
					}
					p, n, pn, cc := p, n, pn, cc
					w.Case(func() string { return fmt.Sprintf("payee %q, notes %q and %q, currency %s", p, n, pn, cc) }, func(t *T) {
						ts := []MTxn{noted(tx(20200229, p, ln("A:b_1'&", "5", cc), ln("B", "-5", cc)), n, pn)}
						l := w.write("s.ledger", ledgerText(ts, nil))
						c := run(t, l, scriptDump+"dump(\"a\", data.transactions)\ndumpi(\"b\", data.transactions)")
						if c.err != nil {
							t.Failf("the script fails: %v", c.err)
						}
						for i := range ts[0].Posts {
							ts[0].Posts[i].CCY = strings.Trim(cc, "\"")
						}
						t.checkSeen(c.out, "a", mbookOf(ts, nil))
						t.checkSeen(c.out, "b", mbookOf(ts, nil))
						t.Nontrivial(p + "|" + n + "|" + pn + cc)
					})
				}
			}
		}
	}

	w.Section("failing scripts")
	fails := []string{
		`error("stop")`, `error(msg="stop")`, `error()`, `error(1)`, `error("")`, `fail("stop")`, `x = 1//0`, `x = 1/0`, `x = [][0]`, `x = {}["a"]`, `nosuch`, `x = "a" + 1`, `f(`, `def f(:`, `x = int("a")`, `for i in 5: pass`, `load("x", "y")`,
		`data.nosuch`, `data.transactions.nosuch`, `data.transactions[99]`, `data.transactions[-99]`, `data.transactions[0].nosuch`, `data.transactions[0][99]`, `data.transactions[0][0].nosuch`, `data.transactions["a"]`, `data.transactions[0][0].amount = 5`, `data.transactions = []`, `data.transactions[0] = 5`, `data.transactions[0][0] = 5`, `data.transactions.append(1)`, `del data`, `x = {data: 1}`, `x = {data.transactions: 1}`, `x = {data.transactions[0]: 1}`, `x = {data.transactions[0][0]: 1}`,
		`data()`, `data.since` + `()`, `data.since(5)`, `data.since(None)`, `data.since("")`, `data.since("x")`, `data.since("2020-02-30")`, `data.since("2020-13-01")`, `data.since("2020-01-01", "2021-01-01")`, `data.since(to="2020")`, `data.since("0000")`, `data.since("2019-02-29")`,
		`data.asof()`, `data.asof(5)`, `data.asof("")`, `data.asof("x")`, `data.asof("2020-02-30")`, `data.asof("2020-00-10")`, `data.asof("2020-01-01", 1)`, `data.asof(x="2020")`, `data.asof("2021-04-31")`,
		`data.map()`, `data.map("a")`, `data.map("(", "b")`, `data.map("[", "b")`, `data.map("*", "b")`, `data.map("a{2,1}", "b")`, `data.map("(?P<x", "b")`, `data.map("\\8", "b")`, `data.map(1, "b")`, `data.map("a", 1)`, `data.map("a", "b", 1)`, `data.map("a", "b", "c", "d")`, `data.map("a", None)`, `data.map("a", "b", x="c")`, `data.map("(?<!a)", "b")`,
		`since("2020")`, `add()`, `add("2020-01-01")`, `add("2020-01-01", "x", "y")`, `def f(n): return f(n+1)` + "\nf(0)", `[][1:2][0]`, `x = "%d" % "a"`, `x = sorted([1, "a"])`, `"a".nosuch()`, `print(nosuch)`, `assert_(1)`, `import os`, `data.transactions[0][0].since("2020")`, `x = [error("in a list") for i in range(3)]`, `(lambda: error("lambda"))()`, `sorted([2,1], key=lambda x: error("key"))`, `max([1,2], key=lambda x: 1//0)`,
	}
	pre := []struct{ name, code string }{{"at once", ""}, {"behind a generated transaction", "add(date=\"2020-05-05\", desc=\"gen\", amt=1, ccy=\"G\", account=\"GA\", caccount=\"GB\")\n"}, {"behind an operation", "data.since(\"2020\").map(\"A\", \"B\")\nadd(date=\"2020-05-05\", desc=\"gen\", amt=1, ccy=\"G\", account=\"GA\", caccount=\"GB\")\n"}}
	for _, f := range fails {
		for _, p := range pre {
			for place := 0; place < 4; place++ {
				f, p, place := f, p, place
				code := f
				ind := strings.Replace(f, "\n", "\n  ", -1)
				switch place {
				case 1:
					code = "def g():\n  " + ind + "\n  return 1\ng()"
				case 2:
					code = "def g():\n  for i in [1,2]:\n    if i == 2:\n      " + strings.Replace(f, "\n", "\n      ", -1) + "\ng()\nadd(date=\"2020-05-05\", desc=\"gen\", amt=1, ccy=\"G\", account=\"GA\", caccount=\"GB\")"
				case 3:
					code = "def g(n):\n  if n > 0:\n    return g(n-1)\n  " + ind + "\n  return 1\nx = [g(k) for k in range(3)]"
				}
				src := p.code + code
				w.Case(func() string { return p.name + ": " + code }, func(t *T) {
					l := w.write("s.ledger", ledgerText(starts[0].ts, nil))
					for _, more := range [][]string{nil, {"--dedup=false"}} {
						c := run(t, l, src, more...)
						if c.err == nil {
							t.Failf("the script succeeds: %s", c)
						}
						if strings.HasPrefix(f, `error("stop")`) || strings.HasPrefix(f, `error(msg`) || strings.HasPrefix(f, `fail("stop")`) {
							if !strings.Contains(c.err.Error(), "stop") {
								t.Failf("the message is missing: %v", c.err)
							}
						}
						for _, x := range strings.Split(c.out, "\n") {
							if x != "" && x[0] >= '0' && x[0] <= '9' {
								t.Failf("a transaction is printed: %s", c)
							}
						}
					}
					t.Nontrivial(src)
					t.Trace()
				})
			}
		}
	}
	harmless := []string{"", "# nothing", "pass", "x = 1", "data", "data.transactions", "x = [t for t in data.transactions]", "x = len(data.transactions)", "x = dir(data)", "x = dir(data.transactions[0])", "x = hasattr(data, \"nosuch\")", "x = getattr(data, \"nosuch\", 5)", "x = str(data) + str(data.transactions) + str(data.transactions[0]) + str(data.transactions[0][0])", "x = bool(data) and bool(data.transactions)", "x = type(data)", "print()", "print(\"a\", 1, data)", "x = list(reversed([p.account for t in data.transactions for p in t]))", "x, y = 1, 2\nx = 3.5e3", "x = sum_ if False else 1\n", "f = data.since\nf(\"2020\")", "for t in data.transactions:\n  data.since(\"2020-03-01\")\n  for p in t:\n    data.asof(\"2020-03-02\")", "m = data.map\nm(\"A\", \"B\")\nm(\"B\", \"C\")", "x = zip(data.transactions, data.transactions)", "x = {p.account: p.amount for t in data.transactions for p in t}", "x = sorted(data.transactions, key=lambda t: t.payee)", "def f(n):\n  return n if n <= 0 else f(n-1)\nf(900)"}
	for _, h := range harmless {
		h := h
		w.Case(func() string { return "nothing generated: " + h }, func(t *T) {
			if strings.Contains(h, "sum_") {
				return
			}
			for i := range starts {
				l := w.write("s.ledger", ledgerText(starts[i].ts, nil))
				if i == 4 && strings.Contains(h, "[0]") {
					continue
				}
				c := run(t, l, h)
				if c.err != nil {
					t.Failf("the script fails on %s: %v", starts[i].name, c.err)
				}
				for _, x := range strings.Split(c.out, "\n") {
					if x != "" && x[0] != ';' {
						t.Failf("something is printed: %s", c)
					}
				}
			}
			t.Nontrivial(h)
		})
	}
	w.Case(func() string { return "failing files" }, func(t *T) {
		l := w.write("s.ledger", ledgerText(starts[0].ts, nil))
		if c := run(t, l, "file:"+w.Scratch+"/none.star"); c.err == nil {
			t.Failf("missing code: %s", c)
		}
		if c := run(t, w.Scratch+"/none.ledger", "x = 1"); c.err == nil {
			t.Failf("missing ledger: %s", c)
		}
		if c := run(t, l, "x = 1", "extra"); c.err == nil {
			t.Failf("extra argument: %s", c)
		}
		if c := w.cli("", "-l", l, "generate"); c.err == nil {
			t.Failf("no code: %s", c)
		}
		if c := run(t, w.write("bad.ledger", "2020/01/01 p\n  A  1 X\n"), "x = 1"); c.err == nil {
			t.Failf("unbalanced ledger: %s", c)
		}
	})

	w.Section("configured generators")
	for bits := 0; bits < 8; bits++ {
		bits := bits
		w.Case(func() string { return fmt.Sprintf("configured, dedup bits %03b", bits) }, func(t *T) {
			src := "add(date=\"2020-02-29\", desc=\"p\", amt=1, ccy=\"G\", account=\"GA\", caccount=\"GB\")\nadd(date=\"2020-02-29\", desc=\"n\", amt=2, ccy=\"G\", account=\"GA\", caccount=\"GB\")"
			code := src
			if bits&4 != 0 {
				code = "file:" + w.write("c.star", src)
			}
			conf := "[generate.g]\ncode = " + tomlStr(code) + "\n"
			dedup := bits&1 != 0
			if dedup {
				conf += "dedup = true\n"
			}
			l := w.write("s.ledger", ledgerText(starts[0].ts, nil))
			args := []string{"-l", l, "generate", "g"}
			if bits&2 != 0 {
				dedup = !dedup
				args = append(args, fmt.Sprintf("--dedup=%v", dedup))
			}
			c := w.cli(conf, args...)
			t.Trans(1)
			want := []MTxn{tx(20200229, "p", ln("GA", "1", "G"), ln("GB", "-1", "G")), tx(20200229, "n", ln("GA", "2", "G"), ln("GB", "-2", "G"))}
			if dedup {
				want = want[1:]
			}
			if c.err != nil {
				t.Failf("fails: %v", c.err)
			}
			t.readAs(c.out, mbookOf(want, nil), "generated")
			t.Nontrivial(fmt.Sprint(bits))
		})
	}
}
